---------------------------- MODULE StepPair ----------------------------
(* Trace validation of two-container steps. *)
EXTENDS PairOps, Json
CONSTANTS TRACE, BLOCK
Trace == ndJsonDeserialize(TRACE)
N == Len(Trace)
VARIABLE l
Init == \E b \in 0..(N \div BLOCK) : l = b * BLOCK + 1 /\ l <= N
Next == l % BLOCK # 0 /\ l < N /\ l' = l + 1
StepAllowed == LET e == Trace[l] IN PairAllowed(e.t, e.c, e.sa, e.sb, e.o, e.k, e.r, e.na, e.nb) \/ PrintT(<<"BAD", l>>)
=============================================================================
