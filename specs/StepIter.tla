---------------------------- MODULE StepIter ----------------------------
(* Trace validation of iterator operations recorded from the real containers and ranges. *)
EXTENDS IterOps, Json
CONSTANTS TRACE, BLOCK
Trace == ndJsonDeserialize(TRACE)
N == Len(Trace)
VARIABLE l
Init == \E b \in 0..(N \div BLOCK) : l = b * BLOCK + 1 /\ l <= N
Next == l % BLOCK # 0 /\ l < N /\ l' = l + 1
StepAllowed == LET e == Trace[l] IN IterAllowed(e.t, e.s, e.i, e.o, e.k, e.r, e.n) \/ PrintT(<<"BAD", l>>)
=============================================================================
