---------------------------- MODULE StepStab ----------------------------
(* Trace validation of steps recorded with iterators and references held across the call. *)
EXTENDS StabOps, Json
CONSTANTS TRACE, BLOCK
Trace == ndJsonDeserialize(TRACE)
N == Len(Trace)
VARIABLE l
Init == \E b \in 0..(N \div BLOCK) : l = b * BLOCK + 1 /\ l <= N
Next == l % BLOCK # 0 /\ l < N /\ l' = l + 1
StepAllowed == LET e == Trace[l] IN StabAllowed(e.t, e.c, e.s, e.o, e.n, e.h, e.e) \/ PrintT(<<"BAD", l>>)
=============================================================================
