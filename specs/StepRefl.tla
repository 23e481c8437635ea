---------------------------- MODULE StepRefl ----------------------------
(* Trace validation of reflection and struct views. *)
EXTENDS ReflOps, Json
CONSTANTS TRACE, BLOCK
Trace == ndJsonDeserialize(TRACE)
N == Len(Trace)
VARIABLE l
Init == \E b \in 0..(N \div BLOCK) : l = b * BLOCK + 1 /\ l <= N
Next == l % BLOCK # 0 /\ l < N /\ l' = l + 1
StepAllowed == ReflAllowed(Trace[l]) \/ PrintT(<<"BAD", l>>)
=============================================================================
