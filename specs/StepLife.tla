----------------------------- MODULE StepLife -------------------------------
(* Every call recorded from a real container, with the lifetime events of   *)
(* its elements: legal one by one, and at rest afterwards.                  *)
EXTENDS LifeOps, Json
CONSTANTS TRACE, BLOCK
Trace == ndJsonDeserialize(TRACE)
N == Len(Trace)
VARIABLE l
Valid(e) == CallOk({e.b[i] : i \in 1..Len(e.b)}, e.e, e.w, e.z)
Init == \E b \in 0..(N \div BLOCK) : l = b * BLOCK + 1 /\ l <= N
Next == l % BLOCK # 0 /\ l < N /\ l' = l + 1
StepAllowed == Valid(Trace[l]) \/ PrintT(<<"BAD", l>>)
=============================================================================
