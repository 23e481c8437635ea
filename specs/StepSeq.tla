---------------------------- MODULE StepSeq ----------------------------
(* Trace validation: every step recorded from the real container must be a  *)
(* transition the specification allows.                                     *)
(*   ASPECT "full"    verdict, returned value and next value                *)
(*          "verdict" only whether, and as what, the call was reported      *)
(*          "abort"   the same under the default policy, which aborts       *)
EXTENDS SeqOps, Json
CONSTANTS TRACE, BLOCK, ASPECT
Trace == ndJsonDeserialize(TRACE)
N == Len(Trace)
VARIABLE l
Valid(e) ==
  CASE ASPECT = "full" -> <<e.k, e.r, e.n>> \in Outs(e.t, e.c, e.s, e.o)
    [] ASPECT = "verdict" -> e.k \in Verdicts(e.t, e.c, e.s, e.o)
    [] ASPECT = "abort" -> \E v \in Verdicts(e.t, e.c, e.s, e.o) : e.k = IF v = "ok" THEN "ok" ELSE "abort"
Init == \E b \in 0..(N \div BLOCK) : l = b * BLOCK + 1 /\ l <= N
Next == l % BLOCK # 0 /\ l < N /\ l' = l + 1
StepAllowed == Valid(Trace[l]) \/ PrintT(<<"BAD", l>>)
=============================================================================
