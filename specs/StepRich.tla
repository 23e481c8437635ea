---------------------------- MODULE StepRich ----------------------------
(* Trace validation of rich enums, enum adapters and string literals. *)
EXTENDS RichOps, Json
CONSTANTS TRACE, BLOCK
Trace == ndJsonDeserialize(TRACE)
N == Len(Trace)
VARIABLE l
Init == \E b \in 0..(N \div BLOCK) : l = b * BLOCK + 1 /\ l <= N
Next == l % BLOCK # 0 /\ l < N /\ l' = l + 1
StepAllowed ==
    LET e == Trace[l] IN
    \/ IF e.t = "lit" THEN LitEnabled(e.s, e.o) /\ <<e.k, e.r>> \in LitOuts(e.s, e.o)
       ELSE RichEnabled(e.t, e.s, e.o) /\ <<e.k, e.r, e.q, e.n>> \in RichOuts(e.t, e.s, e.o)
    \/ PrintT(<<"BAD", l>>)
=============================================================================
