------------------------------ MODULE SeqModel ------------------------------
(* The container as a state machine: TLC enumerates every abstract value    *)
(* and every call, and checks the laws users rely on.                       *)
EXTENDS SeqOps, Json, SequencesExt
CONSTANTS KIND, MINCAP, MAXCAP, SIGFILE
VARIABLES cap, s
vars == <<cap, s>>
Init == cap \in MINCAP..MAXCAP /\ s = <<>>
Next == \E op \in AllOps(KIND, cap, Len(s)) :
          \E o \in Outs(KIND, cap, s, op) :
             /\ o[1] = "ok"
             /\ s' = o[3] /\ cap' = cap
Spec == Init /\ [][Next]_vars

Bounded == Len(s) <= cap /\ \A i \in 1..Len(s) : s[i] \in 0..(NV - 1)
(* every call has exactly one outcome (totality and determinism of the contract) *)
Functional == \A op \in AllOps(KIND, cap, Len(s)) : Cardinality(Outs(KIND, cap, s, op)) = 1
(* errors are reported exactly when a limit is exceeded: a circular container never refuses *)
NeverRefuses == Circular(KIND) => \A op \in AllOps(KIND, cap, Len(s)) :
      op[1] \notin {"resize", "resize_v", "resize_a", "resize_far"} =>
      \A o \in Outs(KIND, cap, s, op) : o[1] # "length_error"
(* contents conservation: an insert never invents or loses elements below capacity *)
InsertErase == \A op \in AllOps(KIND, cap, Len(s)) : op[1] = "insert_c" /\ Len(s) < cap =>
      \A o \in Outs(KIND, cap, s, op) : o[1] = "ok" /\ RemoveRange(o[3], op[2], op[2] + 1) = s
(* overflow of a circular container keeps the newest elements *)
KeepsNewest == Circular(KIND) => \A v \in 0..(NV - 1) :
      \A o \in Outs(KIND, cap, s, <<"push_c", v>>) :
         LET full == Append(s, v) IN o[3] = SubSeq(full, MaxOf(1, Len(full) - cap + 1), Len(full))
ReportedKinds == \A op \in AllOps(KIND, cap, Len(s)) : \A o \in Outs(KIND, cap, s, op) :
      o[1] \in {"ok", "length_error", "out_of_range", "empty", "invalid"}
EmitSigs == ndJsonSerialize(SIGFILE, SetToSeq(Sigs(KIND)))
ASSUME EmitSigs
(* number of (state, call) obligations the implementation has to be run through *)
RECURSIVE SumObl(_, _)
SumObl(c, n) == IF n < 0 THEN 0 ELSE SumObl(c, n - 1) + (NV ^ n) * Cardinality(AllOps(KIND, c, n))
ASSUME PrintT(<<"OBLIGATIONS", [c \in MINCAP..MAXCAP |-> SumObl(c, c)]>>)
=============================================================================
