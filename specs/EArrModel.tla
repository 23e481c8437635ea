----------------------------- MODULE EArrModel ------------------------------
EXTENDS EArrOps, Json, SequencesExt
CONSTANTS KIND, MINCAP, MAXCAP, SIGFILE
VARIABLES cap, s
vars == <<cap, s>>
Init == cap \in MINCAP..MAXCAP /\ s = Rep(cap, 0)
Next == \E op \in AllOps(KIND, cap) : \E o \in Outs(KIND, cap, s, op) : o[1] = "ok" /\ s' = o[3] /\ cap' = cap
(* always full, every value in range *)
TypeOk == Len(s) = cap /\ \A i \in 1..cap : s[i] \in 0..(NVal - 1)
Functional == \A op \in AllOps(KIND, cap) : Cardinality(Outs(KIND, cap, s, op)) = 1
(* writing one label changes that slot and no other *)
Independent == \A op \in AllOps(KIND, cap) : op[1] \in {"at_set", "idx_set"} =>
     \A o \in Outs(KIND, cap, s, op) : \A i \in 1..cap : o[3][i] = IF i = op[2] + 1 THEN op[3] ELSE s[i]
EmitSigs == ndJsonSerialize(SIGFILE, SetToSeq(Sigs(KIND)))
ASSUME EmitSigs
ASSUME PrintT(<<"OBLIGATIONS", [c \in MINCAP..MAXCAP |-> (NVal ^ c) * Cardinality(AllOps(KIND, c))]>>)
=============================================================================
