----------------------------- MODULE StabModel -----------------------------
(* The stability promises against the value-level specifications: for every *)
(* value and call of the model, following the promises leads to the same    *)
(* element, different elements stay different, and (node containers) every  *)
(* element that is still there is promised to be reachable.                 *)
EXTENDS StabOps
CONSTANTS KIND, MINCAP, MAXCAP
S == INSTANCE SeqOps WITH NV <- 3
IsSeq == KIND \in {"vector", "deque", "list", "cdeque"}
VARIABLES cap, s
vars == <<cap, s>>
Outcomes(op) == IF IsSeq THEN S!Outs(KIND, cap, s, op) ELSE Outs(KIND, cap, s, op)
Ops == IF IsSeq THEN S!AllOps(KIND, cap, Len(s)) ELSE AllOps(KIND, cap, Len(s))
Init == cap \in MINCAP..MAXCAP /\ s = <<>>
Next == \E op \in Ops : \E o \in Outcomes(op) : o[1] = "ok" /\ s' = o[3] /\ cap' = cap
Writes == {"set_it", "set_rit", "set_idx", "set_at", "set_data", "set_front", "set_back", "at_set", "idx_set", "ioa_c", "ioa_m", "ioa_h", "ioa_hm", "ioa_a"}
SameElement(op, i, j, n) ==
    IF IsSeq THEN op[1] \in Writes \/ n[j] = s[i]
    ELSE Key(KIND, n[j]) = Key(KIND, s[i]) /\ (op[1] \in Writes \/ n[j] = s[i])
Sound == \A op \in Ops : \A o \in Outcomes(op) : o[1] = "ok" =>
           LET tr == Track(KIND, cap, s, op, o[3]) IN
           \A i \in 1..Len(s) : tr[i] \in 0..Len(o[3]) /\ (tr[i] # 0 => SameElement(op, i, tr[i], o[3]))
Injective == \A op \in Ops : \A o \in Outcomes(op) : o[1] = "ok" =>
           LET tr == Track(KIND, cap, s, op, o[3]) IN
           \A i, j \in 1..Len(s) : i < j /\ tr[i] # 0 /\ tr[j] # 0 => IF Hashed(KIND) THEN tr[i] # tr[j] ELSE tr[i] < tr[j]
(* node containers: what is not promised has been erased: the count adds up *)
Complete == NodeKind(KIND) => \A op \in Ops : op[1] \notin Rebuilt =>
           \A o \in Outcomes(op) : o[1] = "ok" =>
             LET tr == Track(KIND, cap, s, op, o[3])
                 kept == Cardinality({i \in 1..Len(s) : tr[i] # 0})
             IN IF Len(o[3]) >= Len(s) THEN kept = Len(s) ELSE kept = Len(o[3])
=============================================================================
