------------------------------ MODULE RefModel ------------------------------
EXTENDS RefOps
CONSTANTS KIND, NK
VARIABLE s
Vals == 0..1
CellVals == [1..NC -> Vals]
RefStates == CASE KIND = "oref" -> [1..2 -> Targets] [] KIND = "pview" -> [1..2 -> Cells] [] KIND = "inout" -> [1..1 -> Cells]
               [] KIND = "rmap" -> Maps(NK, RMapCap) [] OTHER -> Maps(NK, NK)
Init == s \in {<<c, r>> : c \in CellVals, r \in RefStates}
F(S) == {<<f>> : f \in S}
F1(S, X) == {<<f, x>> : f \in S, x \in X}
F2(S, X, Y) == {<<f, x, y>> : f \in S, x \in X, y \in Y}
Keys == 0..(NK - 1)
Ops == CASE KIND = "oref" -> F({"ct_dflt", "ct_null", "as_null", "reset", "ct_copy", "as_copy", "as_move", "ct_move", "as_self", "swap", "has", "cmp", "cmp_null"} \cup Reads)
                             \cup F1({"ct_ptr", "ct_uptr"}, Targets) \cup F1({"ct_ref", "emplace", "vor"}, Cells) \cup F1(Writes \cup {"cmp_val"}, Vals) \cup F2({"wr_vor"}, Cells, Vals)
         [] KIND = "pview" -> F({"ids", "to_pair", "to_const"}) \cup F1({"wr1", "wr2"}, Vals) \cup F2({"rebind", "eq"}, Cells, Cells)
         [] KIND = "inout" -> F({"ids"}) \cup F1({"wr"}, Vals)
         [] OTHER -> F({"clear", "each", "as_self"}) \cup F1({"erase", "at", "cat", "find", "cfind"}, Keys) \cup F2({"wr_at", "wr_it"}, Keys, Vals)
                     \cup F2({"te", "ins_c", "ins_m", "emp", "empp", "ins_r", "ins_il", "ioa"}, Keys, Cells) \cup F1({"ct_copy", "ct_move", "as_copy", "as_move", "swap", "eq"}, RefStates)
Next == \E op \in Ops : \E o \in RefOuts(KIND, s, op) : o[1] = "ok" /\ s' = o[3]
TypeOk == s[1] \in CellVals /\ s[2] \in RefStates
One == \A op \in Ops : Cardinality(RefOuts(KIND, s, op)) = 1
WriteOps == Writes \cup {"wr_vor", "wr1", "wr2", "wr", "wr_at", "wr_it", "ioa"}
(* rebinding never writes, writing never rebinds, and a write reaches at most one cell *)
RebindOrWrite == \A op \in Ops : \A o \in RefOuts(KIND, s, op) : o[1] = "ok" =>
    /\ (op[1] \notin WriteOps => o[3][1] = s[1])
    /\ (op[1] \in WriteOps \ {"ioa"} => o[3][2] = s[2])
    /\ Cardinality({i \in 1..NC : o[3][1][i] # s[1][i]}) <= 1
(* only reading or writing through nothing is reported *)
ErrorsOnlyNull == KIND = "oref" => \A op \in Ops : \A o \in RefOuts(KIND, s, op) : o[1] # "ok" <=> (op[1] \in Reads \cup Writes /\ s[2][1] = Null)
(* what an existing key names is never replaced by an insertion *)
Keeps == KIND \in {"rmap", "remap"} => \A op \in Ops : op[1] \in {"te", "ins_c", "ins_m", "emp", "empp", "ins_r", "ins_il"} =>
    \A o \in RefOuts(KIND, s, op) : o[1] = "ok" => \A k \in 1..NK : s[2][k] # Null => o[3][2][k] = s[2][k]
Total == KIND = "oref" => LET r == (CHOOSE o \in ORef(s, <<"cmp">>) : TRUE)[2] IN r[1] + r[3] + r[4] = 1 /\ r[5] = 1 - r[4] /\ r[6] = 1 - r[3] /\ r[2] = 1 - r[1]
=============================================================================
