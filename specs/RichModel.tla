----------------------------- MODULE RichModel -----------------------------
(* A variable of every kind, driven by every call; what users rely on. *)
EXTENDS RichOps
VARIABLES t, s
vars == <<t, s>>
Kinds == {"R3", "R2", "RS", "RP", "RZ", "RL", "R1", "E1", "E2", "E3", "E4", "E17", "E0"}
Init == t \in Kinds /\ s \in (IF t \in Rich THEN States(t) ELSE {None})
Names == UNION {{Nm(k, i) : i \in Ords(k)} : k \in Kinds} \cup {"", "INVALID", "red", "RE", "REDD"}
Ops == {<<f>> : f \in {"dflt", "has", "str", "ordinal", "value", "conv", "switch", "copy", "hash", "not", "count", "fitting"}}
       \cup {<<f, x>> : f \in {"back", "int", "cint", "make"}, x \in -128..127} \cup {<<f, x>> : f \in {"name", "cname"}, x \in Names}
       \cup {<<f, i>> : f \in {"const", "eq", "assign", "nth"}, i \in -1..16}
Can == {op \in Ops : RichEnabled(t, s, op)}
Next == t' = t /\ \E op \in Can : \E o \in RichOuts(t, s, op) : o[1] = "ok" /\ s' = o[4]
R(op) == CHOOSE o \in RichOuts(t, s, op) : TRUE
TypeOk == t \in Rich => s \in States(t)
One == \A op \in Can : Cardinality(RichOuts(t, s, op)) = 1
(* no two constants share a name or a value, so every question has at most one answer *)
Distinct == \A i, j \in Ords(t) : i # j => Nm(t, i) # Nm(t, j) /\ Val(t, i) # Val(t, j)
(* to_string and value_of(name), backing_enum and value_of(backing) are inverse to each other *)
RoundTrip == t \in Rich /\ s # None =>
    /\ R(<<"name", R(<<"str">>)[3]>>)[2] = <<1, s>>
    /\ R(<<"back", R(<<"value">>)[2][1]>>)[2] = <<1, s>>
    /\ R(<<"nth", R(<<"ordinal">>)[2][1]>>)[2] = <<Val(t, s), s>>
(* nothing outside the declaration is ever produced *)
NoOther == t \in Rich => \A x \in -128..127 : R(<<"int", x>>)[2][1] = 1 <=> x \in {Val(t, i) : i \in Ords(t)}
NoneIsNot == t \in Rich /\ s = None => R(<<"has">>)[2] = <<0>> /\ \A i \in Ords(t) : R(<<"eq", i>>)[2][1] = 0
Guarded == t \in Rich /\ s = None => \A f \in {"ordinal", "value", "conv", "switch"} : R(<<f>>)[1] = "abort"
Negation == t = "R2" /\ s # None => R(<<"not">>)[2][1] # s /\ R(<<"not">>)[2][1] \in Ords(t)
ConstantTime == t \in Rich => \A x \in -128..127 : R(<<"cint", x>>) = R(<<"int", x>>)
=============================================================================
