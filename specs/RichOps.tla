------------------------------ MODULE RichOps ------------------------------
(* Rich enums, enum adapters and string literals.                           *)
(* A kind is described by its declaration alone: the table of constants     *)
(* <<name, backing value>> in the order of values().  A variable of the     *)
(* kind holds an ordinal 0..Count-1, or None (only where the kind can be    *)
(* default constructed).  Outcome: <<verdict, integers, text, next>>.       *)
EXTENDS Common
None == -1
Table(t) ==
    CASE t = "R3" -> << <<"RED", 1>>, <<"GREEN", 2>>, <<"BLUE", 4>> >>
      [] t = "R2" -> << <<"NO", 0>>, <<"YES", 1>> >>
      [] t = "RS" -> << <<"DEEP", -128>>, <<"MID", -3>>, <<"ZERO", 0>>, <<"FAR", 126>> >>      \* declared in another order
      [] t = "RP" -> << <<"P1", 1>>, <<"P2", 2>>, <<"P3", 3>> >>
      [] t = "RZ" -> << <<"Z0", 0>>, <<"Z1", 1>>, <<"Z2", 2>>, <<"Z3", 3>> >>
      [] t = "RL" -> << <<"five", 5>>, <<"one", 1>>, <<"zero", 0>>, <<"three", 3>> >>            \* order chosen by the user
      [] t = "R1" -> << <<"INVALID", 9>> >>
      [] t = "E1" -> << <<"ONLY", 7>> >>
      [] t = "E2" -> << <<"EARLIER", -100>>, <<"LATER", 100>> >>
      [] t = "E3" -> << <<"A", 0>>, <<"B", 1>>, <<"C", 2>> >>
      [] t = "E4" -> << <<"E4_P", 3>>, <<"E4_R", 4>>, <<"E4_S", 57>>, <<"E4_Q", 90>> >>
      [] t = "E0" -> <<>>
      [] t = "E17" -> [i \in 1..17 |-> <<"K" \o ToString(i - 1), i - 1>>]
Rich == {"R3", "R2", "RS", "RP", "RZ", "RL", "R1"}
Count(t) == Len(Table(t))
Nm(t, i) == Table(t)[i + 1][1]
Val(t, i) == Table(t)[i + 1][2]
Ords(t) == 0..(Count(t) - 1)
HasDefault(t) == t \in Rich \ {"RZ", "RL"}
States(t) == Ords(t) \cup (IF HasDefault(t) THEN {None} ELSE {})
OfName(t, x) == {i \in Ords(t) : Nm(t, i) = x}
OfVal(t, x) == {i \in Ords(t) : Val(t, i) = x}
(* the largest integer of the backing type marks the absence of a value, except for bool *)
Reserved(t) == IF t = "RS" THEN {127} ELSE {}
InvalidText == "INVALID"
Out(k, r, q, n) == {<<k, r, q, n>>}
Opt(S, s) == IF S = {} THEN Out("ok", <<0>>, "", s) ELSE LET i == CHOOSE i \in S : TRUE IN Out("ok", <<1, i>>, "", i)
Needs(s, r) == IF s = None THEN Out("abort", <<>>, "", None) ELSE Out("ok", r, "", s)
RichOuts(t, s, op) ==
    LET f == op[1] IN
    CASE f = "dflt" -> Out("ok", <<>>, "", None)
      [] f = "name" -> Opt(OfName(t, op[2]), s)
      [] f \in {"back", "int"} -> Opt(OfVal(t, op[2]), s)
      [] f = "const" -> Out("ok", <<>>, "", op[2])                                    \* the named constant, values()[i]
      [] f = "make" -> IF op[2] \in Reserved(t) THEN Out("abort", <<>>, "", None) ELSE Opt(OfVal(t, op[2]), s)
      [] f = "has" -> Out("ok", <<B01(s # None)>>, "", s)
      [] f = "str" -> Out("ok", <<>>, IF s = None THEN InvalidText ELSE Nm(t, s), s)
      [] f = "ordinal" -> Needs(s, <<s>>)
      [] f \in {"value", "conv", "switch"} -> Needs(s, <<IF s = None THEN 0 ELSE Val(t, s)>>)
      [] f = "eq" -> Out("ok", <<B01(s = op[2]), B01(s # op[2]), B01(s = op[2])>>, "", s)   \* == != and swapped
      [] f = "copy" -> Out("ok", <<1>>, "", s)
      [] f = "assign" -> Out("ok", <<1>>, "", op[2])                                  \* returns itself
      [] f = "hash" -> IF s = None THEN Out("abort", <<>>, "", None) ELSE Out("ok", <<1>>, "", s)   \* equal values, equal hashes
      [] f = "not" -> IF s = None THEN {} ELSE Out("ok", <<1 - s>>, "", s)
      (* description of the kind itself, through the class or through EnumAdapter *)
      [] f = "count" -> Out("ok", <<Count(t)>>, "", s)
      [] f = "nth" -> Out("ok", <<Val(t, op[2]), op[2]>>, Nm(t, op[2]), s)
      [] f = "fitting" -> Out("ok", <<1>>, "", s)                                     \* satisfies has_enum_adapter, values() has count() entries
      (* the same answers in a constant expression *)
      [] f = "cint" -> Opt(OfVal(t, op[2]), s)
      [] f = "cname" -> Opt(OfName(t, op[2]), s)
AdapterOnly == {"count", "nth", "fitting"}
RichEnabled(t, s, op) ==
    LET f == op[1] IN
    /\ (t \notin Rich => f \in AdapterOnly)
    /\ (f = "dflt" => HasDefault(t))
    /\ (f = "not" => t = "R2" /\ s # None)
    /\ (f \in {"const", "nth"} => op[2] \in Ords(t))
    /\ (f \in {"eq", "assign"} => op[2] \in States(t))
(* string literals: the characters between the quotes, whatever they are *)
LitOuts(s, op) ==
    CASE op[1] = "lit" -> {<<"ok", <<Len(s)>> \o s \o <<0>>>>}                          \* size, characters, terminator
      [] op[1] = "view" -> {<<"ok", s>>}
      [] op[1] = "copy" -> {<<"ok", s>>}
      [] op[1] = "cstr" -> {<<"ok", s>>}                                                \* up to the first terminator
LitEnabled(s, op) == op[1] = "cstr" => \A i \in 1..Len(s) : s[i] # 0
=============================================================================
