------------------------------ MODULE EArrOps -------------------------------
(* EnumArray: one slot per enumerator, always full.  The abstract value is   *)
(* the sequence of slot values in the enum's ordinal order; values are 0/1/2.*)
(* "earr" has default constructible elements, "earn" has not (and must be    *)
(* built from a complete list in ordinal order).                             *)
EXTENDS Common

NVal == 3
RunKey(cap, k, j, b) == IF b = 0 THEN (k + j - 1) % cap ELSE (k + (cap - 1) * (j - 1)) % cap
RunVal(k, j) == (k + j) % NVal
(* slots after writing the pairs of a run one after the other over s *)
RECURSIVE Write(_, _, _, _, _, _)
Write(cap, s, k, n, b, j) ==
    IF j > n THEN s ELSE Write(cap, SetAt(s, RunKey(cap, k, j, b), RunVal(k, j)), k, n, b, j + 1)
From(cap, k, n, b) == Write(cap, Rep(cap, 0), k, n, b, 1)
Ordered(cap, k, b) == \A j \in 1..cap : RunKey(cap, k, j, b) = j - 1
Views(cap, s) == <<s, s, Rev(s), Rev(s), s, <<cap, B01(cap = 0), cap>>, [i \in 1..cap |-> i - 1]>>

Outs(t, cap, s, op) ==
  LET f == op[1] IN
  CASE f = "ctor_d" -> Ok(<<>>, Rep(cap, 0))
    [] f \in {"ctor_il", "ctor_rng"} -> Ok(<<>>, From(cap, op[2], op[3], op[4]))
    [] f = "ctor_strict" -> IF Ordered(cap, op[2], op[3]) THEN Ok(<<>>, From(cap, op[2], cap, op[3])) ELSE Err("abort")
    [] f \in {"copy", "move", "self_assign"} -> Ok(<<>>, s)
    [] f \in {"cassign", "massign"} -> Ok(<<>>, Rep(cap, op[2]))
    [] f \in {"at", "cat", "idx", "cidx"} -> Ok(<<s[op[2] + 1]>>, s)
    [] f \in {"at_set", "idx_set", "it_set", "rit_set", "data_set"} ->
           Ok(<<>>, SetAt(s, IF f = "rit_set" THEN cap - 1 - op[2] ELSE op[2], op[3]))
    [] f \in {"front", "cfront"} -> Ok(<<s[1]>>, s)
    [] f \in {"back", "cback"} -> Ok(<<s[cap]>>, s)
    [] f = "front_set" -> Ok(<<>>, SetAt(s, 0, op[2]))
    [] f = "back_set" -> Ok(<<>>, SetAt(s, cap - 1, op[2]))
    [] f = "fill" -> Ok(<<>>, Rep(cap, op[2]))
    [] f = "swap" -> Ok(s, [i \in 1..cap |-> (op[2] + i - 1) % NVal])     \* returns what the other array received
    [] f = "cmp" -> LET o == [i \in 1..cap |-> (op[2] + i - 1) % NVal]
                        x == Lex(s, o)
                    IN Ok(<<B01(x = 0), B01(x # 0), x>>, s)
    [] f = "views" -> Ok(Views(cap, s), s)
Verdicts(t, cap, s, op) == {o[1] : o \in Outs(t, cap, s, op)}
(* sorts: v label; d value; n 0..cap+1; b 0/1 *)
Both == {<<"copy">>, <<"move">>, <<"self_assign">>, <<"cassign", "d">>, <<"massign", "d">>, <<"at", "v">>, <<"cat", "v">>, <<"idx", "v">>, <<"cidx", "v">>,
         <<"at_set", "v", "d">>, <<"idx_set", "v", "d">>, <<"it_set", "v", "d">>, <<"rit_set", "v", "d">>, <<"data_set", "v", "d">>,
         <<"front">>, <<"cfront">>, <<"back">>, <<"cback">>, <<"front_set", "d">>, <<"back_set", "d">>, <<"fill", "d">>, <<"swap", "d">>,
         <<"cmp", "d">>, <<"views">>}
Sigs(t) == IF t = "earr" THEN Both \cup {<<"ctor_d">>, <<"ctor_il", "v", "n", "b">>, <<"ctor_rng", "v", "n", "b">>}
           ELSE Both \cup {<<"ctor_strict", "v", "b">>}
AllOps(t, cap) == OpsOf(Sigs(t), cap, cap, cap)
=============================================================================
