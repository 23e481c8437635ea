------------------------------- MODULE StrOps -------------------------------
(* FixedString: abstract value = sequence of characters.  Character codes:  *)
(* 0 NUL, 1 'a', 2 a byte above 0x7f (compares greater), 3 ' ', 4 newline.  *)
(* The alphabet of stored strings is 0..2; 3 and 4 occur only in streams.   *)
EXTENDS Common
NV == 3
Rng(v, len) == [j \in 1..len |-> (v + j - 1) % NV]

(* all words of up to three letters, numbered *)
Word(k) == IF k = 0 THEN <<>>
           ELSE IF k < 4 THEN <<k - 1>>
           ELSE IF k < 13 THEN <<(k - 4) \div 3, (k - 4) % 3>>
           ELSE <<(k - 13) \div 9, ((k - 13) \div 3) % 3, (k - 13) % 3>>
(* what a function taking `const char*` sees *)
RECURSIVE CStr(_)
CStr(w) == IF w = <<>> \/ w[1] = 0 THEN <<>> ELSE <<w[1]>> \o CStr(Tail(w))

Limit(cap, r, n) == IF Len(n) > cap THEN Err("length_error") ELSE Ok(r, n)

(* ---- searching; positions are 0-based, -1 stands for npos ---- *)
NPOS == 1000000
MinIn(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x <= y
MaxIn(S) == IF S = {} THEN -1 ELSE CHOOSE x \in S : \A y \in S : x >= y
OccursAt(s, w, i) == i + Len(w) <= Len(s) /\ SubSeq(s, i + 1, i + Len(w)) = w
In(x, w) == \E i \in 1..Len(w) : w[i] = x
Search(f, s, w, pos) ==
  CASE f = "find"  -> MinIn({i \in 0..Len(s) : i >= pos /\ OccursAt(s, w, i)})
    [] f = "rfind" -> MaxIn({i \in 0..Len(s) : i <= pos /\ OccursAt(s, w, i)})
    [] f = "ffo"   -> MinIn({i \in 0..(Len(s) - 1) : i >= pos /\ In(s[i + 1], w)})
    [] f = "ffno"  -> MinIn({i \in 0..(Len(s) - 1) : i >= pos /\ ~In(s[i + 1], w)})
    [] f = "flo"   -> MaxIn({i \in 0..(Len(s) - 1) : i <= pos /\ In(s[i + 1], w)})
    [] f = "flno"  -> MaxIn({i \in 0..(Len(s) - 1) : i <= pos /\ ~In(s[i + 1], w)})
DefaultPos(f) == IF f \in {"rfind", "flo", "flno"} THEN NPOS ELSE 0
(* overloads: FixedString, string_view, (pointer, pos, count), const char*, and char for one-letter words *)
Forms(f, s, w, pos) ==
  LET r == Search(f, s, w, pos) IN <<r, r, r, Search(f, s, CStr(w), pos)>> \o (IF Len(w) = 1 THEN <<r>> ELSE <<>>)
FormsDefault(f, s, w) ==
  LET p == DefaultPos(f) r == Search(f, s, w, p) IN <<r, r, Search(f, s, CStr(w), p)>> \o (IF Len(w) = 1 THEN <<r>> ELSE <<>>)
Searches(f, s, w) == <<[p \in 1..(Len(s) + 2) |-> Forms(f, s, w, p - 1)], Forms(f, s, w, NPOS), FormsDefault(f, s, w)>>

StartsWith(s, w) == B01(OccursAt(s, w, 0))
EndsWith(s, w) == B01(Len(w) <= Len(s) /\ OccursAt(s, w, Len(s) - Len(w)))
Compare(s, w) ==
  LET c == CStr(w) IN
  <<Lex(s, w), B01(s = w), B01(s # w), Lex(s, w), B01(s = c), Lex(s, c), B01(s = w), Lex(s, w), B01(w = s), Lex(w, s),
    StartsWith(s, w), EndsWith(s, w), StartsWith(s, c), EndsWith(s, c)>>
  \o (IF Len(w) = 1 THEN <<StartsWith(s, w), EndsWith(s, w)>> ELSE <<>>)

(* ---- stream extraction, as std::string: skip white space, then take characters up to white space, width or end ---- *)
Space(x) == x \in {3, 4}
RECURSIVE SkipWs(_)
SkipWs(q) == IF q # <<>> /\ Space(q[1]) THEN SkipWs(Tail(q)) ELSE q
RECURSIVE TokenLen(_)
TokenLen(q) == IF q = <<>> \/ Space(q[1]) THEN 0 ELSE 1 + TokenLen(Tail(q))
StreamIn(cap, s, lead, w, tail, width, skip) ==
  LET q0 == Rep(lead, 3) \o w \o (CASE tail = 0 -> <<>> [] tail = 1 -> <<3, 1>> [] tail = 2 -> <<4>>)
      q == IF skip = 1 THEN SkipWs(q0) ELSE q0
      t == TokenLen(q)
      k == IF width = 0 THEN t ELSE MinOf(width, t)
      stopped == width # 0 /\ k = width
  IN IF skip = 1 /\ q = <<>> THEN Ok(<<1, 1, 0, width>>, s)       \* nothing to extract: value untouched
     ELSE IF k > cap THEN Err("length_error")
     ELSE Ok(<<B01(~stopped /\ k = Len(q)), B01(k = 0), Len(q) - k, 0>>, SubSeq(q, 1, k))
StreamOut(s, width) == Rep(MaxOf(0, width - Len(s)), 3) \o s

Views(cap, s) ==
  <<s, s, Rev(s), Rev(s), s, s, s, s,
    <<Len(s), Len(s), B01(s = <<>>), cap, cap, B01(Len(s) = cap), Len(CStr(s))>>,
    IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)]>>>>

Outs(t, cap, s, op) ==
  LET f == op[1]
      L == Len(s)
  IN
  CASE f = "ctor" -> Ok(<<>>, <<>>)
    [] f = "ctor_n" -> Limit(cap, <<>>, Rep(op[2], op[3]))
    [] f \in {"ctor_vw", "ctor_il", "assign_vw", "assign_il", "assign_in", "assign_ra", "assign_fs", "eq_vw"} ->
           Limit(cap, <<>>, Word(op[2]))
    [] f \in {"ctor_cs", "assign_cs", "eq_cs"} -> Limit(cap, <<>>, CStr(Word(op[2])))
    [] f = "assign_n" -> Limit(cap, <<>>, Rep(op[2], op[3]))
    [] f \in {"assign_own", "assign_own_it"} -> Ok(<<>>, SubSeq(s, op[2] + 1, op[3]))
    [] f = "assign_own_rev" -> Ok(<<>>, Rev(SubSeq(s, op[2] + 1, op[3])))
    [] f \in {"copy", "move", "self_assign"} -> Ok(<<>>, s)
    [] f \in {"cassign", "massign"} -> Ok(<<>>, Rng(op[2], op[3]))
    [] f = "clear" -> Ok(<<>>, <<>>)
    [] f = "reserve" -> IF op[2] > cap THEN Err("length_error") ELSE Ok(<<cap>>, s)
    [] f = "resize" -> Limit(cap, <<>>, IF op[2] <= L THEN SubSeq(s, 1, op[2]) ELSE s \o Rep(op[2] - L, 0))
    [] f = "resize_v" -> Limit(cap, <<>>, IF op[2] <= L THEN SubSeq(s, 1, op[2]) ELSE s \o Rep(op[2] - L, op[3]))
    [] f = "insert_ch" -> Limit(cap, <<op[2]>>, InsertRun(s, op[2], <<op[3]>>))
    [] f \in {"insert_vw", "insert_il", "insert_in", "insert_ra", "insert_fs"} -> Limit(cap, <<op[2]>>, InsertRun(s, op[2], Word(op[3])))
    [] f = "insert_cs" -> Limit(cap, <<op[2]>>, InsertRun(s, op[2], CStr(Word(op[3]))))
    [] f \in {"insert_own", "insert_own_it"} -> Limit(cap, <<op[2]>>, InsertRun(s, op[2], SubSeq(s, op[3] + 1, op[4])))
    [] f = "erase" -> IF op[2] = L THEN Err("invalid") ELSE Ok(<<op[2]>>, RemoveRange(s, op[2], op[2] + 1))
    [] f = "erase_range" -> IF op[2] > op[3] THEN Err("invalid") ELSE Ok(<<op[2]>>, RemoveRange(s, op[2], op[3]))
    [] f = "erase_past" -> Err("invalid")
    [] f \in {"push_back", "plus_ch"} -> Limit(cap, <<>>, Append(s, op[2]))
    [] f = "pop_back" -> IF L = 0 THEN Err("empty") ELSE Ok(<<>>, SubSeq(s, 1, L - 1))
    [] f \in {"append_vw", "append_il", "append_in", "append_ra", "append_fs", "plus_vw", "plus_il", "plus_fs"} -> Limit(cap, <<>>, s \o Word(op[2]))
    [] f \in {"append_cs", "plus_cs"} -> Limit(cap, <<>>, s \o CStr(Word(op[2])))
    [] f \in {"append_own", "append_own_it"} -> Limit(cap, <<>>, s \o SubSeq(s, op[2] + 1, op[3]))
    [] f \in {"at", "cat", "idx", "cidx"} -> IF op[2] >= L THEN Err("out_of_range") ELSE Ok(<<s[op[2] + 1]>>, s)
    [] f \in {"at_far", "cat_far", "idx_far", "cidx_far", "substr_far"} -> Err("out_of_range")
    [] f \in {"resize_far", "assign_far", "reserve_far"} -> Err("length_error")
    [] f \in {"front", "cfront"} -> IF L = 0 THEN Err("empty") ELSE Ok(<<s[1]>>, s)
    [] f \in {"back", "cback"} -> IF L = 0 THEN Err("empty") ELSE Ok(<<s[L]>>, s)
    [] f \in {"set_idx", "set_at", "set_it", "set_rit", "set_data"} -> Ok(<<>>, SetAt(s, op[2], op[3]))
    [] f \in {"find", "rfind", "ffo", "ffno", "flo", "flno"} -> Ok(Searches(f, s, Word(op[2])), s)
    [] f = "compare" -> Ok(Compare(s, Word(op[2])), s)
    [] f = "substr" -> IF op[2] > L THEN Err("out_of_range") ELSE Ok(SubSeq(s, op[2] + 1, MinOf(L, op[2] + op[3])), s)
    [] f = "substr_to_end" -> IF op[2] > L THEN Err("out_of_range") ELSE Ok(SubSeq(s, op[2] + 1, L), s)
    [] f = "in" -> StreamIn(cap, s, op[2], Word(op[3]), op[4], op[5], op[6])
    [] f = "in_w" -> StreamIn(cap, s, 1, Word(op[2]), 1, 0, 1)
    [] f = "in_ws" -> StreamIn(cap, s, op[2], <<>>, op[3], op[4], op[5])
    [] f = "out" -> Ok(StreamOut(s, op[2]), s)
    [] f = "make" -> Ok(<<Len(Word(op[2])), Word(op[2])>>, s)
    [] f = "views" -> Ok(Views(cap, s), s)

Verdicts(t, cap, s, op) == {o[1] : o \in Outs(t, cap, s, op)}
Ctors == {"ctor_n", "ctor_vw", "ctor_il", "ctor_cs", "make", "in"}
Sigs(t) ==
  {<<"ctor_n", "n", "v">>, <<"ctor_vw", "w">>, <<"ctor_il", "w">>, <<"ctor_cs", "w">>, <<"make", "w">>,
   <<"assign_n", "n", "v">>, <<"assign_vw", "w">>, <<"assign_cs", "w">>, <<"assign_il", "w">>, <<"assign_in", "w">>, <<"assign_ra", "w">>,
   <<"assign_fs", "w">>, <<"eq_vw", "w">>, <<"eq_cs", "w">>, <<"assign_own", "p", "e">>, <<"assign_own_it", "p", "e">>, <<"assign_own_rev", "p", "e">>,
   <<"copy">>, <<"move">>, <<"self_assign">>, <<"cassign", "v", "c">>, <<"massign", "v", "c">>, <<"clear">>, <<"reserve", "n">>,
   <<"resize", "n">>, <<"resize_v", "n", "v">>,
   <<"insert_ch", "p", "v">>, <<"insert_vw", "p", "w">>, <<"insert_cs", "p", "w">>, <<"insert_il", "p", "w">>, <<"insert_in", "p", "w">>,
   <<"insert_ra", "p", "w">>, <<"insert_fs", "p", "w">>, <<"insert_own", "p", "p", "e">>, <<"insert_own_it", "p", "p", "e">>,
   <<"erase", "p">>, <<"erase_range", "p", "p">>, <<"erase_past", "p">>, <<"push_back", "v">>, <<"pop_back">>,
   <<"append_vw", "w">>, <<"append_cs", "w">>, <<"append_il", "w">>, <<"append_in", "w">>, <<"append_ra", "w">>, <<"append_fs", "w">>,
   <<"append_own", "p", "e">>, <<"append_own_it", "p", "e">>, <<"plus_ch", "v">>, <<"plus_vw", "w">>, <<"plus_cs", "w">>, <<"plus_il", "w">>, <<"plus_fs", "w">>,
   <<"at", "j">>, <<"cat", "j">>, <<"idx", "j">>, <<"cidx", "j">>, <<"front">>, <<"cfront">>, <<"back">>, <<"cback">>,
   <<"set_idx", "i", "v">>, <<"set_at", "i", "v">>, <<"set_it", "i", "v">>, <<"set_rit", "i", "v">>, <<"set_data", "i", "v">>,
   <<"find", "w">>, <<"rfind", "w">>, <<"ffo", "w">>, <<"ffno", "w">>, <<"flo", "w">>, <<"flno", "w">>, <<"compare", "w">>,
   <<"substr", "j", "n">>, <<"substr_to_end", "j">>, <<"in", "d", "w", "d", "n", "b">>, <<"in_w", "w">>,
   <<"in_ws", "d", "d", "n", "b">>, <<"out", "n">>, <<"views">>,
   <<"at_far", "d">>, <<"cat_far", "d">>, <<"idx_far", "d">>, <<"cidx_far", "d">>, <<"substr_far", "d">>, <<"resize_far", "d">>,
   <<"assign_far", "d">>, <<"reserve_far", "d">>}
AllOps(t, cap, len) == {o \in OpsOf(Sigs(t), NV, cap, len) : len = 0 \/ o[1] \notin Ctors}
=============================================================================
