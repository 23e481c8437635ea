------------------------------- MODULE SeqOps -------------------------------
(* FixedVector, FixedDeque, FixedList, FixedCircularDeque and the adapters  *)
(* FixedStack, FixedQueue, FixedCircularQueue: abstract value = sequence.   *)
EXTENDS Common
CONSTANT NV            \* element values 0..NV-1; value 0 is T{}

Rng(v, len) == [j \in 1..len |-> (v + j - 1) % NV]
Circular(t) == t \in {"cdeque", "cqueue"}
RandomAccess(t) == t \in {"vector", "deque", "cdeque"}

(* Insertion of the run x before position p: the only place where capacity matters. *)
Ins(t, cap, s, p, x) ==
    IF Len(s) + Len(x) <= cap THEN Ok(<<p>>, InsertRun(s, p, x))
    ELSE IF ~Circular(t) THEN Err("length_error")
    ELSE \* evict from the front, never crossing p; then drop the earliest incoming
      LET excess == Len(s) + Len(x) - cap
          de == MinOf(excess, p)
          di == excess - de
      IN Ok(<<p - de>>, InsertRun(SubSeq(s, de + 1, Len(s)), p - de, SubSeq(x, di + 1, Len(x))))

(* replace the returned value of an outcome set *)
Ret(outs, r) == {IF o[1] = "ok" THEN <<"ok", r, o[3]>> ELSE o : o \in outs}

PushFront(t, cap, s, v) ==
    IF Len(s) < cap THEN Ok(<<>>, <<v>> \o s)
    ELSE IF Circular(t) THEN Ok(<<>>, <<v>> \o SubSeq(s, 1, Len(s) - 1))
    ELSE Err("length_error")

Build(t, cap, x) ==      \* the value after constructing from / assigning the run x
    IF Len(x) <= cap THEN Ok(<<>>, x)
    ELSE IF Circular(t) THEN Ok(<<>>, SubSeq(x, Len(x) - cap + 1, Len(x)))
    ELSE Err("length_error")

Resize(cap, s, n, v) ==
    IF n > cap THEN Err("length_error")
    ELSE IF n <= Len(s) THEN Ok(<<>>, SubSeq(s, 1, n))
    ELSE Ok(<<>>, s \o Rep(n - Len(s), v))

RemoveVals(s, Drop(_)) ==
    LET Keep(x) == ~Drop(x)
        k == SelectSeq(s, Keep)
    IN Ok(<<Len(s) - Len(k)>>, k)

(* what every read-only view of the container must show *)
Views(t, cap, s) ==
    LET hd == <<Len(s), B01(Len(s) = 0), cap, B01(Len(s) = cap)>>
        fb == IF s = <<>> THEN <<>> ELSE <<s[1], s[Len(s)]>>
    IN CASE t \in {"vector"} -> <<s, s, Rev(s), Rev(s), s, s, s, hd, fb>>
         [] t \in {"deque", "cdeque"} -> <<s, s, Rev(s), Rev(s), s, s, hd, fb>>
         [] t = "list" -> <<s, s, Rev(s), Rev(s), hd, fb>>
         [] t = "stack" -> <<hd, IF s = <<>> THEN <<>> ELSE <<s[Len(s)]>>>>
         [] t \in {"queue", "cqueue"} -> <<hd, fb>>

(* iterator algebra: for all positions a, b: distance, ordering, *(it), it[n], +=, -=, ++, -- *)
IterAlg(t, s) ==
    IF RandomAccess(t)
    THEN LET L == Len(s) IN
      <<[a \in 1..(L + 1) |-> [b \in 1..(L + 1) |-> (b - a)]],              \* (begin+b)-(begin+a)
        [a \in 1..(L + 1) |-> [b \in 1..(L + 1) |-> Sign(a - b)]],          \* three-way comparison
        [a \in 1..L |-> Rep(4, s[a])],                                      \* *(b+i) *(i+b) b[i] *(e-(n-i))
        [a \in 1..L |-> s[a]],                                              \* pre-increment walk
        [a \in 1..L |-> s[L + 1 - a]],                                      \* post-decrement walk
        [a \in 1..L |-> s[L + 1 - a]]>>                                     \* rbegin()[i]
    ELSE LET L == Len(s) IN
      <<[a \in 1..(L + 1) |-> [b \in 1..(L + 1) |-> B01(a = b)]],
        [a \in 1..L |-> s[a]],
        [a \in 1..L |-> s[L + 1 - a]]>>

Outs(t, cap, s, op) ==
  LET f == op[1]
      L == Len(s)
  IN
  CASE
  \* ---- construction
       f = "ctor" -> Ok(<<>>, <<>>)
    [] f = "ctor_n" -> IF op[2] > cap /\ Circular(t) THEN Ok(<<>>, Rep(cap, 0))
                       ELSE Build(t, cap, Rep(op[2], 0))
    [] f = "ctor_nv" -> Build(t, cap, Rep(op[2], op[3]))
    [] f \in {"ctor_in", "ctor_fw", "ctor_ra", "ctor_il", "ctor_bp", "ctor_bi", "ctor_bl", "ctor_bc"} -> Build(t, cap, Rng(op[2], op[3]))
    [] f = "ctor_mk" -> Ret(Build(t, cap, Rng(op[2], cap)), <<Rng(op[2], cap), cap>>)   \* make_fixed_*(array)
    [] f \in {"copy", "move"} -> Ok(<<>>, s)
    [] f \in {"cassign", "massign"} -> Ok(<<>>, Rng(op[2], op[3]))
  \* ---- whole-content replacement
    [] f = "assign_n" -> Build(t, cap, Rep(op[2], op[3]))
    [] f \in {"assign_in", "assign_fw", "assign_ra", "assign_il", "assign_mv"} ->
           Build(t, cap, Rng(op[2], op[3]))
    [] f = "resize" -> Resize(cap, s, op[2], 0)
    [] f = "resize_v" -> Resize(cap, s, op[2], op[3])
    [] f = "resize_a" -> Resize(cap, s, op[2], s[op[3] + 1])
    [] f = "clear" -> Ok(<<>>, <<>>)
    [] f = "reserve" -> IF op[2] > cap THEN Err("length_error") ELSE Ok(<<cap>>, s)
  \* ---- ends
    [] f \in {"push_back_c", "push_back_m", "push_c", "push_m"} -> Ret(Ins(t, cap, s, L, <<op[2]>>), <<>>)
    [] f \in {"emplace_back", "push_e"} -> Ret(Ins(t, cap, s, L, <<op[2]>>), <<op[2]>>)
    [] f = "push_back_a" -> Ret(Ins(t, cap, s, L, <<s[op[2] + 1]>>), <<>>)
    [] f = "emplace_back_a" -> Ret(Ins(t, cap, s, L, <<s[op[2] + 1]>>), <<s[op[2] + 1]>>)
    [] f \in {"push_front_c", "push_front_m"} -> PushFront(t, cap, s, op[2])
    [] f = "emplace_front" -> Ret(PushFront(t, cap, s, op[2]), <<op[2]>>)
    [] f = "push_front_a" -> PushFront(t, cap, s, s[op[2] + 1])
    [] f = "emplace_front_a" -> Ret(PushFront(t, cap, s, s[op[2] + 1]), <<s[op[2] + 1]>>)
    [] f = "pop_back" -> IF L = 0 THEN Err("empty") ELSE Ok(<<>>, SubSeq(s, 1, L - 1))
    [] f = "pop_front" -> IF L = 0 THEN Err("empty") ELSE Ok(<<>>, Tail(s))
    [] f = "pop" -> IF L = 0 THEN Err("empty")
                    ELSE Ok(<<>>, IF t = "stack" THEN SubSeq(s, 1, L - 1) ELSE Tail(s))
  \* ---- positional
    [] f \in {"insert_c", "insert_m", "emplace"} -> Ins(t, cap, s, op[2], <<op[3]>>)
    [] f \in {"insert_a", "emplace_a"} -> Ins(t, cap, s, op[2], <<s[op[3] + 1]>>)
    [] f \in {"insert_in", "insert_fw", "insert_ra", "insert_il", "insert_mv"} ->
           Ins(t, cap, s, op[2], Rng(op[3], op[4]))
    [] f = "erase" -> IF op[2] = L THEN Err("invalid") ELSE Ok(<<op[2]>>, RemoveRange(s, op[2], op[2] + 1))
    [] f = "erase_range" -> IF op[2] > op[3] THEN Err("invalid")
                            ELSE Ok(<<op[2]>>, RemoveRange(s, op[2], op[3]))
    [] f = "erase_past" -> Err("invalid")      \* a range reaching beyond end()
  \* ---- by value / predicate
    [] f \in {"erase_v", "erase_u", "remove"} -> RemoveVals(s, LAMBDA x : x = op[2])
    [] f \in {"remove_a", "erase_a"} -> RemoveVals(s, LAMBDA x : x = s[op[2] + 1])
    [] f \in {"erase_if", "remove_if"} -> RemoveVals(s, LAMBDA x : Bit(op[2], x))
  \* ---- access
    [] f \in {"at", "cat", "idx", "cidx"} ->
           IF op[2] >= L THEN Err("out_of_range") ELSE Ok(<<s[op[2] + 1]>>, s)
  \* ---- arguments far beyond any capacity: 2^64-1, 2^63, 2^32
    [] f \in {"at_far", "cat_far", "idx_far", "cidx_far"} -> Err("out_of_range")
    [] f \in {"resize_far", "assign_far", "ctor_far", "reserve_far"} -> Err("length_error")
    [] f \in {"front", "cfront"} -> IF L = 0 THEN Err("empty") ELSE Ok(<<s[1]>>, s)
    [] f \in {"back", "cback"} -> IF L = 0 THEN Err("empty") ELSE Ok(<<s[L]>>, s)
    [] f \in {"top", "ctop"} -> IF L = 0 THEN Err("empty") ELSE Ok(<<s[L]>>, s)
    [] f \in {"set_idx", "set_it", "set_rit", "set_data", "set_at"} -> Ok(<<>>, SetAt(s, op[2], op[3]))
    [] f = "set_front" -> IF L = 0 THEN Err("empty") ELSE Ok(<<>>, SetAt(s, 0, op[2]))
    [] f \in {"set_back", "set_top"} -> IF L = 0 THEN Err("empty") ELSE Ok(<<>>, SetAt(s, L - 1, op[2]))
    [] f = "views" -> Ok(Views(t, cap, s), s)
    [] f = "iters" -> Ok(IterAlg(t, s), s)

Verdicts(t, cap, s, op) == {o[1] : o \in Outs(t, cap, s, op)}
-----------------------------------------------------------------------------
(* Public API surface of each kind: call name and argument sorts.           *)
Common_ == {<<"ctor_n", "n">>, <<"ctor_nv", "n", "v">>,
            <<"ctor_in", "v", "n">>, <<"ctor_fw", "v", "n">>, <<"ctor_ra", "v", "n">>, <<"ctor_il", "v", "n">>,
            <<"copy">>, <<"move">>, <<"cassign", "v", "c">>, <<"massign", "v", "c">>,
            <<"assign_n", "n", "v">>, <<"assign_in", "v", "n">>, <<"assign_fw", "v", "n">>,
            <<"assign_ra", "v", "n">>, <<"assign_il", "v", "n">>, <<"assign_mv", "v", "n">>,
            <<"resize", "n">>, <<"resize_v", "n", "v">>, <<"resize_a", "n", "i">>, <<"clear">>,
            <<"push_back_c", "v">>, <<"push_back_m", "v">>, <<"emplace_back", "v">>,
            <<"push_back_a", "i">>, <<"emplace_back_a", "i">>, <<"pop_back">>,
            <<"insert_c", "p", "v">>, <<"insert_m", "p", "v">>, <<"emplace", "p", "v">>,
            <<"insert_a", "p", "i">>, <<"emplace_a", "p", "i">>,
            <<"insert_in", "p", "v", "n">>, <<"insert_fw", "p", "v", "n">>, <<"insert_ra", "p", "v", "n">>,
            <<"insert_il", "p", "v", "n">>, <<"insert_mv", "p", "v", "n">>,
            <<"erase", "p">>, <<"erase_v", "v">>, <<"erase_u", "v">>, <<"erase_if", "m">>, <<"ctor_mk", "v">>,
            <<"front">>, <<"cfront">>, <<"back">>, <<"cback">>,
            <<"set_it", "i", "v">>, <<"set_rit", "i", "v">>, <<"set_front", "v">>, <<"set_back", "v">>,
            <<"views">>, <<"iters">>}
Front_ == {<<"push_front_c", "v">>, <<"push_front_m", "v">>, <<"emplace_front", "v">>,
           <<"push_front_a", "i">>, <<"emplace_front_a", "i">>, <<"pop_front">>}
Indexed_ == {<<"at", "j">>, <<"cat", "j">>, <<"idx", "j">>, <<"cidx", "j">>,
             <<"set_idx", "i", "v">>, <<"set_at", "i", "v">>,
             <<"erase_range", "p", "p">>, <<"erase_past", "p">>,
             <<"at_far", "d">>, <<"cat_far", "d">>, <<"idx_far", "d">>, <<"cidx_far", "d">>}
Far_ == {<<"resize_far", "d">>, <<"assign_far", "d">>, <<"ctor_far", "d">>}
Sigs(t) ==
  CASE t = "vector" -> Common_ \cup Indexed_ \cup {<<"ctor_bp", "v", "n">>, <<"ctor_bi", "v", "n">>, <<"ctor_bl", "v", "n">>, <<"ctor_bc", "v", "n">>,
                         <<"set_data", "i", "v">>, <<"reserve", "n">>, <<"reserve_far", "d">>} \cup Far_
    [] t = "deque" -> Common_ \cup Indexed_ \cup Front_ \cup Far_
    [] t = "cdeque" -> Common_ \cup Indexed_ \cup Front_ \cup {<<"resize_far", "d">>}
    [] t = "list" -> Common_ \cup Far_ \cup Front_ \cup
         {<<"erase_range", "p", "e">>, <<"remove", "v">>, <<"remove_if", "m">>, <<"remove_a", "i">>, <<"erase_a", "i">>}
    [] t = "stack" -> {<<"ctor_in", "v", "n">>, <<"ctor_ra", "v", "n">>,
                       <<"copy">>, <<"move">>, <<"cassign", "v", "c">>, <<"massign", "v", "c">>,
                       <<"push_c", "v">>, <<"push_m", "v">>, <<"push_e", "v">>, <<"pop">>,
                       <<"top">>, <<"ctop">>, <<"set_top", "v">>, <<"views">>}
    [] t \in {"queue", "cqueue"} ->
                      {<<"ctor_in", "v", "n">>, <<"ctor_ra", "v", "n">>,
                       <<"copy">>, <<"move">>, <<"cassign", "v", "c">>, <<"massign", "v", "c">>,
                       <<"push_c", "v">>, <<"push_m", "v">>, <<"push_e", "v">>, <<"pop">>,
                       <<"front">>, <<"cfront">>, <<"back">>, <<"cback">>, <<"set_front", "v">>, <<"set_back", "v">>,
                       <<"views">>}
AllOps(t, cap, len) ==
  {o \in OpsOf(Sigs(t), NV, cap, len) : len = 0 \/ o[1] \notin {"ctor_n", "ctor_nv", "ctor_in", "ctor_fw", "ctor_ra", "ctor_il", "ctor_far",
                                                            "ctor_mk", "ctor_bp", "ctor_bi", "ctor_bl", "ctor_bc"}}
=============================================================================
