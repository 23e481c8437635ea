------------------------------ MODULE AssocOps ------------------------------
(* FixedMap, FixedSet, FixedUnorderedMap, FixedUnorderedSet, EnumMap and    *)
(* EnumSet.  The abstract value is the sequence of entries in iteration     *)
(* order; an entry is key*100+value for maps and the key for sets.          *)
(*   map_lt/gt/hf/tr, set_lt/gt/hf/tr : ordered, comparator < > half, or    *)
(*        transparent <   (hf: keys 2g and 2g+1 are equivalent)             *)
(*   umap_eq/hf, uset_eq/hf : hashed, equality = or "same half"             *)
(*   emap, eset : enum keyed; capacity is the number of enumerators         *)
EXTENDS Common

KeysFor(cap) == IF cap <= 4 THEN 4 ELSE IF cap <= 9 THEN cap + 1 ELSE 24     \* how many keys the calls draw from
NKey(t, cap) == IF t \in {"emap", "eset"} THEN cap ELSE KeysFor(cap)
IsMap(t) == t \in {"map_lt", "map_gt", "map_hf", "map_tr", "umap_eq", "umap_hf", "emap"}
Hashed(t) == t \in {"umap_eq", "umap_hf", "uset_eq", "uset_hf"}
Enum(t) == t \in {"emap", "eset"}
Rank(t, k) == CASE t \in {"map_gt", "set_gt"} -> 0 - k
                [] t \in {"map_hf", "set_hf", "umap_hf", "uset_hf"} -> k \div 2
                [] OTHER -> k
Key(t, e) == IF IsMap(t) THEN e \div 100 ELSE e
Val(e) == e % 100
Entry(t, k, v) == IF IsMap(t) THEN k * 100 + v ELSE k

(* 0-based position of the entry whose key is equivalent to k; Len(s) when there is none *)
Pos(t, s, k) == LET hit == {i \in 1..Len(s) : Rank(t, Key(t, s[i])) = Rank(t, k)}
                IN IF hit = {} THEN Len(s) ELSE (CHOOSE i \in hit : TRUE) - 1
Has(t, s, k) == Pos(t, s, k) < Len(s)
Before(t, s, k) == Cardinality({i \in 1..Len(s) : Rank(t, Key(t, s[i])) < Rank(t, k)})
UpTo(t, s, k) == Cardinality({i \in 1..Len(s) : Rank(t, Key(t, s[i])) <= Rank(t, k)})
(* where a new key may appear: comparator order, or anywhere in a hashed container *)
Places(t, s, k) == IF Hashed(t) THEN 0..Len(s) ELSE {Before(t, s, k)}

(* insert-if-absent; Ret(p, fresh) builds the returned value *)
Put(t, cap, s, k, v, R(_, _)) ==
    IF Has(t, s, k) THEN Ok(R(Pos(t, s, k), 0), s)
    ELSE IF Len(s) >= cap THEN Err("length_error")
    ELSE {<<"ok", R(p, 1), InsertRun(s, p, <<Entry(t, k, v)>>)>> : p \in Places(t, s, k)}
PosFlag(p, fresh) == <<p, fresh>>
PosOnly(p, fresh) == <<p>>
(* a value passed as argument is untouched (1) when nothing was inserted; otherwise unconstrained *)
Assign(t, cap, s, k, v, R(_, _)) ==
    IF Has(t, s, k) THEN LET p == Pos(t, s, k) IN Ok(R(p, 0), SetAt(s, p, Entry(t, Key(t, s[p + 1]), v)))
    ELSE Put(t, cap, s, k, v, R)
(* the run used by range calls: n entries from key k, stepping +1 or -1 *)
Run(t, cap, k, n, b) ==
    LET NK == NKey(t, cap) IN
    IF NK = 0 THEN <<>> ELSE
    [j \in 1..n |-> <<IF b = 0 THEN (k + j - 1) % NK ELSE (k + (NK - 1) * (j - 1)) % NK, (k + j) % 2>>]
RunOf(t, cap, op) == IF op[1] = "ctor_mk" THEN Run(t, cap, op[2], cap, op[3])      \* make_fixed_*(array of cap entries)
                     ELSE Run(t, cap, op[2], op[3], op[4])
RECURSIVE PutAll(_, _, _, _)
PutAll(t, cap, S, run) ==     \* S: set of <<verdict, r, s>>
    IF run = <<>> THEN S
    ELSE PutAll(t, cap,
           UNION {IF o[1] # "ok" THEN {o} ELSE Put(t, cap, o[3], run[1][1], run[1][2], LAMBDA p, f : <<>>) : o \in S},
           Tail(run))
EraseAt(t, s, p) == IF p = Len(s) THEN Err("abort") ELSE Ok(<<p>>, RemoveRange(s, p, p + 1))
Half(t, s, g) == {i \in 1..Len(s) : Key(t, s[i]) \div 2 = g}    \* entries matched by a heterogeneous probe
HBefore(t, s, g) == Cardinality({i \in 1..Len(s) : Key(t, s[i]) \div 2 < g})
HUpTo(t, s, g) == Cardinality({i \in 1..Len(s) : Key(t, s[i]) \div 2 <= g})
AllKeys(t, cap) == [i \in 1..NKey(t, cap) |-> i - 1]
DropIf(s, D(_)) == LET Keep(e) == ~D(e)
                       k == SelectSeq(s, Keep) IN Ok(<<Len(s) - Len(k)>>, k)
Keys(t, s) == [i \in 1..Len(s) |-> Key(t, s[i])]

Views(t, cap, s) ==
    LET hd == <<Len(s), B01(Len(s) = 0), cap, B01(Len(s) = cap)>>
    IN IF Hashed(t) THEN <<s, s, hd>> ELSE <<s, s, Rev(s), Rev(s), hd>>
Iters(t, s) ==
    LET L == Len(s) IN
    <<[a \in 1..(L + 1) |-> [b \in 1..(L + 1) |-> B01(a = b)]],
      s,                                              \* post-increment walk
      IF Hashed(t) THEN <<>> ELSE Rev(s),             \* pre-decrement walk from end()
      IF Hashed(t) THEN <<>> ELSE Rev(s)>>            \* reverse iterators, post-increment

Outs(t, cap, s, op) ==
  LET f == op[1]
      L == Len(s)
      Look(k) == Pos(t, s, k)
      NK == NKey(t, cap)
  IN
  CASE
       f \in {"ctor_in", "ctor_ra", "ctor_il", "ctor_cmp", "bld_c", "bld_il", "bld_ra", "bld_r", "ctor_mk"} ->
           PutAll(t, cap, Ok(<<>>, <<>>), RunOf(t, cap, op))
    [] f \in {"copy", "move"} -> Ok(<<>>, s)
    [] f \in {"cassign", "massign"} -> PutAll(t, cap, Ok(<<>>, <<>>), Run(t, cap, op[2], op[3], op[4]))
    [] f = "self_assign" -> Ok(<<>>, s)
    [] f = "clear" -> Ok(<<>>, <<>>)
  \* ---- element access
    [] f \in {"at", "cat"} -> IF Has(t, s, op[2]) THEN Ok(<<Val(s[Look(op[2]) + 1])>>, s) ELSE Err("out_of_range")
    [] f = "at_set" -> IF Has(t, s, op[2]) THEN Assign(t, cap, s, op[2], op[3], LAMBDA p, q : <<>>) ELSE Err("out_of_range")
    [] f \in {"idx_c", "idx_m"} ->
           Put(t, cap, s, op[2], 0, LAMBDA p, q : IF q = 1 THEN <<0>> ELSE <<Val(s[p + 1])>>)
    [] f = "idx_set" -> Assign(t, cap, s, op[2], op[3], LAMBDA p, q : <<>>)
    [] f = "set_it" -> Ok(<<>>, SetAt(s, op[2], Entry(t, Key(t, s[op[2] + 1]), op[3])))
  \* ---- insertion
    [] f \in {"ins_c", "ins_m", "em_kv", "em_p", "em_pw", "te_c", "te_m"} -> Put(t, cap, s, op[2], op[3], PosFlag)
    [] f = "te_d" -> Put(t, cap, s, op[2], 0, PosFlag)
    [] f = "te_keep" -> IF Has(t, s, op[2]) THEN Ok(<<Look(op[2]), 0, op[2], op[3]>>, s)   \* rvalues untouched when not inserted
                        ELSE Put(t, cap, s, op[2], op[3], PosFlag)
    [] f \in {"em_h", "te_h", "te_hm"} -> Put(t, cap, s, op[3], op[4], PosOnly)
    [] f \in {"ioa_c", "ioa_m"} -> Assign(t, cap, s, op[2], op[3], PosFlag)
    [] f \in {"ioa_h", "ioa_hm"} -> Assign(t, cap, s, op[3], op[4], PosOnly)
    [] f = "ioa_a" -> Assign(t, cap, s, op[2], Val(s[op[3] + 1]), PosFlag)                 \* value aliases an element
    [] f \in {"ins_in", "ins_ra", "ins_il"} -> PutAll(t, cap, Ok(<<>>, s), Run(t, cap, op[2], op[3], op[4]))
    [] f \in {"sins_c", "sins_m", "sem", "ste", "ste_c"} -> Put(t, cap, s, op[2], 0, PosFlag)
    [] f \in {"sins_h", "sins_hm", "sem_h", "ste_h", "ste_hm"} -> Put(t, cap, s, op[3], 0, PosOnly)
  \* ---- removal
    [] f \in {"erase_it", "erase_cit"} -> EraseAt(t, s, op[2])
    [] f = "erase_rng" -> Ok(<<op[2]>>, RemoveRange(s, op[2], op[3]))
    [] f = "erase_k" -> IF Has(t, s, op[2]) THEN Ok(<<1>>, RemoveRange(s, Look(op[2]), Look(op[2]) + 1)) ELSE Ok(<<0>>, s)
    [] f = "erase_ka" -> Ok(<<1>>, RemoveRange(s, op[2], op[2] + 1))
    [] f = "erase_if" -> DropIf(s, LAMBDA e : Bit(op[2], Key(t, e)))
    [] f = "erase_ifv" -> DropIf(s, LAMBDA e : Val(e) = op[2])
  \* ---- lookup
    [] f \in {"find", "cfind"} -> Ok(<<Look(op[2])>>, s)
    [] f \in {"contains", "count"} -> Ok(<<B01(Has(t, s, op[2]))>>, s)
    [] f \in {"lb", "clb"} -> Ok(<<Before(t, s, op[2])>>, s)
    [] f \in {"ub", "cub"} -> Ok(<<UpTo(t, s, op[2])>>, s)
    [] f \in {"eqr", "ceqr"} -> Ok(<<Before(t, s, op[2]), UpTo(t, s, op[2])>>, s)
  \* ---- heterogeneous lookup (transparent comparator): the probe matches every key of one half
    [] f \in {"hfind", "hcfind"} -> IF Half(t, s, op[2]) = {} THEN Ok(<<L>>, s)
                                    ELSE UNION {Ok(<<i - 1>>, s) : i \in Half(t, s, op[2])}
    [] f = "hcontains" -> Ok(<<B01(Half(t, s, op[2]) # {})>>, s)
    [] f = "hcount" -> Ok(<<Cardinality(Half(t, s, op[2]))>>, s)
    [] f \in {"hlb", "hclb"} -> Ok(<<HBefore(t, s, op[2])>>, s)
    [] f \in {"hub", "hcub"} -> Ok(<<HUpTo(t, s, op[2])>>, s)
    [] f \in {"heqr", "hceqr"} -> Ok(<<HBefore(t, s, op[2]), HUpTo(t, s, op[2])>>, s)
  \* ---- enum factories
    [] f = "all" -> Ok(<<>>, AllKeys(t, cap))
    [] f = "none" -> Ok(<<>>, <<>>)
    [] f \in {"complement", "complement_dup"} -> Ok(<<>>, SelectSeq(AllKeys(t, cap), LAMBDA k : ~Has(t, s, k)))
    [] f \in {"copy_of", "copy_dup"} -> Ok(<<>>, s)
    [] f = "bld_e" -> PutAll(t, cap, Ok(<<>>, <<>>), SelectSeq(Run(t, cap, op[2], op[3], op[4]), LAMBDA x : x[1] # op[2]))
    [] f = "with_keys" -> Ok(<<>>, [i \in 1..L |-> Entry(t, Key(t, s[i]), op[2])])
    [] f \in {"with_all", "with_all_il"} ->
           LET r == Run(t, cap, op[2], op[3], op[4])
               dup == \E i, j \in 1..Len(r) : i < j /\ r[i][1] = r[j][1]
           IN IF dup THEN Err("duplicate_entries")
              ELSE IF Len(r) < NK THEN Err("missing_entries")
              ELSE PutAll(t, cap, Ok(<<>>, <<>>), r)
    [] f = "views" -> Ok(Views(t, cap, s), s)
    [] f = "iters" -> Ok(Iters(t, s), s)

(* The same relation as a test, for steps recorded from the code: \E-free for range calls of hashed   *)
(* containers, whose outcomes (any interleaving of new keys among the residents) are too many to list. *)
RunOps == {"ctor_in", "ctor_ra", "ctor_il", "ctor_mk", "ins_in", "ins_ra", "ins_il", "cassign", "massign"}
RECURSIVE Appended(_, _, _, _)
Appended(t, cap, s, run) ==
    IF run = <<>> THEN <<"ok", s>>
    ELSE IF Has(t, s, run[1][1]) THEN Appended(t, cap, s, Tail(run))
    ELSE IF Len(s) >= cap THEN <<"length_error", <<>>>>
    ELSE Appended(t, cap, Append(s, Entry(t, run[1][1], run[1][2])), Tail(run))
RangeOf(s) == {s[i] : i \in 1..Len(s)}
Allowed(t, cap, s, op, k, r, n) ==
    IF Hashed(t) /\ op[1] \in RunOps
    THEN LET base == IF op[1] \in {"ins_in", "ins_ra", "ins_il"} THEN s ELSE <<>>
             want == Appended(t, cap, base, RunOf(t, cap, op))
             Old(x) == x \in RangeOf(base)
         IN /\ k = want[1] /\ r = <<>>
            /\ Len(n) = Len(want[2]) /\ RangeOf(n) = RangeOf(want[2])
            /\ k = "ok" => SelectSeq(n, Old) = base
    ELSE <<k, r, n>> \in Outs(t, cap, s, op)
(* the verdicts a call may get, without listing every layout *)
Verdicts(t, cap, s, op) ==
    IF Hashed(t) /\ op[1] \in RunOps
    THEN {Appended(t, cap, IF op[1] \in {"ins_in", "ins_ra", "ins_il"} THEN s ELSE <<>>, RunOf(t, cap, op))[1]}
    ELSE {o[1] : o \in Outs(t, cap, s, op)}

-----------------------------------------------------------------------------
Common_ == {<<"copy">>, <<"move">>, <<"cassign", "v", "c", "b">>, <<"massign", "v", "c", "b">>, <<"self_assign">>, <<"clear">>,
            <<"ctor_in", "v", "n", "b">>, <<"ctor_ra", "v", "n", "b">>, <<"ctor_il", "v", "n", "b">>,
            <<"ins_in", "v", "n", "b">>, <<"ins_ra", "v", "n", "b">>, <<"ins_il", "v", "n", "b">>,
            <<"erase_cit", "p">>, <<"erase_rng", "p", "e">>, <<"erase_k", "v">>, <<"erase_ka", "i">>, <<"erase_if", "m">>,
            <<"cfind", "v">>, <<"contains", "v">>, <<"views">>, <<"iters">>}
Map_ == {<<"at", "v">>, <<"cat", "v">>, <<"at_set", "v", "b">>, <<"idx_c", "v">>, <<"idx_m", "v">>, <<"idx_set", "v", "b">>,
         <<"set_it", "i", "b">>, <<"ins_c", "v", "b">>, <<"ins_m", "v", "b">>, <<"em_kv", "v", "b">>, <<"em_p", "v", "b">>,
         <<"em_pw", "v", "b">>, <<"em_h", "p", "v", "b">>, <<"te_c", "v", "b">>, <<"te_m", "v", "b">>,
         <<"te_d", "v">>, <<"te_keep", "v", "b">>, <<"te_h", "p", "v", "b">>,
         <<"ioa_c", "v", "b">>, <<"ioa_m", "v", "b">>, <<"ioa_h", "p", "v", "b">>, <<"ioa_hm", "p", "v", "b">>, <<"ioa_a", "v", "i">>,
         <<"erase_it", "p">>, <<"erase_ifv", "b">>, <<"find", "v">>, <<"count", "v">>}
Set_ == {<<"sins_c", "v">>, <<"sins_m", "v">>, <<"sem", "v">>, <<"sins_h", "p", "v">>, <<"sem_h", "p", "v">>}
Mk_ == {<<"ctor_mk", "v", "b">>}
HMap_ == Mk_ \cup {<<"te_hm", "p", "v", "b">>}
Bounds_ == {<<"clb", "v">>, <<"cub", "v">>, <<"ceqr", "v">>}
MBounds_ == {<<"lb", "v">>, <<"ub", "v">>, <<"eqr", "v">>}
Hetero_ == {<<"hcfind", "v">>, <<"hcontains", "v">>, <<"hcount", "v">>, <<"hclb", "v">>, <<"hcub", "v">>, <<"hceqr", "v">>}
MHetero_ == {<<"hfind", "v">>, <<"hlb", "v">>, <<"hub", "v">>, <<"heqr", "v">>}
Sigs(t) ==
  CASE t \in {"map_lt", "map_gt", "map_hf"} -> Common_ \cup Map_ \cup HMap_ \cup Bounds_ \cup MBounds_ \cup {<<"ctor_cmp", "v", "n", "b">>}
    [] t = "map_tr" -> Common_ \cup Map_ \cup HMap_ \cup Bounds_ \cup MBounds_ \cup Hetero_ \cup MHetero_
    [] t \in {"set_lt", "set_gt", "set_hf"} ->
         Common_ \cup Set_ \cup Mk_ \cup Bounds_ \cup {<<"count", "v">>, <<"sins_hm", "p", "v">>, <<"ctor_cmp", "v", "n", "b">>}
    [] t = "set_tr" -> Common_ \cup Set_ \cup Mk_ \cup Bounds_ \cup Hetero_ \cup {<<"count", "v">>, <<"sins_hm", "p", "v">>}
    [] t \in {"umap_eq", "umap_hf"} -> Common_ \cup Map_ \cup HMap_
    [] t \in {"uset_eq", "uset_hf"} -> Common_ \cup Set_ \cup Mk_ \cup {<<"ste_c", "v">>, <<"ste_h", "p", "v">>, <<"ste_hm", "p", "v">>, <<"find", "v">>, <<"count", "v">>, <<"sins_hm", "p", "v">>, <<"ste", "v">>}
    [] t = "emap" -> (Common_ \cup Map_ \cup {<<"bld_c", "v", "n", "b">>, <<"bld_il", "v", "n", "b">>, <<"bld_ra", "v", "n", "b">>, <<"bld_r", "v", "n", "b">>,
                        <<"with_keys", "b">>, <<"with_all", "v", "n", "b">>, <<"with_all_il", "v", "n", "b">>})
                     \ {<<"ioa_m", "v", "b">>, <<"ioa_hm", "p", "v", "b">>, <<"em_pw", "v", "b">>}
    [] t = "eset" -> Common_ \cup Set_ \cup {<<"all">>, <<"none">>, <<"complement">>, <<"copy_of">>, <<"complement_dup">>, <<"copy_dup">>, <<"bld_r", "v", "n", "b">>,
                        <<"bld_c", "v", "n", "b">>, <<"bld_il", "v", "n", "b">>, <<"bld_ra", "v", "n", "b">>, <<"bld_e", "v", "n", "b">>}
CtorNames == {"ctor_in", "ctor_ra", "ctor_il", "ctor_cmp", "bld_c", "bld_il", "bld_ra", "bld_e", "bld_r", "with_all", "with_all_il", "all", "none", "ctor_mk"}
AllOps(t, cap, len) ==
  {o \in OpsOf(Sigs(t), NKey(t, cap), cap, len) : len = 0 \/ o[1] \notin CtorNames}
=============================================================================
