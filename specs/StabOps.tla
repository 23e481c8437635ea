------------------------------ MODULE StabOps ------------------------------
(* Stability of iterators and references: which elements of a container are *)
(* promised to be left where they are by a call, and at which position of   *)
(* the new sequence they are found.  Positions are 1-based here; 0 = gone   *)
(* or nothing promised.                                                     *)
EXTENDS AssocOps

NodeKind(t) == t = "list" \/ t \notin {"vector", "deque", "cdeque"}
Rebuilt == {"copy", "move", "cassign", "massign", "self_assign", "clear", "all", "none", "complement", "copy_of", "complement_dup", "copy_dup", "with_keys", "with_all", "with_all_il",
            "assign_n", "assign_in", "assign_fw", "assign_ra", "assign_il", "assign_mv",
            "ctor_n", "ctor_nv", "ctor_in", "ctor_fw", "ctor_ra", "ctor_il", "ctor_cmp", "bld_c", "bld_il", "bld_ra", "bld_e", "bld_r",
            "ctor_mk", "ctor_bp", "ctor_bi", "ctor_bl", "ctor_bc"}
Inserts == {"insert_c", "insert_m", "emplace", "insert_a", "emplace_a", "insert_in", "insert_fw", "insert_ra", "insert_il", "insert_mv"}
PushFronts == {"push_front_c", "push_front_m", "emplace_front", "push_front_a", "emplace_front_a"}
PushBacks == {"push_back_c", "push_back_m", "emplace_back", "push_back_a", "emplace_back_a"}
Resizes == {"resize", "resize_v", "resize_a"}
ByValue == {"erase_v", "erase_u", "remove", "remove_a", "erase_a", "erase_if", "remove_if"}
Dropped(s, op, x) ==
    CASE op[1] \in {"erase_v", "erase_u", "remove"} -> x = op[2]
      [] op[1] \in {"remove_a", "erase_a"} -> x = s[op[2] + 1]
      [] OTHER -> Bit(op[2], x)
Survivors(s, op, i) == Cardinality({j \in 1..i : ~Dropped(s, op, s[j])})
Untouched(s, op) == \A j \in 1..Len(s) : ~Dropped(s, op, s[j])

(* a node-based sequence: every element keeps its node until it is erased   *)
ListTrack(s, op, n) ==
    LET f == op[1]
        d == Len(n) - Len(s)
        L == Len(s)
    IN [i \in 1..L |->
         CASE f \in Rebuilt -> 0
           [] f \in PushFronts -> i + 1
           [] f \in Inserts -> IF i <= op[2] THEN i ELSE i + d
           [] f = "erase" -> IF i = op[2] + 1 THEN 0 ELSE IF i <= op[2] THEN i ELSE i - 1
           [] f = "erase_range" -> IF i <= op[2] THEN i ELSE IF i <= op[3] THEN 0 ELSE i - (op[3] - op[2])
           [] f = "pop_front" -> i - 1
           [] f = "pop_back" -> IF i = L THEN 0 ELSE i
           [] f \in ByValue -> IF Dropped(s, op, s[i]) THEN 0 ELSE Survivors(s, op, i)
           [] f \in Resizes -> IF i <= Len(n) THEN i ELSE 0
           [] OTHER -> i]
(* contiguous sequence: everything before the first position touched        *)
VectorTrack(s, op, n) ==
    LET f == op[1]
        L == Len(s)
    IN [i \in 1..L |->
         CASE f \in Rebuilt -> 0
           [] f \in Inserts \cup {"erase", "erase_range"} -> IF i <= op[2] THEN i ELSE 0
           [] f = "pop_back" -> IF i = L THEN 0 ELSE i
           [] f \in ByValue -> IF \E j \in 1..i : Dropped(s, op, s[j]) THEN 0 ELSE i
           [] f \in Resizes -> IF i <= Len(n) THEN i ELSE 0
           [] OTHER -> i]
(* ring: references survive insertion and removal at either end             *)
DequeTrack(cap, s, op, n) ==
    LET f == op[1]
        L == Len(s)
    IN [i \in 1..L |->
         CASE f \in Rebuilt -> 0
           [] f \in PushBacks -> IF L = cap THEN i - 1 ELSE i              \* only a circular deque goes on when full
           [] f \in PushFronts -> IF i = cap THEN 0 ELSE i + 1
           [] f = "pop_front" -> i - 1
           [] f = "pop_back" -> IF i = L THEN 0 ELSE i
           [] f \in Inserts \cup {"erase", "erase_range"} -> 0
           [] f \in ByValue -> IF Untouched(s, op) THEN i ELSE 0
           [] f \in Resizes -> IF i <= Len(n) THEN i ELSE 0
           [] OTHER -> i]
(* keyed containers: an element is its key                                  *)
At(t, n, k) == LET hit == {j \in 1..Len(n) : Key(t, n[j]) = k} IN IF hit = {} THEN 0 ELSE CHOOSE j \in hit : TRUE
KeyTrack(t, s, op, n) == [i \in 1..Len(s) |-> IF op[1] \in Rebuilt THEN 0 ELSE At(t, n, Key(t, s[i]))]

Track(t, cap, s, op, n) ==
    CASE t = "list" -> ListTrack(s, op, n)
      [] t = "vector" -> VectorTrack(s, op, n)
      [] t \in {"deque", "cdeque"} -> DequeTrack(cap, s, op, n)
      [] OTHER -> KeyTrack(t, s, op, n)
ItersToo(t) == t \notin {"deque", "cdeque"}

(* h[i] = what became of the iterator and of the address taken from element i before the call:           *)
(*   <<position of the iterator, position of the element at that address, value through the iterator,     *)
(*     value through the reference, steps to end(), steps back to begin()>>, 0 / -1 when there is none    *)
HandleOk(t, n, p, x) ==
    p = 0 \/ (/\ x[2] = p /\ x[4] = n[p]
              /\ ItersToo(t) => x[1] = p /\ x[3] = n[p] /\ x[5] = Len(n) + 1 - p
              /\ ItersToo(t) /\ ~(NodeKind(t) /\ t # "list" /\ Hashed(t)) => x[6] = p - 1)
EndOk(t, op, n, e) == (NodeKind(t) /\ op[1] \notin Rebuilt) => e = Len(n)
StabAllowed(t, cap, s, op, n, h, e) ==
    LET tr == Track(t, cap, s, op, n)
    IN Len(h) = Len(s) /\ (\A i \in 1..Len(s) : HandleOk(t, n, tr[i], h[i])) /\ EndOk(t, op, n, e)
=============================================================================
