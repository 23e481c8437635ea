------------------------------ MODULE PairOps ------------------------------
(* Value semantics: what two containers a and b of the same kind show after *)
(* comparing, copying, moving, assigning and swapping them.  Abstract       *)
(* values are those of SeqOps, AssocOps, EArrOps and StrOps.                *)
EXTENDS AssocOps

SeqKinds == {"vector", "deque", "list", "cdeque", "stack", "queue", "cqueue"}
ArrKinds == {"earr", "earn"}
AssocKind(t) == t \notin SeqKinds \cup ArrKinds \cup {"str"}
Adapter(t) == t \in {"stack", "queue", "cqueue"}
Same(t, x, y) == IF AssocKind(t) /\ Hashed(t) THEN Len(x) = Len(y) /\ RangeOf(x) = RangeOf(y) ELSE x = y
Coarse(t) == t \in {"umap_hf", "uset_hf"}     \* key equality coarser than ==: the library does not say which one == uses
EqAllowed(t, x, y, v) ==
    IF Coarse(t) /\ ~Same(t, x, y) /\ Len(x) = Len(y) THEN v \in {0, 1} ELSE v = B01(Same(t, x, y))

(* everything else a reader can see: backward traversal, size, membership of every key *)
Deep(t, cap, s) ==
    IF AssocKind(t)
    THEN LET mem == [k \in 1..NKey(t, cap) |-> B01(Has(t, s, k - 1))]
         IN IF Hashed(t) THEN <<Len(s), mem>> ELSE <<Rev(s), Len(s), mem>>
    ELSE IF Adapter(t) THEN <<Len(s)>> ELSE <<Rev(s), Len(s)>>

ANY == <<-1000001>>
NONE == <<-1000002>>
(* op = <<name, mode>>.  After(..) = <<value of a, value of b>>; ANY where nothing is promised *)
After(t, sa, sb, op) ==
    LET f == op[1]
        m == op[2]
        Z == IF t \in ArrKinds THEN ANY ELSE <<>>
    IN CASE f \in {"eq", "cmp", "xeq", "xcmp", "self_c", "self_m"} -> <<sa, sb>>
         [] f = "swap" -> <<sb, sa>>
         [] f \in {"cassign", "cctor"} -> IF m = 0 THEN <<sb, sb>> ELSE <<sa, sb>>                \* m=1: the copy is then edited into sa
         [] f \in {"massign", "mctor"} ->
              CASE m = 0 -> <<sb, Z>>           \* source cleared
                [] m = 1 -> <<sb, sa>>          \* source cleared, then filled with sa
                [] m = 2 -> <<sb, sb>>          \* source assigned from the destination
                [] m = 3 -> <<sb, NONE>>  \* source destroyed
                [] OTHER -> <<sa, NONE>>  \* destination edited into sa
         [] f = "dassign" ->                     \* destination default-constructed with other comparator/hash state
              CASE m = 0 -> <<sb, sb>> [] m = 1 -> <<sb, Z>> [] m = 2 -> <<sa, sb>> [] OTHER -> <<sa, NONE>>
         [] f = "ind" ->
              CASE m \in {0, 1} -> <<sb, NONE>>    \* copied, then the source is edited at random
                [] m = 2 -> <<NONE, sb>>           \* copied, then the copy is edited at random
                [] OTHER -> <<sb, NONE>>           \* copied, then the source is destroyed

CmpRow(x, y) == LET c == Lex(x, y) IN <<c, B01(c < 0), B01(c <= 0), B01(c > 0), B01(c >= 0), 0 - c>>
ValueOk(t, want, got) ==
    CASE want = ANY -> TRUE
      [] want = NONE -> got = <<>>
      [] OTHER -> Same(t, want, got)
DeepOk(t, cap, want, got, d) ==
    IF want = NONE THEN d = <<>> ELSE d = Deep(t, cap, got)
PairAllowed(t, cap, sa, sb, op, k, r, na, nb) ==
    LET w == After(t, sa, sb, op) IN
    /\ k = "ok"
    /\ ValueOk(t, w[1], na) /\ ValueOk(t, w[2], nb)
    /\ CASE op[1] \in {"eq", "xeq"} -> EqAllowed(t, sa, sb, r[1]) /\ r = <<r[1], r[1], 1 - r[1], 1 - r[1]>>
         [] op[1] \in {"cmp", "xcmp"} -> r = CmpRow(sa, sb)
         [] OTHER -> DeepOk(t, cap, w[1], na, r[1]) /\ DeepOk(t, cap, w[2], nb, r[2])
=============================================================================
