------------------------------ MODULE RbModel ------------------------------
(* The red-black tree behind FixedMap and FixedSet, at the level of its     *)
(* links and colours: insertion with recolouring and rotations, erasure by  *)
(* structural exchange with the successor, then unlinking, then fixing.     *)
(* Nodes are named by their keys; 0 is the null node.                       *)
EXTENDS CostOps
CONSTANT NKEYS
Keys == 1..NKEYS
Node == 0..NKEYS
L == 1  R == 2
Other(d) == 3 - d
BLACK == 0  RED == 1
VARIABLES root, ch, par, col, live
vars == <<root, ch, par, col, live>>
Tree == [root |-> root, ch |-> ch, par |-> par, col |-> col]
P(t, x) == IF x = 0 THEN 0 ELSE t.par[x]
C(t, x, d) == IF x = 0 THEN 0 ELSE t.ch[x][d]
Col(t, x) == IF x = 0 THEN BLACK ELSE t.col[x]
SetCol(t, x, c) == IF x = 0 THEN t ELSE [t EXCEPT !.col[x] = c]
SetP(t, x, p) == IF x = 0 THEN t ELSE [t EXCEPT !.par[x] = p]
SetC(t, x, d, y) == IF x = 0 THEN t ELSE [t EXCEPT !.ch[x][d] = y]
Side(t, x) == IF C(t, P(t, x), L) = x THEN L ELSE R
(* y takes the place of x below x's parent *)
Replace(t, x, y) ==
    LET p == P(t, x)
        t1 == IF p = 0 THEN [t EXCEPT !.root = y] ELSE SetC(t, p, Side(t, x), y)
    IN SetP(t1, y, p)
(* x goes down on side d, its child on the other side comes up *)
Rotate(t, x, d) ==
    IF x = 0 THEN t ELSE
    LET y == C(t, x, Other(d))
        m == C(t, y, d)
        t1 == SetP(SetC(t, x, Other(d), m), m, x)
        t2 == Replace(t1, x, y)
    IN SetP(SetC(t2, y, d, x), x, y)
RECURSIVE FixIns(_, _)
FixIns(t, x) ==
    IF x = 0 \/ x = t.root \/ Col(t, P(t, x)) = BLACK THEN SetCol(t, t.root, BLACK)
    ELSE LET p == P(t, x)
             g == P(t, p)
             d == Side(t, p)
             u == C(t, g, Other(d))
         IN IF Col(t, u) = RED
            THEN FixIns(SetCol(SetCol(SetCol(t, p, BLACK), u, BLACK), g, RED), g)
            ELSE LET inner == Side(t, x) # d
                     x1 == IF inner THEN p ELSE x
                     t1 == IF inner THEN Rotate(t, p, d) ELSE t
                     p1 == P(t1, x1)
                     g1 == P(t1, p1)
                 IN FixIns(Rotate(SetCol(SetCol(t1, p1, BLACK), g1, RED), g1, Other(d)), x1)
RECURSIVE Place(_, _, _)
Place(t, x, k) == IF C(t, x, IF k < x THEN L ELSE R) = 0 THEN x ELSE Place(t, C(t, x, IF k < x THEN L ELSE R), k)
Insert(t, k) ==
    LET fresh == [t EXCEPT !.ch[k] = <<0, 0>>, !.par[k] = 0, !.col[k] = RED]
    IN IF t.root = 0 THEN FixIns([fresh EXCEPT !.root = k], k)
       ELSE LET p == Place(t, t.root, k)
            IN FixIns(SetP(SetC(fresh, p, IF k < p THEN L ELSE R, k), k, p), k)
RECURSIVE FixDel(_, _)
FixDel(t, x) ==
    IF x = t.root \/ Col(t, x) = RED THEN SetCol(t, x, BLACK)
    ELSE LET d == Side(t, x)
             o == Other(d)
             s0 == C(t, P(t, x), o)
             t1 == IF Col(t, s0) = RED THEN Rotate(SetCol(SetCol(t, s0, BLACK), P(t, x), RED), P(t, x), d) ELSE t
             s1 == C(t1, P(t1, x), o)
         IN IF Col(t1, C(t1, s1, L)) = BLACK /\ Col(t1, C(t1, s1, R)) = BLACK
            THEN FixDel(SetCol(t1, s1, RED), P(t1, x))
            ELSE LET near == Col(t1, C(t1, s1, o)) = BLACK
                     t2 == IF near THEN Rotate(SetCol(SetCol(t1, C(t1, s1, d), BLACK), s1, RED), s1, o) ELSE t1
                     s2 == C(t2, P(t2, x), o)
                     t3 == SetCol(t2, s2, Col(t2, P(t2, x)))
                     t4 == SetCol(t3, P(t3, x), BLACK)
                     t5 == SetCol(t4, C(t4, s2, o), BLACK)
                     t6 == Rotate(t5, P(t5, x), d)
                 IN SetCol(t6, t6.root, BLACK)
RECURSIVE Min(_, _)
Min(t, x) == IF C(t, x, L) = 0 THEN x ELSE Min(t, C(t, x, L))
(* exchange the places (links and colours) of x and its successor s, which has no left child *)
Exchange(t, x, s) ==
    LET xl == C(t, x, L)
        xr == C(t, x, R)
        sr == C(t, s, R)
        sp == P(t, s)
        t1 == Replace(t, x, s)
        t2 == [t1 EXCEPT !.col[s] = t.col[x], !.col[x] = t.col[s]]
        t3 == SetP(SetC(t2, s, L, xl), xl, s)
        t4 == SetP([t3 EXCEPT !.ch[x] = <<0, sr>>], sr, x)
    IN IF xr = s THEN SetP(SetC(t4, s, R, x), x, s)
       ELSE SetP(SetC(SetP(SetC(t4, s, R, xr), xr, s), sp, L, x), x, sp)
Erase(t, x) ==
    LET t0 == IF C(t, x, L) # 0 /\ C(t, x, R) # 0 THEN Exchange(t, x, Min(t, C(t, x, R))) ELSE t
        y == IF C(t0, x, L) # 0 THEN C(t0, x, L) ELSE C(t0, x, R)
    IN IF y # 0
       THEN LET t1 == Replace(t0, x, y)
            IN IF Col(t0, x) = BLACK THEN FixDel(t1, y) ELSE t1
       ELSE IF P(t0, x) = 0 THEN [t0 EXCEPT !.root = 0]
       ELSE LET t1 == IF Col(t0, x) = BLACK THEN FixDel(t0, x) ELSE t0
            IN SetC(t1, P(t1, x), Side(t1, x), 0)
Clean(t, x) == [t EXCEPT !.ch[x] = <<0, 0>>, !.par[x] = 0, !.col[x] = BLACK]
Become(t) == root' = t.root /\ ch' = t.ch /\ par' = t.par /\ col' = t.col
Init == root = 0 /\ ch = [k \in Keys |-> <<0, 0>>] /\ par = [k \in Keys |-> 0] /\ col = [k \in Keys |-> BLACK] /\ live = {}
Next == \/ \E k \in Keys \ live : Become(Insert(Tree, k)) /\ live' = live \cup {k}
        \/ \E k \in live : Become(Clean(Erase(Tree, k), k)) /\ live' = live \ {k}
(* ---- invariants *)
RECURSIVE InOrder(_, _)
InOrder(t, x) == IF x = 0 THEN <<>> ELSE InOrder(t, C(t, x, L)) \o <<x>> \o InOrder(t, C(t, x, R))
RECURSIVE Height(_, _)
Height(t, x) == IF x = 0 THEN 0 ELSE 1 + LET a == Height(t, C(t, x, L)) b == Height(t, C(t, x, R)) IN IF a > b THEN a ELSE b
RECURSIVE BlackHeights(_, _)
BlackHeights(t, x) == IF x = 0 THEN {0} ELSE {b + (IF Col(t, x) = BLACK THEN 1 ELSE 0) : b \in BlackHeights(t, C(t, x, L)) \cup BlackHeights(t, C(t, x, R))}
RangeOf(s) == {s[i] : i \in DOMAIN s}
SearchTree == LET s == InOrder(Tree, root) IN RangeOf(s) = live /\ Len(s) = Cardinality(live) /\ \A i \in 1..(Len(s) - 1) : s[i] < s[i + 1]
Links == /\ root # 0 => par[root] = 0
         /\ \A k \in live : \A d \in {L, R} : ch[k][d] # 0 => par[ch[k][d]] = k
NoRedRed == Col(Tree, root) = BLACK /\ \A k \in live : col[k] = RED => Col(Tree, par[k]) = BLACK
EqualBlack == Cardinality(BlackHeights(Tree, root)) = 1
Logarithmic == Height(Tree, root) <= H(Cardinality(live))
(* the comparisons of a search: two per node visited *)
RECURSIVE Visits(_, _, _)
Visits(t, x, k) == IF x = 0 THEN 0 ELSE IF k = x THEN 1 ELSE 1 + Visits(t, C(t, x, IF k < x THEN L ELSE R), k)
(* how many nodes the searches that end at the null nodes below x visit *)
RECURSIVE Misses(_, _)
Misses(t, x) == IF x = 0 THEN {0} ELSE {m + 1 : m \in Misses(t, C(t, x, L)) \cup Misses(t, C(t, x, R))}
Balanced == \A a, b \in Misses(Tree, root) : a <= MaxCmp("map", "balance", Cardinality(live), b)
SearchCost == \A k \in Keys : 2 * Visits(Tree, root, k) <= MaxCmp("map", "find", Cardinality(live), 0)
=============================================================================
