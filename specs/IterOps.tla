------------------------------ MODULE IterOps ------------------------------
(* Iterators of every container and of the integer ranges.                  *)
(* An iterator is <<dir, cst, p>>: direction (0 forward, 1 reverse), const  *)
(* (1) or mutable (0), and its position p in 0..Len counted along its own   *)
(* direction.  It stands for the suffix From(dir, s, p) that is still ahead *)
(* of it; what an iterator is gets observed by walking it to the end.       *)
EXTENDS Common
Fw == {"umap_eq", "umap_hf", "uset_eq", "uset_hf"}
Ra == {"vector", "deque", "cdeque", "str", "earr", "earn", "irange", "crange"}
Cat(t) == IF t \in Fw THEN "fw" ELSE IF t \in Ra THEN "ra" ELSE "bi"
MapKinds == {"map_lt", "map_gt", "map_hf", "map_tr", "umap_eq", "umap_hf", "emap"}
Fixed == {"set_lt", "set_gt", "set_hf", "set_tr", "uset_eq", "uset_hf", "eset", "irange", "frange", "crange"}   \* only const iterators

(* the sequence an iterator runs over: the contents, or the integers of a range *)
(*   irange <<a, b>>   frange <<a, b, mask>>   crange <<a, size, start, n>>      *)
Content(t, s) ==
    CASE t = "irange" -> [i \in 1..(s[2] - s[1]) |-> s[1] + i - 1]
      [] t = "frange" -> SelectSeq([i \in 1..(s[2] - s[1]) |-> s[1] + i - 1], LAMBDA x : Bit(s[3], x - s[1]))
      [] t = "crange" -> [i \in 1..s[4] |-> s[1] + ((s[3] - s[1] + i - 1) % s[2])]
      [] OTHER -> s
Along(dir, s) == IF dir = 1 THEN Rev(s) ELSE s
From(dir, s, p) == SubSeq(Along(dir, s), p + 1, Len(s))
AtPos(dir, s, p) == Along(dir, s)[p + 1]
Index(dir, s, p) == IF dir = 1 THEN Len(s) - p ELSE p + 1
PutVal(t, e, v) == IF t \in MapKinds THEN (e \div 100) * 100 + v ELSE v

(* when is the call meaningful at all *)
Enabled(t, s, it, op) ==
    LET f == op[1]  dir == it[1]  p == it[3]  L == Len(s) IN
    CASE f \in {"walk", "copies", "dflt"} -> TRUE
      [] f \in {"deref", "pre_inc", "post_inc"} -> p < L
      [] f \in {"pre_dec", "post_dec"} -> Cat(t) # "fw" /\ p > 0
      [] f = "move" -> Cat(t) = "ra" /\ op[2] \in 0..L
      [] f = "idx" -> Cat(t) = "ra" /\ op[2] \in 0..(L - 1)
      [] f = "rel" -> op[2] \in 0..L
      [] f = "conv" -> it[2] = 0
      [] f = "base" -> dir = 1
      [] f = "write" -> it[2] = 0 /\ p < L
      [] f = "swap" -> op[2] \in 0..L
(* the only allowed result: <<verdict, observations, contents afterwards>> *)
IterOuts(t, s0, it, op) ==
    LET f == op[1]
        s == Content(t, s0)
        dir == it[1]
        p == it[3]
        L == Len(s)
        F(q) == From(dir, s, q)
    IN
    CASE f = "walk" -> Ok(<<F(p)>>, s)
      [] f = "deref" -> Ok(<<AtPos(dir, s, p), AtPos(dir, s, p)>>, s)                 \* *it and it->
      [] f = "pre_inc" -> Ok(<<1, F(p + 1)>>, s)                                      \* 1: returns itself
      [] f = "post_inc" -> Ok(<<F(p), F(p + 1)>>, s)                                  \* the old position is returned
      [] f = "pre_dec" -> Ok(<<1, F(p - 1)>>, s)
      [] f = "post_dec" -> Ok(<<F(p), F(p - 1)>>, s)
      [] f = "move" -> Ok(<<F(op[2]), F(op[2]), F(op[2]), F(op[2]), F(op[2]), 1, F(p)>>, s)   \* it+d d+it it+=d it-(-d) it-=-d; it itself unmoved
      [] f = "idx" -> Ok(<<AtPos(dir, s, op[2])>>, s)
      [] f = "rel" ->                                                                 \* op[2]: the other position, op[3]: its constness
           LET q == op[2] IN
           Ok(<<B01(p = q), B01(p # q), B01(p = q)>> \o
              (IF Cat(t) = "ra" THEN <<p - q, q - p, B01(p < q), B01(p > q), B01(p <= q), B01(p >= q)>> ELSE <<>>), s)
      [] f = "conv" -> Ok(<<F(p), 1>>, s)                                             \* to const: same position, equal
      [] f = "base" -> Ok(<<From(0, s, L - p)>>, s)
      [] f = "copies" -> Ok(<<F(p), F(p), F(p)>>, s)                                  \* copies move on their own
      [] f = "swap" -> Ok(<<F(op[2]), F(p)>>, s)
      [] f = "dflt" -> Ok(<<1>>, s)
      [] f = "write" -> Ok(<<>>, [s EXCEPT ![Index(dir, s, p)] = PutVal(t, @, op[2])])
IterAllowed(t, s, it, op, k, r, n) ==
    LET c == Content(t, s) IN
    /\ Enabled(t, c, it, op)
    /\ it[3] \in 0..Len(c)
    /\ (t \in Fixed => it[2] = 1)
    /\ <<k, r, n>> \in IterOuts(t, s, it, op)
=============================================================================
