------------------------------ MODULE CostOps ------------------------------
(* What a single call may cost: evaluations of the comparator / the hash /  *)
(* the key equality, and element operations (constructions, assignments and *)
(* destructions, those of the caller's own argument included).              *)
EXTENDS Common
RECURSIVE Lg2(_, _)
Lg2(x, h) == IF 2 ^ (h + 1) <= x THEN Lg2(x, h + 1) ELSE h
(* the height of a red-black tree of n nodes: the largest h with 2^h <= (n+1)^2 *)
H(n) == Lg2((n + 1) * (n + 1), 0)
Ordered == {"map", "set"}
HashedC == {"umap", "uset"}
Ends == {"vector", "deque", "list", "cdeque", "stack", "queue", "cqueue"}
(* t kind, o call, n elements before the call, p: how many stored keys hash *)
(* alike (hashed) / elements from the position to the end (sequences)       *)
MaxCmp(t, o, n, p) ==
    CASE t \in Ordered /\ o = "find" -> 2 * H(n) + 4                 \* two comparisons per level
      [] t \in Ordered /\ o \in {"insert", "erase", "range", "erase_it"} -> 4 * H(n) + 8
      [] t \in Ordered /\ o = "balance" -> 2 * p                      \* p: keys met by the shortest unsuccessful search; cmp: by the longest
      [] t \in HashedC -> 2 * p + 6                                   \* only keys that hash alike
      [] OTHER -> 0
MaxHash(t) == IF t \in HashedC THEN 4 ELSE 0
MaxEl(t, o, n, p) ==
    CASE t \in Ordered \cup HashedC ->
           (CASE o \in {"find", "range", "balance"} -> 2 [] o = "insert" -> 20 [] OTHER -> 10)   \* no element but the new or erased one (and one repositioned) is touched
      [] o \in {"push", "pop"} -> 8
      [] o = "peek" -> 0
      [] o \in {"insert1", "erase1"} ->
           (CASE t = "list" -> 8 [] t = "vector" -> 3 * p + 8 [] OTHER -> 3 * n + 8)
CostAllowed(e) ==
    /\ e.k = "ok"
    /\ e.cmp <= MaxCmp(e.t, e.o, e.n, e.p)
    /\ e.hash <= MaxHash(e.t)
    /\ e.el <= MaxEl(e.t, e.o, e.n, e.p)
=============================================================================
