----------------------------- MODULE PairModel -----------------------------
(* Two containers of one kind as a state machine: every pair of abstract    *)
(* values, every two-container call; the laws of value semantics.           *)
EXTENDS PairOps
CONSTANTS KIND, MINCAP, MAXCAP
VARIABLES cap, a, b
vars == <<cap, a, b>>
NVal == 3
(* every abstract value of a kind within a capacity *)
Perms(S) == {f \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => f[i] # f[j]}
Distinct(t, S) == \A x, y \in S : x # y => Rank(t, Key(t, x)) # Rank(t, Key(t, y))
SortedBy(t, f) == \A i \in 1..(Len(f) - 1) : Rank(t, Key(t, f[i])) < Rank(t, Key(t, f[i + 1]))
Entries(t, c) == {Entry(t, k, v) : k \in 0..(NKey(t, c) - 1), v \in IF IsMap(t) THEN 0..1 ELSE {0}}
Values(t, c) ==
    CASE t \in ArrKinds -> [1..c -> 0..(NVal - 1)]
      [] AssocKind(t) -> UNION {{f \in Perms(S) : Hashed(t) \/ SortedBy(t, f)} :
                                S \in {X \in SUBSET Entries(t, c) : Cardinality(X) <= c /\ Distinct(t, X)}}
      [] OTHER -> SeqsUpTo(0..(NVal - 1), c)
Calls == {<<"eq", 0>>, <<"swap", 0>>, <<"self_c", 0>>, <<"self_m", 0>>} \cup ({"cassign", "cctor"} \X {0, 1})
         \cup ({"massign", "mctor"} \X {1, 2})
Init == cap \in MINCAP..MAXCAP /\ a \in Values(KIND, cap) /\ b \in Values(KIND, cap)
Next == \E op \in Calls : LET w == After(KIND, a, b, op) IN a' = w[1] /\ b' = w[2] /\ cap' = cap
InDomain == a \in Values(KIND, cap) /\ b \in Values(KIND, cap)
(* equality is an equivalence; it and the ordering are two faces of one total order *)
EqLaws == /\ Same(KIND, a, a)
          /\ Same(KIND, a, b) = Same(KIND, b, a)
          /\ \A c \in Values(KIND, cap) : Same(KIND, a, b) /\ Same(KIND, b, c) => Same(KIND, a, c)
OrderLaws == (~AssocKind(KIND) \/ (~Hashed(KIND) /\ ~IsMap(KIND))) =>
          /\ (Lex(a, b) = 0) = Same(KIND, a, b)
          /\ Lex(a, b) = 0 - Lex(b, a)
          /\ \A c \in Values(KIND, cap) : Lex(a, b) <= 0 /\ Lex(b, c) <= 0 => Lex(a, c) <= 0
(* a copy equals its source; a swap done twice is nothing; a move transfers *)
CopyLaw == \A f \in {"cassign", "cctor"} : LET w == After(KIND, a, b, <<f, 0>>) IN w[1] = w[2] /\ w[2] = b
SwapLaw == LET w == After(KIND, a, b, <<"swap", 0>>) IN After(KIND, w[1], w[2], <<"swap", 0>>) = <<a, b>>
MoveLaw == \A f \in {"massign", "mctor"} : \A m \in {0, 1, 2} : After(KIND, a, b, <<f, m>>)[1] = b
(* equal containers show the same to every reader *)
Observational == Same(KIND, a, b) /\ (~AssocKind(KIND) \/ ~Hashed(KIND)) => Deep(KIND, cap, a) = Deep(KIND, cap, b)
ASSUME PrintT(<<"OBLIGATIONS", [c \in MINCAP..MAXCAP |-> Cardinality(Values(KIND, c)) * Cardinality(Values(KIND, c))]>>)
=============================================================================
