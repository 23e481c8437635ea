----------------------------- MODULE AssocModel -----------------------------
(* The associative container as a state machine, checked exhaustively.      *)
EXTENDS AssocOps, Json, SequencesExt
CONSTANTS KIND, MINCAP, MAXCAP, SIGFILE
VARIABLES cap, s
vars == <<cap, s>>
Init == cap \in MINCAP..MAXCAP /\ s = <<>>
Next == \E op \in AllOps(KIND, cap, Len(s)) :
          \E o \in Outs(KIND, cap, s, op) : o[1] = "ok" /\ s' = o[3] /\ cap' = cap
Spec == Init /\ [][Next]_vars

Bounded == Len(s) <= cap
UniqueKeys == \A i, j \in 1..Len(s) : i # j => Rank(KIND, Key(KIND, s[i])) # Rank(KIND, Key(KIND, s[j]))
Sorted == Hashed(KIND) \/ \A i \in 1..(Len(s) - 1) : Rank(KIND, Key(KIND, s[i])) < Rank(KIND, Key(KIND, s[i + 1]))
(* every call has an outcome; an ordered container has exactly one (heterogeneous find excepted) *)
Total == \A op \in AllOps(KIND, cap, Len(s)) :
           LET n == Cardinality(Outs(KIND, cap, s, op)) IN
           n >= 1 /\ (~Hashed(KIND) /\ op[1] \notin {"hfind", "hcfind"} => n = 1)
(* lookup agrees with traversal after every call *)
LookupAgrees == \A op \in AllOps(KIND, cap, Len(s)) : \A o \in Outs(KIND, cap, s, op) : o[1] = "ok" =>
     \A k \in 0..(NKey(KIND, cap) - 1) :
        Has(KIND, o[3], k) <=> \E i \in 1..Len(o[3]) : Rank(KIND, Key(KIND, o[3][i])) = Rank(KIND, k)
(* erasing keeps the relative order of the survivors; inserting keeps that of the residents *)
SubSeqOf(a, b) == LET In(x) == \E i \in 1..Len(a) : Key(KIND, a[i]) = Key(KIND, x)
                  IN Keys(KIND, SelectSeq(b, In)) = Keys(KIND, a)
OrderKept == \A op \in AllOps(KIND, cap, Len(s)) :
     op[1] \in {"erase_cit", "erase_rng", "erase_k", "erase_if", "ins_c", "ins_m", "sins_c", "sins_m", "ioa_c"} =>
       \A o \in Outs(KIND, cap, s, op) : o[1] = "ok" => SubSeqOf(o[3], s) \/ SubSeqOf(s, o[3])
(* the limit is reported exactly when a new key meets a full container *)
FullOnly == \A op \in AllOps(KIND, cap, Len(s)) : op[1] \in {"ins_c", "sins_c", "te_c", "ioa_c", "idx_c"} =>
     ((\E o \in Outs(KIND, cap, s, op) : o[1] = "length_error") <=> (Len(s) = cap /\ ~Has(KIND, s, op[2])))
ReportedKinds == \A op \in AllOps(KIND, cap, Len(s)) : \A o \in Outs(KIND, cap, s, op) :
     o[1] \in {"ok", "length_error", "out_of_range", "abort", "duplicate_entries", "missing_entries"}
(* the test used for recorded steps accepts exactly the listed outcomes *)
TestAgrees == Hashed(KIND) => \A op \in AllOps(KIND, cap, Len(s)) : op[1] \in RunOps =>
     /\ \A o \in Outs(KIND, cap, s, op) : Allowed(KIND, cap, s, op, o[1], o[2], o[3])
     /\ \A o \in Outs(KIND, cap, s, op) : \A n \in {o[3] \o <<0>>, Tail(o[3] \o <<1>>), Rev(o[3])} :
           Allowed(KIND, cap, s, op, o[1], o[2], n) => <<o[1], o[2], n>> \in Outs(KIND, cap, s, op)
EmitSigs == ndJsonSerialize(SIGFILE, SetToSeq(Sigs(KIND)))
ASSUME EmitSigs
(* number of obligations: (set of entries, call) pairs *)
Abs(c) == LET NK == NKey(KIND, c)
              G == {Rank(KIND, k) : k \in 0..(NK - 1)}
              W == IF IsMap(KIND) THEN 2 ELSE 1
              per == (NK \div (IF Cardinality(G) = 0 THEN 1 ELSE Cardinality(G))) * W    \* entries per equivalence class
          IN [n \in 0..c |-> Cardinality({x \in SUBSET G : Cardinality(x) = n}) * (per ^ n)]
RECURSIVE SumObl(_, _)
SumObl(c, n) == IF n < 0 THEN 0 ELSE SumObl(c, n - 1) + Abs(c)[n] * Cardinality(AllOps(KIND, c, n))
ASSUME PrintT(<<"OBLIGATIONS", [c \in MINCAP..MAXCAP |-> SumObl(c, c)]>>)
=============================================================================
