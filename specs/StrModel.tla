------------------------------ MODULE StrModel ------------------------------
(* FixedString as a state machine; laws of the search functions, of the     *)
(* length limit and of stream extraction, checked on every value and call.  *)
EXTENDS StrOps, Json, SequencesExt
CONSTANTS KIND, MINCAP, MAXCAP, SIGFILE
VARIABLES cap, s
vars == <<cap, s>>
Init == cap \in MINCAP..MAXCAP /\ s = <<>>
Next == \E op \in AllOps(KIND, cap, Len(s)) : \E o \in Outs(KIND, cap, s, op) : o[1] = "ok" /\ s' = o[3] /\ cap' = cap
Bounded == Len(s) <= cap /\ \A i \in 1..Len(s) : s[i] \in 0..(NV - 1)
Functional == \A op \in AllOps(KIND, cap, Len(s)) : Cardinality(Outs(KIND, cap, s, op)) = 1
(* an error never hides a result within the limit *)
ReportedKinds == \A op \in AllOps(KIND, cap, Len(s)) : \A o \in Outs(KIND, cap, s, op) :
     /\ o[1] \in {"ok", "length_error", "out_of_range", "empty", "invalid"}
     /\ (o[1] = "ok" => Len(o[3]) <= cap)
(* a found position really is an occurrence, and there is no earlier / later one *)
FindSound == \A k \in 0..39 : \A p \in 0..(Len(s) + 1) :
     LET w == Word(k) r == Search("find", s, w, p) q == Search("rfind", s, w, p) IN
     /\ (r >= 0 => r >= p /\ OccursAt(s, w, r))
     /\ (r = -1 => \A i \in p..Len(s) : ~OccursAt(s, w, i))
     /\ (q >= 0 => q <= p /\ OccursAt(s, w, q))
     /\ (q = -1 => \A i \in 0..MinOf(p, Len(s)) : ~OccursAt(s, w, i))
(* of / not-of are complementary *)
Complementary == \A k \in 0..39 : \A p \in 0..(Len(s) - 1) :
     LET w == Word(k) IN p \in {Search("ffo", s, w, p), Search("ffno", s, w, p)} /\ p \in {Search("flo", s, w, p), Search("flno", s, w, p)}
(* comparison is a total order consistent with equality *)
Order == \A k \in 0..39 : LET w == Word(k) IN (Lex(s, w) = 0) = (s = w) /\ Lex(s, w) = -Lex(w, s)
(* substr pieces reassemble the string *)
Pieces == \A p \in 0..Len(s) : SubSeq(s, 1, p) \o SubSeq(s, p + 1, Len(s)) = s
EmitSigs == ndJsonSerialize(SIGFILE, SetToSeq(Sigs(KIND)))
ASSUME EmitSigs
RECURSIVE SumObl(_, _)
SumObl(c, n) == IF n < 0 THEN 0 ELSE SumObl(c, n - 1) + (NV ^ n) * Cardinality(AllOps(KIND, c, n))
ASSUME PrintT(<<"OBLIGATIONS", [c \in MINCAP..MAXCAP |-> SumObl(c, c)]>>)
=============================================================================
