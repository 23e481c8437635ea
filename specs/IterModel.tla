----------------------------- MODULE IterModel -----------------------------
(* Iterators as a state machine over a fixed content; the laws of their category. *)
EXTENDS IterOps
CONSTANTS KIND, MAXLEN, NVAL
VARIABLES s, it
vars == <<s, it>>
Contents == SeqsUpTo(IF KIND \in MapKinds THEN {x * 100 + y : x \in 0..(NVAL - 1), y \in 0..1} ELSE 0..(NVAL - 1), MAXLEN)
Dirs == IF Cat(KIND) = "fw" THEN {0} ELSE {0, 1}
Csts == IF KIND \in Fixed THEN {1} ELSE {0, 1}
Init == s \in Contents /\ \E d \in Dirs, c \in Csts : it = <<d, c, 0>>
Ops == {<<f>> : f \in {"walk", "deref", "pre_inc", "post_inc", "pre_dec", "post_dec", "conv", "base", "copies", "dflt"}}
       \cup {<<f, q>> : f \in {"move", "idx", "swap", "write"}, q \in 0..MAXLEN} \cup {<<"rel", q, c>> : q \in 0..MAXLEN, c \in Csts}
Can == {op \in Ops : Enabled(KIND, s, it, op)}
To(p) == it' = [it EXCEPT ![3] = p]
Step(op) ==
    CASE op[1] \in {"pre_inc", "post_inc"} -> To(it[3] + 1) /\ UNCHANGED s
      [] op[1] \in {"pre_dec", "post_dec"} -> To(it[3] - 1) /\ UNCHANGED s
      [] op[1] \in {"move", "swap"} -> To(op[2]) /\ UNCHANGED s
      [] op[1] = "conv" -> it' = <<it[1], 1, it[3]>> /\ UNCHANGED s
      [] op[1] = "base" -> it' = <<0, it[2], Len(s) - it[3]>> /\ UNCHANGED s
      [] op[1] = "write" -> op[2] < 2 /\ (\E o \in IterOuts(KIND, s, it, op) : s' = o[3]) /\ UNCHANGED it
      [] OTHER -> UNCHANGED vars
Next == \E op \in Can : Step(op)
InRange == it[3] \in 0..Len(s) /\ Len(s) <= MAXLEN
Get(op) == (CHOOSE o \in IterOuts(KIND, s, it, op) : TRUE)[2]
One == \A op \in Can : Cardinality(IterOuts(KIND, s, it, op)) = 1
(* a suffix determines the position, so walking identifies the iterator *)
Identified == \A p, q \in 0..Len(s) : From(it[1], s, p) = From(it[1], s, q) => p = q
(* ++ then -- comes back; the post forms return what the pre forms left behind *)
Inverse == it[3] < Len(s) => /\ From(it[1], s, it[3]) = <<AtPos(it[1], s, it[3])>> \o From(it[1], s, it[3] + 1)
                             /\ Get(<<"post_inc">>)[2] = Get(<<"pre_inc">>)[2]
(* difference is the number of increments; ordering is its sign; antisymmetric, transitive *)
Difference == Cat(KIND) = "ra" => \A q \in 0..Len(s) :
     LET r == Get(<<"rel", q, 1>>) IN
     /\ r[4] = Len(From(it[1], s, q)) - Len(From(it[1], s, it[3])) /\ r[5] = 0 - r[4]
     /\ (r[1] = 1 <=> r[4] = 0) /\ (r[6] = 1 <=> r[4] < 0) /\ (r[7] = 1 <=> r[4] > 0)
     /\ (r[8] = 1 <=> r[4] <= 0) /\ (r[9] = 1 <=> r[4] >= 0)
Subscript == Cat(KIND) = "ra" => \A q \in 0..(Len(s) - 1) : Get(<<"idx", q>>)[1] = Head(Get(<<"move", q>>)[1])
(* the two directions see the same elements in opposite order; *rit is *--rit.base() *)
Mirror == it[1] = 1 =>
     /\ Get(<<"walk">>)[1] \o <<>> = Rev(SubSeq(s, 1, Len(s) - it[3]))
     /\ (it[3] < Len(s) => Get(<<"deref">>)[1] = From(0, s, Len(s) - it[3] - 1)[1])
(* conversion to const neither moves nor changes *)
Conversion == it[2] = 0 => Get(<<"conv">>)[1] = Get(<<"walk">>)[1]
WriteLocal == \A op \in Can : op[1] = "write" => \A o \in IterOuts(KIND, s, it, op) :
     Cardinality({i \in 1..Len(s) : s[i] # o[3][i]}) <= 1 /\ Len(o[3]) = Len(s)
=============================================================================
