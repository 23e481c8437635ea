----------------------------- MODULE ReflModel -----------------------------
(* All types up to a bound, all values of each: the laws of the visit and of the views. *)
EXTENDS ReflOps, Json, SequencesExt
CONSTANTS LEAVES, DEEP, OUTFILE
Wrap(S) == {[k |-> "opt", c |-> t] : t \in S} \cup {[k |-> x, n |-> 2, c |-> t] : x \in {"arr", "vec"}, t \in S}
Fld(n, t) == [n |-> n, t |-> t]
Strs(S) == {[k |-> "str", f |-> <<Fld("b", t)>>] : t \in S} \cup {[k |-> "str", f |-> <<Fld("b", t), Fld("a", u)>>] : t \in S, u \in S}
L0 == {[k |-> x] : x \in LEAVES}
L1 == L0 \cup Wrap(L0) \cup Strs(L0)
L2 == Strs(L1) \cup {[k |-> "str", f |-> <<>>]}
L3 == {[k |-> "str", f |-> <<Fld("x", w)>>] : w \in Wrap(Wrap(L0)) \cup Wrap(Strs(L0)) \cup Wrap(Strs(Wrap(L0)))}
Types == L2 \cup (IF DEEP THEN L3 ELSE {})
RECURSIVE Some(_, _)
Some(t, m) == CASE Leaf(t) -> m                                   \* a few values per type, by mode m
                [] t.k = "opt" -> IF m % 2 = 0 THEN <<>> ELSE <<Some(t.c, m + 1)>>
                [] t.k = "arr" -> [i \in 1..t.n |-> Some(t.c, m + i)]
                [] t.k = "vec" -> [i \in 1..(m % (t.n + 1)) |-> Some(t.c, m + i)]
                [] t.k = "str" -> [i \in 1..Len(t.f) |-> Some(t.f[i].t, m + i)]
VARIABLES t, m
Init == t \in Types /\ m \in 0..5
Next == UNCHANGED <<t, m>>
v == Some(t, m)
Ev == Events(t, v, 1, <<>>)
Plus == SelectSeq(Ev, LAMBDA x : x[1] = "+")
RECURSIVE Balanced(_, _)
Balanced(s, st) == IF s = <<>> THEN st = <<>>
                   ELSE IF s[1][1] = "+" THEN Balanced(Tail(s), <<Tail(s[1])>> \o st)
                   ELSE st # <<>> /\ st[1] = Tail(s[1]) /\ Balanced(Tail(s), Tail(st))
(* every visit is closed by its own post visit, innermost first, seeing the same thing *)
WellNested == Balanced(Ev, <<>>)
OncePerPath == Cardinality({x[2] : x \in RangeOf(Plus)}) = Len(Plus)
ParentFirst == \A i \in 1..Len(Plus) : i > 1 => \E j \in 1..(i - 1) : Plus[j][2] = SubSeq(Plus[i][2], 1, Len(Plus[i][2]) - 1)
(* the view has exactly the visited paths that are not structs *)
ViewIsVisit == {x[1] : x \in Entries(t, <<>>, <<>>)} = {x[2] : x \in {y \in RangeOf(Plus) : y[3] # "str"}}
(* a path with dimensions d1..dn leads to d1*...*dn places, all different *)
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE s[1] * Prod(Tail(s))
Places == LET C == Cells(t, v, TRUE, <<>>, <<>>) IN \A x \in Entries(t, <<>>, <<>>) : Cardinality({c \in C : c[1] = x[1]}) = Prod(x[3])
(* the live numbers reached through the view are all the numbers in the value *)
RECURSIVE Numbers(_, _)
Numbers(u, w) == CASE Leaf(u) -> 1
                   [] u.k = "str" -> IF u.f = <<>> THEN 0 ELSE Numbers([u EXCEPT !.f = Tail(@)], Tail(w)) + Numbers(u.f[1].t, w[1])
                   [] OTHER -> IF w = <<>> THEN 0 ELSE Numbers(u.c, w[1]) + Numbers(u, Tail(w))
Reach == LET C == Cells(t, v, TRUE, <<>>, <<>>)
             LP == {x[1] : x \in {y \in Entries(t, <<>>, <<>>) : y[2] \notin {"OPTIONAL", "ITERABLE", "RESIZABLE_ITERABLE"}}}
         IN Cardinality({c \in C : c[1] \in LP /\ c[3] # Dead}) = Numbers(t, v)
(* viewing a struct as itself shows it; a view follows the changes of what it shows *)
ViewItself == Fits(t, t) /\ Shown(t, t, v) = v
Follows == \A i \in 1..Len(t.f) : LET s == [t EXCEPT !.f = <<t.f[i]>>] IN
              Fits(s, t) /\ Shown(s, t, v) = <<v[i]>> /\ Shown(s, t, BumpAll(t, v)) = BumpAll(s, <<v[i]>>)
AbsentStaysAbsent == Bump(t, Default(t)) = Bump(t, Default(t)) /\ \A x \in RangeOf(Ev) : x[5] = 0 => x[2] # <<>>
EmitTypes == ndJsonSerialize(OUTFILE, SetToSeq({[t |-> x] : x \in Types}))
=============================================================================
