------------------------------ MODULE ReflOps ------------------------------
(* Reflection and struct views.                                              *)
(* A type is a tree                                                          *)
(*    [k |-> leaf kind]                  a primitive, enum or string_view    *)
(*    [k |-> "opt", c |-> type]          std::optional                       *)
(*    [k |-> "arr", n |-> n, c |-> type] std::array of n                     *)
(*    [k |-> "vec", n |-> n, c |-> type] FixedVector of capacity n           *)
(*    [k |-> "str", f |-> << [n |-> field name, t |-> type], ... >>]         *)
(* and a value of it a tree of the same shape: an integer at a leaf, a       *)
(* sequence of length 0 or 1 for an optional, the elements of an array or    *)
(* vector, the fields of a struct.                                           *)
EXTENDS Common
Inner == {"opt", "arr", "vec", "str"}
Leaf(t) == t.k \notin Inner
Numeric == {"i1", "i2", "i4", "i8", "u1", "u4", "f4", "f8", "dur"}
Dead == -9          \* what is observed at a place where no object lives
OPT == "value()"
ITER == "data[:]"

RECURSIVE Default(_)
Default(t) == CASE Leaf(t) -> 0
                [] t.k \in {"opt", "vec"} -> <<>>
                [] t.k = "arr" -> Rep(t.n, Default(t.c))
                [] t.k = "str" -> [i \in 1..Len(t.f) |-> Default(t.f[i].t)]
Look(t, v) == CASE Leaf(t) -> v [] t.k = "str" -> Len(v) [] OTHER -> Len(v)

(* ---- the depth-first visit: "+" on the way down, "-" on the way up; of an iterable   *)
(*      only the first element is visited; what is absent is shown default constructed *)
(*      and is absent again afterwards.  Each visit is to the very object (live = 1).   *)
RECURSIVE Events(_, _, _, _)
Events(t, v, live, p) ==
    LET here(sg) == << <<sg, p, t.k, Look(t, v), live>> >>
        sub == CASE Leaf(t) -> <<>>
                 [] t.k = "opt" -> Events(t.c, IF v = <<>> THEN Default(t.c) ELSE v[1], IF v = <<>> THEN 0 ELSE live, Append(p, OPT))
                 [] t.k \in {"arr", "vec"} -> Events(t.c, IF v = <<>> THEN Default(t.c) ELSE v[1], IF v = <<>> THEN 0 ELSE live, Append(p, ITER))
                 [] t.k = "str" -> Concat([i \in 1..Len(t.f) |-> Events(t.f[i].t, v[i], live, Append(p, t.f[i].n))])
    IN here("+") \o sub \o here("-")
(* what a visitor that adds one to every number it is shown leaves behind *)
RECURSIVE Bump(_, _)
Bump(t, v) == CASE Leaf(t) -> IF t.k \in Numeric THEN v + 1 ELSE v
                [] t.k = "str" -> [i \in 1..Len(t.f) |-> Bump(t.f[i].t, v[i])]
                [] OTHER -> IF v = <<>> THEN v ELSE [v EXCEPT ![1] = Bump(t.c, @)]

(* ---- the struct view: one entry per path that is not a plain struct *)
Label(t) == CASE t.k = "opt" -> "OPTIONAL" [] t.k = "arr" -> "ITERABLE" [] t.k = "vec" -> "RESIZABLE_ITERABLE"
              [] t.k = "enum" -> "ENUM_AS_PRIMITIVE" [] t.k = "sv" -> "STRING_VIEW_AS_PRIMITIVE" [] OTHER -> "AS_PRIMITIVE"
RECURSIVE Entries(_, _, _)
Entries(t, p, caps) ==
    (IF t.k = "str" THEN {} ELSE {<<p, Label(t), caps>>}) \cup
    CASE Leaf(t) -> {}
      [] t.k = "opt" -> Entries(t.c, Append(p, OPT), caps)
      [] t.k \in {"arr", "vec"} -> Entries(t.c, Append(p, ITER), Append(caps, t.n))
      [] t.k = "str" -> UNION {Entries(t.f[i].t, Append(p, t.f[i].n), caps) : i \in 1..Len(t.f)}
(* ... leading to every place of the object: <<path, indices, what lives there>> *)
RECURSIVE Cells(_, _, _, _, _)
Cells(t, v, live, p, ix) ==
    (IF t.k = "str" THEN {} ELSE {<<p, ix, IF live THEN Look(t, v) ELSE Dead>>}) \cup
    CASE Leaf(t) -> {}
      [] t.k = "opt" -> LET l == live /\ v # <<>> IN Cells(t.c, IF l THEN v[1] ELSE <<>>, l, Append(p, OPT), ix)
      [] t.k \in {"arr", "vec"} -> UNION {LET l == live /\ i < Len(v) IN Cells(t.c, IF l THEN v[i + 1] ELSE <<>>, l, Append(p, ITER), Append(ix, i)) : i \in 0..(t.n - 1)}
      [] t.k = "str" -> UNION {Cells(t.f[i].t, IF live THEN v[i] ELSE <<>>, live, Append(p, t.f[i].n), ix) : i \in 1..Len(t.f)}

(* ---- a sub struct view shows, field by field, what the super struct holds *)
FieldNo(t, name) == CHOOSE i \in 1..Len(t.f) : t.f[i].n = name
RECURSIVE Shown(_, _, _)
Shown(sub, t, v) ==
    CASE Leaf(sub) -> v
      [] sub.k = "opt" -> IF v = <<>> THEN <<>> ELSE <<Shown(sub.c, t.c, v[1])>>
      [] sub.k = "vec" -> [i \in 1..Len(v) |-> Shown(sub.c, t.c, v[i])]
      [] sub.k = "arr" -> [i \in 1..sub.n |-> Shown(sub.c, t.c, v[i])]
      [] sub.k = "str" -> [i \in 1..Len(sub.f) |-> LET j == FieldNo(t, sub.f[i].n) IN Shown(sub.f[i].t, t.f[j].t, v[j])]
(* all numbers moved on by one: a view keeps showing the object it was made of *)
RECURSIVE BumpAll(_, _)
BumpAll(t, v) == CASE Leaf(t) -> IF t.k \in Numeric THEN v + 1 ELSE v
                   [] t.k = "str" -> [i \in 1..Len(t.f) |-> BumpAll(t.f[i].t, v[i])]
                   [] OTHER -> [i \in 1..Len(v) |-> BumpAll(t.c, v[i])]
(* can sub be shown from t at all: every path of sub leads somewhere of the same kind in t *)
RECURSIVE Fits(_, _)
Fits(sub, t) == CASE Leaf(sub) -> t.k = sub.k
                  [] sub.k = "str" -> t.k = "str" /\ \A i \in 1..Len(sub.f) : \E j \in 1..Len(t.f) : t.f[j].n = sub.f[i].n /\ Fits(sub.f[i].t, t.f[j].t)
                  [] OTHER -> t.k = sub.k /\ Fits(sub.c, t.c)

RECURSIVE Join(_)
Join(c) == IF c = <<>> THEN "" ELSE IF Len(c) = 1 THEN c[1] ELSE c[1] \o "." \o Join(Tail(c))
MaxPath == 16

RangeOf(s) == {s[i] : i \in 1..Len(s)}
(* e: one recorded observation *)
ReflAllowed(e) ==
    CASE e.q = "dfs" -> e.k = "ok" /\ e.r = Events(e.t, e.v, 1, <<>>) /\ e.n = e.v
      [] e.q = "dfs_write" -> e.k = "ok" /\ e.n = Bump(e.t, e.v)
      [] e.q = "count" -> e.k = "ok" /\ e.r = <<Len(Events(e.t, e.v, 1, <<>>)) \div 2, Cardinality({x[2] : x \in RangeOf(Events(e.t, e.v, 1, <<>>))})>>
      [] e.q = "view" -> e.k = "ok" /\ RangeOf(e.r) = Entries(e.t, <<>>, <<>>) /\ Len(e.r) = Cardinality(Entries(e.t, <<>>, <<>>))
      [] e.q = "cells" -> e.k = "ok" /\ LET c == Cells(e.t, e.v, TRUE, <<>>, <<>>) IN RangeOf(e.r) = c /\ Len(e.r) = Cardinality(c) /\ e.n = e.v
      [] e.q = "add" ->        \* building a view path by path: r = <<was it added, is it there>>, o = the path asked for
           e.k = "ok" /\ LET here == \E x \in Entries(e.t, <<>>, <<>>) : x[1] = e.o IN e.r = <<B01(here), B01(here)>>
      [] e.q = "sub" ->        \* u: the sub type, r: it after viewing v, then after every number in the super struct went up by one
           IF Fits(e.u, e.t) THEN e.k = "ok" /\ e.r = <<Shown(e.u, e.t, e.v), Shown(e.u, e.t, BumpAll(e.t, e.v))>> /\ e.n = BumpAll(e.t, e.v)
           ELSE e.k = "abort"
      [] e.q = "resub" ->      \* the same sub struct used again for another value w
           e.k = "ok" /\ e.r = <<Shown(e.u, e.t, e.v), Shown(e.u, e.t, e.w)>>
      [] e.q = "range" ->      \* v: the values of the super structs; r: size, by at(), by iteration, backwards
           e.k = "ok" /\ LET s == [i \in 1..Len(e.v) |-> Shown(e.u, e.t, e.v[i])] IN e.r = <<Len(s), s, s, Rev(s)>>
      [] e.q = "range_at" -> e.k = (IF e.o < Len(e.v) THEN "ok" ELSE "abort")
      [] e.q = "fields" ->     \* a struct of n fields: names by number, values seen, values after adding 1000 through the visit
           e.k = "ok" /\ LET up == [i \in 1..e.o |-> i - 1] IN e.r = <<e.o, up, up, up, [i \in 1..e.o |-> i + 999]>>
      [] e.q = "unpack" -> e.k = "ok" /\ e.r = <<[i \in 1..e.o |-> i - 1], [i \in 1..e.o |-> i + 999]>>
      [] e.q = "path" ->       \* o: components; r: <<as one string, the same through out, the components of that string again>>
           IF e.k # "ok" THEN FALSE
           ELSE e.r[1] = Join(e.o) /\ e.r[2] = e.r[1] /\ (e.o = <<>> \/ e.o[Len(e.o)] # "" => e.r[3] = e.o)
      [] e.q = "path_long" -> e.k = IF e.o <= MaxPath THEN "ok" ELSE "abort"
=============================================================================
