------------------------------- MODULE LifeOps ------------------------------
(* Object lifetimes.  A location is a place where an element object may     *)
(* live: 0..EXT-1 are bytes offsets inside the container under observation, *)
(* EXT and above are places outside it (arguments, temporaries, other       *)
(* containers).  Special member functions of the element type are events:   *)
(*   <<0, x>>    construct at x          <<1, x, y>> copy construct x from y *)
(*   <<2, x, y>> move construct x from y <<3, x, y>> copy assign  x from y   *)
(*   <<4, x, y>> move assign  x from y   <<5, x>>    destroy x               *)
(*   <<6, x>>    read x (value, comparison, hash)                            *)
(* st = <<live, moved>>: which locations hold an object, and which of those  *)
(* hold a moved-from value.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
EXT == 1000000

Legal(st, e) ==
  LET live == st[1] IN
  CASE e[1] = 0 -> e[2] \notin live                                  \* never constructed over a live one
    [] e[1] \in {1, 2} -> e[2] \notin live /\ e[3] \in live
    [] e[1] \in {3, 4} -> e[2] \in live /\ e[3] \in live             \* assigned only within its lifetime
    [] e[1] = 5 -> e[2] \in live                                     \* destroyed exactly once
    [] e[1] = 6 -> e[2] \in live
After(st, e) ==
  LET live == st[1]
      mv == st[2]
      Inherit(x, y, m) == IF y \in m THEN m \cup {x} ELSE m \ {x}
  IN
  CASE e[1] = 0 -> <<live \cup {e[2]}, mv \ {e[2]}>>
    [] e[1] = 1 -> <<live \cup {e[2]}, Inherit(e[2], e[3], mv)>>
    [] e[1] = 2 -> <<live \cup {e[2]}, Inherit(e[2], e[3], mv) \cup {e[3]}>>
    [] e[1] = 3 -> <<live, Inherit(e[2], e[3], mv)>>
    [] e[1] = 4 -> IF e[2] = e[3] THEN st ELSE <<live, Inherit(e[2], e[3], mv) \cup {e[3]}>>
    [] e[1] = 5 -> <<live \ {e[2]}, mv \ {e[2]}>>
    [] e[1] = 6 -> st
(* index of the first illegal event, 0 when there is none; and the final state *)
RECURSIVE Fold(_, _, _)
Fold(st, ev, i) == IF i > Len(ev) THEN <<0, st>>
                   ELSE IF ~Legal(st, ev[i]) THEN <<i, st>>
                   ELSE Fold(After(st, ev[i]), ev, i + 1)
Inside(S) == {x \in S : x < EXT}
(* at rest: as many objects as the container reports elements (w objects per element), none moved-from, nothing left behind outside *)
AtRest(st, w, size) == /\ Cardinality(Inside(st[1])) = w * size
                       /\ Inside(st[2]) = {}
                       /\ st[1] = Inside(st[1])
CallOk(before, ev, w, size) ==
  LET f == Fold(<<before, {}>>, ev, 1) IN f[1] = 0 /\ AtRest(f[2], w, size)
=============================================================================
