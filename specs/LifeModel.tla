----------------------------- MODULE LifeModel ------------------------------
(* Design-level check: the way an array-like container shifts elements to    *)
(* insert and erase, written as lifetime events one at a time, respects the  *)
(* rules of LifeOps at every intermediate point, for every size and position *)
(* (OFF > 0 rotates the slots, as in the ring of a deque).                   *)
EXTENDS LifeOps
CONSTANTS CAP, OFF
VARIABLES st, size, todo, goal      \* todo: remaining events of the current call; goal: size it must end with
vars == <<st, size, todo, goal>>
Slot(i) == (i + OFF) % CAP
Arg == EXT
(* insert one element at position p of a container of n elements *)
InsertEvents(n, p) ==
  IF p = n THEN <<<<0, Arg>>, <<2, Slot(n), Arg>>, <<5, Arg>>>>
  ELSE <<<<0, Arg>>, <<2, Slot(n), Slot(n - 1)>>>>
       \o [i \in 1..(n - 1 - p) |-> <<4, Slot(n - i), Slot(n - i - 1)>>]
       \o <<<<4, Slot(p), Arg>>, <<5, Arg>>>>
(* erase [p, q) *)
EraseEvents(n, p, q) ==
  (IF p = q THEN <<>> ELSE [i \in 1..(n - q) |-> <<4, Slot(p + i - 1), Slot(q + i - 1)>>])
  \o [i \in 1..(q - p) |-> <<5, Slot(n - (q - p) + i - 1)>>]
CopyEvents(n) == [i \in 1..n |-> <<1, EXT + i, Slot(i - 1)>>] \o [i \in 1..n |-> <<5, EXT + i>>]
Init == st = <<{}, {}>> /\ size = 0 /\ todo = <<>> /\ goal = 0
Begin == /\ todo = <<>>
         /\ \/ \E p \in 0..size : size < CAP /\ todo' = InsertEvents(size, p) /\ goal' = size + 1
            \/ \E p, q \in 0..size : p <= q /\ todo' = EraseEvents(size, p, q) /\ goal' = size - (q - p)
            \/ todo' = CopyEvents(size) /\ goal' = size
         /\ UNCHANGED <<st, size>>
Step == /\ todo # <<>>
        /\ st' = After(st, Head(todo))
        /\ todo' = Tail(todo)
        /\ size' = IF Len(todo) = 1 THEN goal ELSE size
        /\ UNCHANGED goal
Next == Begin \/ Step
EveryEventLegal == todo # <<>> => Legal(st, Head(todo))
Quiescent == todo = <<>> /\ size = goal => AtRest(st, 1, size)
MovedIsLive == st[2] \subseteq st[1]
=============================================================================
