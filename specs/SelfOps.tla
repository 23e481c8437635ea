------------------------------ MODULE SelfOps ------------------------------
(* Self-contained containers: the value of a container is in its bytes.     *)
(* A byte copy is a second container; a call on either is a step of the     *)
(* ordinary specification, leaves the other alone, answers alike on both,   *)
(* and takes nothing from the heap.  The raw view of the bytes shows the    *)
(* container's value.                                                       *)
EXTENDS Common
S == INSTANCE SeqOps WITH NV <- 3
A == INSTANCE AssocOps
T == INSTANCE StrOps
E == INSTANCE EArrOps
SeqKinds == {"vector", "deque", "list", "cdeque", "stack", "queue", "cqueue"}
Family(t) == CASE t \in SeqKinds -> "seq" [] t \in {"earr", "earn"} -> "earr" [] t = "str" -> "str" [] OTHER -> "assoc"
Sigs(t) == CASE Family(t) = "seq" -> S!Sigs(t) [] Family(t) = "assoc" -> A!Sigs(t) [] Family(t) = "str" -> T!Sigs(t) [] OTHER -> E!Sigs(t)
Outs(t, c, s, op) == CASE Family(t) = "seq" -> S!Outs(t, c, s, op) [] Family(t) = "assoc" -> A!Outs(t, c, s, op)
                       [] Family(t) = "str" -> T!Outs(t, c, s, op) [] OTHER -> E!Outs(t, c, s, op)
Allowed(t, c, s, op, k, r, n) == IF Family(t) = "assoc" THEN A!Allowed(t, c, s, op, k, r, n) ELSE <<k, r, n>> \in Outs(t, c, s, op)
NVal(t, c) == CASE Family(t) = "assoc" -> A!NKey(t, c) [] Family(t) = "earr" -> c [] OTHER -> 3
(* one recorded step: the call on a relocated byte copy of a container of   *)
(* value s (k, r, n), the value w another copy then shows, and the same     *)
(* call on that other copy (k2, r2, n2); v: the raw view after the call     *)
SelfAllowed(e) ==
    /\ Allowed(e.t, e.c, e.s, e.o, e.k, e.r, e.n)
    /\ e.al = 0
    /\ e.w = e.s
    /\ e.k2 = e.k /\ e.r2 = e.r /\ e.n2 = e.n
    /\ e.v = e.n
=============================================================================
