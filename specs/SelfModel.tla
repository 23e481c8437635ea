----------------------------- MODULE SelfModel -----------------------------
(* Several byte copies of one container, each used on its own.  A copy is   *)
(* taken at any moment, from any copy, over any copy.  Every copy is at all *)
(* times the value its own history of calls gives it.                       *)
EXTENDS SelfOps
CONSTANTS KIND, CAP, COPIES, DEPTH
VARIABLES val, hist
Empty == IF Family(KIND) = "earr" THEN Rep(CAP, 0) ELSE <<>>
Init == val = [i \in 1..COPIES |-> Empty] /\ hist = [i \in 1..COPIES |-> <<>>]
(* a small alphabet with both directions: enough to make copies diverge *)
Names == CASE Family(KIND) = "seq" -> {"push_back_c", "push_c", "pop_back", "pop_front", "pop", "push_front_c"}
           [] Family(KIND) = "assoc" -> {"te_d", "sins_m", "erase_k"}
           [] Family(KIND) = "str" -> {"push_back", "pop_back"}
           [] OTHER -> {"set_idx", "at_set", "idx_set", "set_it"}
Ops(s) == UNION {Fill(sg, <<sg[1]>>, NVal(KIND, CAP), CAP, Len(s)) : sg \in {x \in Sigs(KIND) : x[1] \in Names}}
Call(i) == /\ Len(hist[i]) < DEPTH
           /\ \E op \in Ops(val[i]) : \E o \in Outs(KIND, CAP, val[i], op) :
              o[1] = "ok" /\ val' = [val EXCEPT ![i] = o[3]] /\ hist' = [hist EXCEPT ![i] = Append(@, op)]
ByteCopy(i, j) == i # j /\ val' = [val EXCEPT ![j] = val[i]] /\ hist' = [hist EXCEPT ![j] = hist[i]]
Next == \E i \in 1..COPIES : Call(i) \/ \E j \in 1..COPIES : ByteCopy(i, j)
RECURSIVE Replay(_, _)
Replay(S0, h) == IF h = <<>> THEN S0 ELSE Replay(UNION {{o[3] : o \in {x \in Outs(KIND, CAP, s, h[1]) : x[1] = "ok"}} : s \in S0}, Tail(h))
OwnHistory == \A i \in 1..COPIES : val[i] \in Replay({Empty}, hist[i])
SameHistory == ~(Family(KIND) = "assoc" /\ A!Hashed(KIND)) => \A i, j \in 1..COPIES : hist[i] = hist[j] => val[i] = val[j]
Moves == \E i \in 1..COPIES : val[i] # Empty     \* used negated, to see that the alphabet is not empty
=============================================================================
