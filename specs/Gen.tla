-------------------------------- MODULE Gen --------------------------------
(* Behaviours of the specifications as histories of calls, for replay in    *)
(* the real code (run with -simulate).  Only calls that are answered        *)
(* normally are taken.  The order of a hashed container is not determined,  *)
(* so a call whose effect depends on a position ends the history there.     *)
EXTENDS Common, Json
CONSTANTS FAMILY, KIND, CAP, DEPTH, SKIP
S == INSTANCE SeqOps WITH NV <- 3
A == INSTANCE AssocOps
T == INSTANCE StrOps
E == INSTANCE EArrOps
Sigs == CASE FAMILY = "seq" -> S!Sigs(KIND) [] FAMILY = "assoc" -> A!Sigs(KIND) [] FAMILY = "str" -> T!Sigs(KIND) [] OTHER -> E!Sigs(KIND)
(* a hashed container holds what an ordered one would; which order it shows matters only to positional calls *)
OrderedKind == CASE KIND = "umap_eq" -> "map_lt" [] KIND = "umap_hf" -> "map_hf" [] KIND = "uset_eq" -> "set_lt" [] KIND = "uset_hf" -> "set_hf" [] OTHER -> KIND
Outs(s, op) == CASE FAMILY = "seq" -> S!Outs(KIND, CAP, s, op) [] FAMILY = "assoc" -> A!Outs(OrderedKind, CAP, s, op)
                 [] FAMILY = "str" -> T!Outs(KIND, CAP, s, op) [] OTHER -> E!Outs(KIND, CAP, s, op)
NVal == CASE FAMILY = "assoc" -> A!NKey(KIND, CAP) [] FAMILY = "earr" -> CAP [] OTHER -> 3
Positional == {"erase_it", "erase_cit", "erase_rng", "erase_ka", "ioa_a", "set_it"}
Ends(op) == FAMILY = "assoc" /\ A!Hashed(KIND) /\ op[1] \in Positional
VARIABLES s, hist, pick, done, out
Init == /\ s = IF FAMILY = "earr" THEN Rep(CAP, 0) ELSE <<>>
        /\ hist = <<>> /\ pick = <<>> /\ done = FALSE /\ out = FALSE
Choose == /\ pick = <<>> /\ ~done
          /\ \E sg \in Sigs : sg[1] \notin SKIP /\ pick' = sg
          /\ UNCHANGED <<s, hist, done, out>>
Good(op) == \E o \in Outs(s, op) : o[1] = "ok"
Perform == /\ pick # <<>> /\ pick' = <<>> /\ UNCHANGED out
           /\ LET ops == {op \in Fill(pick, <<pick[1]>>, NVal, CAP, Len(s)) : Good(op)} IN
              IF ops = {} THEN UNCHANGED <<s, hist, done>>
              ELSE \E op \in ops : \E o \in Outs(s, op) :
                     /\ o[1] = "ok" /\ s' = o[3] /\ hist' = Append(hist, op)
                     /\ done' = (Ends(op) \/ Len(hist) + 1 >= DEPTH)
Finish == done /\ ~out /\ out' = TRUE /\ UNCHANGED <<s, hist, pick, done>>
Next == Choose \/ Perform \/ Finish
Emit == out => PrintT(<<"HIST", ToJson(hist)>>)
=============================================================================
