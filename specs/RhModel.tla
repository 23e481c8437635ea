------------------------------ MODULE RhModel ------------------------------
(* The robin-hood bucket table behind the unordered containers: every       *)
(* bucket holds (distance from home, fingerprint, key); insertion takes the *)
(* place of the first entry that is closer to its home and shifts the rest  *)
(* up, erasure shifts the following entries down.  Checked for EVERY hash   *)
(* function from keys to (home bucket, fingerprint).                        *)
EXTENDS CostOps
CONSTANTS NKEYS, BUCKETS, CAP, FPS
Keys == 1..NKEYS
Loc == 0..(BUCKETS - 1)
Empty == [d |-> 0, f |-> 0, k |-> 0]
VARIABLES home, fp, tab, live
vars == <<home, fp, tab, live>>
Nxt(i) == (i + 1) % BUCKETS
(* (distance, fingerprint) compared as one number, as in the code *)
Df(d, f) == d * FPS + f
DfB(b) == IF b.d = 0 THEN 0 ELSE Df(b.d, b.f)
(* <<bucket, distance where the search stopped (0: found), equality evaluations, steps>> *)
RECURSIVE Probe(_, _, _, _, _)
Probe(k, i, d, eqs, steps) ==
    IF steps > BUCKETS + 1 THEN <<i, d, eqs, steps>>
    ELSE LET b == tab[i]
             same == DfB(b) = Df(d, fp[k])
         IN IF same /\ b.k = k THEN <<i, 0, eqs + 1, steps>>
            ELSE LET e == IF same THEN eqs + 1 ELSE eqs
                 IN IF Df(d, fp[k]) > DfB(b) THEN <<i, d, e, steps>> ELSE Probe(k, Nxt(i), d + 1, e, steps + 1)
Find(k) == Probe(k, home[k], 1, 0, 1)
RECURSIVE Shift(_, _, _)
Shift(t, b, i) == IF t[i].d = 0 THEN [t EXCEPT ![i] = b] ELSE Shift([t EXCEPT ![i] = b], [t[i] EXCEPT !.d = @ + 1], Nxt(i))
RECURSIVE Down(_, _)
Down(t, i) == LET j == Nxt(i) IN IF t[j].d >= 2 THEN Down([t EXCEPT ![i] = [t[j] EXCEPT !.d = @ - 1]], j) ELSE [t EXCEPT ![i] = Empty]
Init == /\ home \in [Keys -> Loc] /\ fp \in [Keys -> 0..(FPS - 1)]
        /\ tab = [i \in Loc |-> Empty] /\ live = {}
Insert(k) == LET r == Find(k) IN
             /\ k \notin live /\ Cardinality(live) < CAP
             /\ tab' = Shift(tab, [d |-> r[2], f |-> fp[k], k |-> k], r[1])
             /\ live' = live \cup {k}
Erase(k) == LET r == Find(k) IN
            /\ k \in live
            /\ tab' = Down(tab, r[1])
            /\ live' = live \ {k}
Next == (\E k \in Keys : Insert(k) \/ Erase(k)) /\ UNCHANGED <<home, fp>>
LookupRight == \A k \in Keys : (Find(k)[2] = 0) = (k \in live)
Terminates == \A k \in Keys : Find(k)[4] <= BUCKETS + 1
Holds == {tab[i].k : i \in Loc} \ {0} = live /\ Cardinality({i \in Loc : tab[i].d > 0}) = Cardinality(live)
Distances == \A i \in Loc : tab[i].d > 0 => (home[tab[i].k] + tab[i].d - 1) % BUCKETS = i /\ tab[i].f = fp[tab[i].k]
RobinHood == \A i \in Loc : tab[Nxt(i)].d >= 2 => tab[i].d > 0 /\ tab[Nxt(i)].d <= tab[i].d + 1
Alike(k) == Cardinality({x \in live : home[x] = home[k] /\ fp[x] = fp[k]})
FewEqualities == \A k \in Keys : Find(k)[3] <= Alike(k) /\ Find(k)[3] <= MaxCmp("umap", "find", Cardinality(live), Alike(k))
=============================================================================
