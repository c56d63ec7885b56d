------------------------------- MODULE Reducer -------------------------------
(* Data-parallel gradient reduction.  Every rank's gradients become ready in an order of its own; a bucket whose   *)
(* gradients are all there may be reduced; the k-th collective of every rank meets the k-th of the others, and is  *)
(* over for a rank when all have issued it.  InOrder: a rank issues its buckets by index (otherwise: as they fill).*)
EXTENDS Integers, Sequences, FiniteSets
CONSTANTS World, Params, Bucket, Passes, InOrder
\* Bucket: a sequence of the bucket (1..NB) of every parameter
VARIABLES ready, issued, got, pass, waited
vars == <<ready, issued, got, pass, waited>>
R == 1 .. World
P == 1 .. Params
NB == Bucket[Params]
Of(b) == {p \in P : Bucket[p] = b}
Base(r) == (pass[r] - 1) * NB
Mine(r) == {issued[r][k][1] : k \in Base(r) + 1 .. Len(issued[r])}
Init == /\ ready = [r \in R |-> {}] /\ issued = [r \in R |-> << >>] /\ got = [r \in R |-> << >>]
        /\ pass = [r \in R |-> 1] /\ waited = [r \in R |-> FALSE]
\* the buckets rank r issues once rd is ready
RECURSIVE More(_, _, _)
More(rd, have, b) == IF b > NB THEN << >>
                     ELSE IF b \in have \/ ~(Of(b) \subseteq rd)
                          THEN (IF InOrder /\ b \notin have THEN << >> ELSE More(rd, have, b + 1))
                          ELSE <<b>> \o More(rd, have, b + 1)
Tag(s, q) == [k \in 1 .. Len(s) |-> <<s[k], q>>]
Ready(r, p) == /\ pass[r] <= Passes /\ p \notin ready[r]
               /\ ready' = [ready EXCEPT ![r] = @ \cup {p}]
               /\ issued' = [issued EXCEPT ![r] = @ \o Tag(More(ready[r] \cup {p}, Mine(r), 1), pass[r])]
               /\ UNCHANGED <<got, pass, waited>>
Met(k) == \A r \in R : Len(issued[r]) >= k
\* the rank has issued everything and every collective has met: what it got are the contributions in it
Finish(r) == /\ pass[r] <= Passes /\ Len(issued[r]) = Base(r) + NB /\ Met(Len(issued[r]))
             /\ got' = [got EXCEPT ![r] = @ \o [k \in 1 .. NB |-> [s \in R |-> issued[s][Base(r) + k]]]]
             /\ pass' = [pass EXCEPT ![r] = @ + 1] /\ ready' = [ready EXCEPT ![r] = {}]
             /\ UNCHANGED <<issued, waited>>
Next == (\E r \in R, p \in P : Ready(r, p)) \/ (\E r \in R : Finish(r))
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Compatible == \A r, s \in R : \A k \in 1 .. Len(issued[r]) : k <= Len(issued[s]) => issued[r][k] = issued[s][k]
OnceEach == \A r \in R : \A j, k \in 1 .. Len(issued[r]) : issued[r][j] = issued[r][k] => j = k
\* every rank's result for a bucket of a pass is made of all ranks' gradients for that bucket of that pass
Averages == \A r \in R : \A k \in 1 .. Len(got[r]) : \A s \in R : got[r][k][s] = issued[r][k]
AllDone == <>(\A r \in R : pass[r] = Passes + 1)
=============================================================================
