------------------------------ MODULE RefCount ------------------------------
(* A06, the design: values hold references to the values they were derived    *)
(* from; a value whose last reference goes is released and gives up its own   *)
(* references, one at a time.  With references only to earlier values this    *)
(* releases exactly what no handle reaches.  Hazard = TRUE adds the mistake   *)
(* of a value keeping a later one (its own result), which is never released.  *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS NVal, NHandle, Hazard
VARIABLES keeps, alive, handle, made
vars == <<keeps, alive, handle, made>>
Vals == 1..NVal
RC(n) == Cardinality({h \in 1..NHandle : handle[h] = n}) + Cardinality({m \in alive : n \in keeps[m]})
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {keeps[n] : n \in S} IN IF T = S THEN S ELSE Reach(T)
Held == Reach({handle[h] : h \in 1..NHandle} \ {0})
Init == keeps = [n \in Vals |-> {}] /\ alive = {} /\ handle = [h \in 1..NHandle |-> 0] /\ made = 0
Idle == \A n \in alive : RC(n) > 0
Make == /\ Idle /\ made < NVal
        /\ \E h \in 1..NHandle, S \in SUBSET {handle[k] : k \in {q \in 1..NHandle : handle[q] # 0}} :
             /\ made' = made + 1 /\ alive' = alive \cup {made + 1} /\ handle' = [handle EXCEPT ![h] = made + 1]
             /\ keeps' = [n \in Vals |-> IF n = made + 1 THEN S ELSE IF Hazard /\ n \in S THEN keeps[n] \cup {made + 1} ELSE keeps[n]]
Copy == Idle /\ \E a, b \in 1..NHandle : handle[a] # 0 /\ handle' = [handle EXCEPT ![b] = handle[a]] /\ UNCHANGED <<keeps, alive, made>>
DropH == Idle /\ \E a \in 1..NHandle : handle[a] # 0 /\ handle' = [handle EXCEPT ![a] = 0] /\ UNCHANGED <<keeps, alive, made>>
Release == \E n \in alive : RC(n) = 0 /\ alive' = alive \ {n} /\ UNCHANGED <<keeps, handle, made>>
Next == Make \/ Copy \/ DropH \/ Release
Spec == Init /\ [][Next]_vars /\ WF_vars(Release)
KeepsLive == Held \subseteq alive
NoLeak == Idle => alive = Held
=============================================================================
