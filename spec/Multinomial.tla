---------------------------- MODULE Multinomial ----------------------------
(* V05: drawing categories.  The state is the weights still in the urn and   *)
(* the categories drawn so far; each step may draw any category of positive  *)
(* remaining weight.  The terminal states are exactly the admissible answers.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Weights, MaxK
VARIABLES w0, w, repl, k, drawn
vars == <<w0, w, repl, k, drawn>>
Pos(u) == {i \in 1..Len(u) : u[i] > 0}
Init == /\ w0 \in Weights /\ w = w0 /\ repl \in BOOLEAN /\ k \in 1..MaxK /\ drawn = <<>>
        /\ Pos(w0) # {} /\ (repl \/ k <= Cardinality(Pos(w0)))
Draw(i) == /\ Len(drawn) < k /\ w[i] > 0 /\ drawn' = Append(drawn, i - 1)
           /\ w' = IF repl THEN w ELSE [w EXCEPT ![i] = 0]
           /\ UNCHANGED <<w0, repl, k>>
Next == \E i \in 1..Len(w0) : Draw(i)
Spec == Init /\ [][Next]_vars
OnlyPositive == \A j \in 1..Len(drawn) : w0[drawn[j] + 1] > 0
NoRepeat == repl \/ \A i, j \in 1..Len(drawn) : i # j => drawn[i] # drawn[j]
NeverStuck == Len(drawn) < k => \E i \in 1..Len(w0) : w[i] > 0
Emit == Len(drawn) = k => PrintT(ToJson([w |-> w0, repl |-> repl, k |-> k, drawn |-> drawn]))
=============================================================================
