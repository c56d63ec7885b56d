--------------------------- MODULE AutogradEngine ---------------------------
(* A01, design level: the traversal the library uses (count the consumers of *)
(* every function reachable from the root, then release a function when its  *)
(* last consumer has been processed) against the definition of a gradient    *)
(* (the sum over all paths of the product of local derivatives), for every   *)
(* graph of up to MaxN functions with up to two operands each.               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS MaxN, CountConsumers     \* FALSE: a plain breadth-first traversal, to show that the properties distinguish
VARIABLES g,        \* g[i]: operands of node i (nodes with smaller numbers)
          deps, queue, seen, grad, order, phase
vars == <<g, deps, queue, seen, grad, order, phase>>
Nodes == 1..MaxN
Operands(i) == {<<>>} \cup {<<a>> : a \in 1..(i - 1)} \cup {<<a, b>> : a \in 1..(i - 1), b \in 1..(i - 1)}
\* a derivative per edge; distinct primes make different path sets have different sums
Prime == <<2, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31>>
W(i, k) == Prime[2 * (i - 1) + k - (IF i > 1 THEN 1 ELSE 0)]
RECURSIVE Graphs(_)
Graphs(n) == IF n = 0 THEN {<<>>} ELSE {Append(x, o) : x \in Graphs(n - 1), o \in Operands(n)}
Root == MaxN
RECURSIVE Reach(_)
Reach(S) == LET T == S \cup UNION {ToSet(g[i]) : i \in S} IN IF T = S THEN S ELSE Reach(T)
Used == Reach({Root})
\* the definition
RECURSIVE Paths(_)
Paths(i) == IF i = Root THEN 1
            ELSE FoldSet(LAMBDA c, acc : acc + FoldLeft(LAMBDA x, k : x + IF g[c][k] = i THEN W(c, k) * Paths(c) ELSE 0, 0, [k \in 1..Len(g[c]) |-> k]),
                         0, {c \in Used : c > i})
Init == /\ g \in Graphs(MaxN) /\ deps = [i \in Nodes |-> 0] /\ queue = <<Root>> /\ seen = {Root} /\ grad = [i \in Nodes |-> 0] /\ order = <<>> /\ phase = "count"
Count == /\ phase = "count" /\ queue # <<>>
         /\ LET i == Head(queue) new == SelectSeq(g[i], LAMBDA x : x \notin seen) IN
            /\ deps' = [n \in Nodes |-> deps[n] + Cardinality({k \in 1..Len(g[i]) : g[i][k] = n})]
            /\ queue' = Tail(queue) \o (IF Len(new) = 2 /\ new[1] = new[2] THEN <<new[1]>> ELSE new)
            /\ seen' = seen \cup ToSet(new)
         /\ UNCHANGED <<g, grad, order, phase>>
Switch == phase = "count" /\ queue = <<>> /\ phase' = "run" /\ queue' = <<Root>> /\ grad' = [grad EXCEPT ![Root] = 1] /\ UNCHANGED <<g, deps, seen, order>>
Run == /\ phase = "run" /\ queue # <<>>
       /\ LET i == Head(queue)
              d2 == [n \in Nodes |-> deps[n] - Cardinality({k \in 1..Len(g[i]) : g[i][k] = n})]
              ready == SelectSeq(IF Len(g[i]) = 2 /\ g[i][1] = g[i][2] THEN <<g[i][1]>> ELSE g[i],
                                 LAMBDA x : IF CountConsumers THEN d2[x] = 0 ELSE x \notin ToSet(order) \cup ToSet(queue))
          IN /\ deps' = d2 /\ queue' = Tail(queue) \o ready /\ order' = Append(order, i)
             /\ grad' = [n \in Nodes |-> grad[n] + FoldLeft(LAMBDA x, k : x + IF g[i][k] = n THEN W(i, k) * grad[i] ELSE 0, 0, [k \in 1..Len(g[i]) |-> k])]
       /\ UNCHANGED <<g, seen, phase>>
Next == Count \/ Switch \/ Run
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Finished == phase = "run" /\ queue = <<>>
OnceEach == \A a, b \in 1..Len(order) : a # b => order[a] # order[b]
AfterConsumers == \A n \in 1..Len(order) : \A c \in Used : (order[n] \in ToSet(g[c])) => \E m \in 1..(n - 1) : order[m] = c
AllProcessed == Finished => ToSet(order) = Used
Gradient == Finished => \A i \in Used : grad[i] = Paths(i)
Terminates == <>Finished
=============================================================================
