---------------------------- MODULE SharedGraphs ----------------------------
(* A01, A05: every way of sharing.  A program is a graph of exactly Ops      *)
(* operations over the leaf a, each doubling one or adding two earlier       *)
(* results, all of them used.  Doubling and adding make the gradient of the  *)
(* leaf the weighted number of paths to it: a consumer visited too early,    *)
(* twice or never shows.  Programs of five operations are needed before an   *)
(* operand used twice by one consumer can overtake a longer way to it.       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, Json, TLC
CONSTANTS Ops
VARIABLES g, done
vars == <<g, done>>
Names == <<"t1", "t2", "t3", "t4", "t5", "t6", "t7", "t8">>
Name(i) == IF i = 0 THEN "a" ELSE Names[i]
Unused == {i \in 0..Len(g) : \A k \in 1..Len(g) : i \notin ToSet(g[k])}
Init == g = <<>> /\ done = FALSE
\* an operation uses up at most two results and adds one
Grow == /\ Len(g) < Ops
        /\ \E o \in {<<x>> : x \in 0..Len(g)} \cup ((0..Len(g)) \X (0..Len(g))) :
             /\ Cardinality(Unused \ ToSet(o)) <= Ops - Len(g) - 1
             /\ g' = Append(g, o)
        /\ UNCHANGED done
Finish == Len(g) = Ops /\ ~done /\ done' = TRUE /\ UNCHANGED g
Next == Grow \/ Finish
Spec == Init /\ [][Next]_vars
\* weights of the paths from the result of operation n to the leaf (the definition), and values
RECURSIVE W(_)
W(n) == IF n = 0 THEN 1 ELSE IF Len(g[n]) = 1 THEN 2 * W(g[n][1]) ELSE W(g[n][1]) + W(g[n][2])
Leaf == 3
Scalar(v) == [s |-> <<1>>, d |-> <<v>>]
See(n) == [t |-> Scalar(Leaf * W(n)), rg |-> TRUE, leaf |-> n = 0]
Grad(v) == [a |-> [def |-> TRUE, recv |-> TRUE, t |-> Scalar(v)]]
OpEntry(n) == [k |-> "op", op |-> IF Len(g[n]) = 1 THEN "mulS" ELSE "add", out |-> Names[n], ins |-> [j \in 1..Len(g[n]) |-> Name(g[n][j])],
               il |-> <<>>, fl |-> IF Len(g[n]) = 1 THEN <<2>> ELSE <<>>, th |-> FALSE, see |-> See(n)]
Steps == [n \in 1..Ops |-> OpEntry(n)] \o
         <<[k |-> "hook", out |-> "a", lab |-> 1],
           [k |-> "backward", out |-> Names[Ops], g |-> Scalar(5), dflt |-> FALSE, fired |-> [a |-> <<1>>], grads |-> Grad(5 * W(Ops))]>>
AllUsed == done => Unused = {Ops}
Emit == done => PrintT(ToJson([steps |-> Steps, final |-> [a |-> See(0)], init |-> [a |-> Scalar(Leaf)]]))
=============================================================================
