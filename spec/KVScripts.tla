------------------------------ MODULE KVScripts ------------------------------
(* What the clients of a key-value store are made to do.  "sample": each client gets a random list of calls; *)
(* "orders": one client waits while another issues every sequence of calls of the given length, one call per  *)
(* time slot; the wait starts in any slot.                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Workers, Keys, Ops, Length, Kind
VARIABLES prog, n
vars == <<prog, n>>
W == 1 .. Workers
K == 1 .. Keys
KeySets == (SUBSET K) \ {{}}
SetToSeq(S) == CHOOSE q \in [1 .. Cardinality(S) -> S] : \A a, b \in DOMAIN q : a < b => q[a] < q[b]
RandomOp(z) == LET o == RandomElement(Ops) IN
    CASE o \in {"chk", "wait"} -> [op |-> o, ks |-> SetToSeq(RandomElement(KeySets)), v |-> 0]
      [] o = "num"  -> [op |-> o, ks |-> << >>, v |-> 0]
      [] o \in {"add"} -> [op |-> o, ks |-> <<RandomElement(K)>>, v |-> RandomElement(1 .. 9)]
      [] OTHER -> [op |-> o, ks |-> <<RandomElement(K)>>, v |-> RandomElement(0 .. 5)]
Steps == {[op |-> o, ks |-> <<k>>, v |-> IF o = "add" THEN 3 ELSE 1] : o \in Ops, k \in K}

Init == n = 0 /\ prog = IF Kind = "sample" THEN [w \in W |-> << >>]
                        ELSE [w \in W |-> << >>]
Sample == \E w \in {RandomElement({x \in W : Len(prog[x]) < Length})} :
             prog' = [prog EXCEPT ![w] = Append(@, RandomOp(n))]
\* worker 1 issues the calls; worker 2's only call is the wait, placed in slot v
Wait == prog[2] = << >> /\ \E ks \in KeySets, slot \in 0 .. Length, o \in {"wait", "get"} :
             /\ o = "get" => Cardinality(ks) = 1
             /\ prog' = [prog EXCEPT ![2] = <<[op |-> o, ks |-> SetToSeq(ks), v |-> slot]>>]
Order == \E x \in Steps : Len(prog[1]) < Length /\ prog' = [prog EXCEPT ![1] = Append(@, x)]
Next == IF Kind = "sample" THEN n < Workers * Length /\ n' = n + 1 /\ Sample
        ELSE n' = n + 1 /\ IF n = 0 THEN Wait ELSE Order
Full == IF Kind = "sample" THEN n = Workers * Length ELSE prog[2] # << >> /\ Len(prog[1]) = Length
Emit == Full => PrintT(ToJson([p |-> prog]))
Spec == Init /\ [][Next]_vars
=============================================================================
