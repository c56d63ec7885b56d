----------------------------- MODULE Lifetimes ------------------------------
(* A06: which values may still occupy memory.  Every value belongs to a class *)
(* (all values of a class have one, distinctive, size).  A value may be kept  *)
(* only by a handle to it or to something derived from it that is itself      *)
(* kept; once no value of a class is kept, no block of that size may be live, *)
(* and once nothing is kept memory is back at the level of the start.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS NClass, NReg, Steps, Unary, Binary, Sampled
VARIABLES node,     \* the values made so far: [g |-> class, rg, leaf, spent, keeps]
          reg,      \* handle -> value (0: none)
          scope,    \* open no-gradient scopes
          log, done
vars == <<node, reg, scope, log, done>>
N == Len(node)
RECURSIVE Closure(_)
Closure(S) == LET T == S \cup UNION {node[n].keeps : n \in S} IN IF T = S THEN S ELSE Closure(T)
Kept == Closure({reg[r] : r \in 1..NReg} \ {0})
FreeClasses(nd, rg) ==
  LET K == LET RECURSIVE C(_) C(S) == LET T == S \cup UNION {nd[n].keeps : n \in S} IN IF T = S THEN S ELSE C(T) IN C({rg[r] : r \in 1..NReg} \ {0})
  IN {g \in 1..NClass : \A n \in K : nd[n].g # g}
Live == {r \in 1..NReg : reg[r] # 0}
On == scope = 0
New(g, rec, keeps) == [g |-> g, rg |-> rec, leaf |-> ~rec, spent |-> FALSE, keeps |-> keeps, hasg |-> FALSE]
Pick(S) == IF Sampled THEN (IF S = {} THEN {} ELSE {RandomElement(S)}) ELSE S
Init == node = <<>> /\ reg = [r \in 1..NReg |-> 0] /\ scope = 0 /\ log = <<>> /\ done = FALSE
Put(e, nd, rg) == /\ node' = nd /\ reg' = rg
                  /\ log' = Append(log, [e EXCEPT !.free = FreeClasses(nd, rg), !.live = {r \in 1..NReg : rg[r] # 0}])
                  /\ UNCHANGED <<scope, done>>
E(a) == [a |-> a, op |-> "", r |-> 0, x |-> 0, y |-> 0, g |-> 0, rg |-> FALSE, free |-> {}, live |-> {}]
AnyReg == 1..NReg
Graph(n) == LET RECURSIVE C(_) C(S) == LET T == S \cup UNION {IF node[m].rg /\ ~node[m].leaf THEN node[m].keeps ELSE {} : m \in S} IN IF T = S THEN S ELSE C(T) IN {m \in C({n}) : node[m].rg}
Leaf == \E r \in Pick(AnyReg), g \in Pick(1..NClass), q \in Pick(BOOLEAN) :
  Put([E("leaf") EXCEPT !.r = r, !.g = g, !.rg = q], Append(node, [New(g, FALSE, {}) EXCEPT !.rg = q]), [reg EXCEPT ![r] = N + 1])
Un == \E op \in Pick(Unary), r \in Pick(AnyReg), x \in Pick(Live) :
  LET n == node[reg[x]] rec == n.rg /\ On
      \* a view keeps the storage of what it views even when nothing is recorded
      keeps == IF rec \/ op \in {"reshape", "flatten", "squeeze"} THEN {reg[x]} ELSE {}
  IN Put([E("un") EXCEPT !.op = op, !.r = r, !.x = x], Append(node, New(n.g, rec, keeps)), [reg EXCEPT ![r] = N + 1])
Pairs == {p \in Live \X Live : node[reg[p[1]]].g = node[reg[p[2]]].g}
Bin == \E op \in Pick(Binary), r \in Pick(AnyReg), p \in Pick(Pairs) :
  LET x == p[1] y == p[2] a == node[reg[x]] b == node[reg[y]] rec == (a.rg \/ b.rg) /\ On
  IN Put([E("bin") EXCEPT !.op = op, !.r = r, !.x = x, !.y = y], Append(node, New(a.g, rec, IF rec THEN {reg[x], reg[y]} ELSE {})), [reg EXCEPT ![r] = N + 1])
\* r = x * sum(y): the classes of x and y may differ
Cross == \E r \in Pick(AnyReg), x \in Pick(Live), y \in Pick(Live) :
  LET a == node[reg[x]] b == node[reg[y]] rec == (a.rg \/ b.rg) /\ On
  IN Put([E("cross") EXCEPT !.r = r, !.x = x, !.y = y], Append(node, New(a.g, rec, (IF rec THEN {reg[x]} ELSE {}) \cup (IF rec /\ b.rg THEN {reg[y]} ELSE {}))), [reg EXCEPT ![r] = N + 1])
Alias == \E r \in Pick(AnyReg), x \in Pick(Live) : Put([E("alias") EXCEPT !.r = r, !.x = x], node, [reg EXCEPT ![r] = reg[x]])
\* x += y: a recorded x goes on as the result, a leaf takes its value only
InPairs == {p \in Pairs : LET a == node[reg[p[1]]] b == node[reg[p[2]]] IN ((a.rg \/ b.rg) /\ On) => a.rg /\ ~a.leaf}
Inplace == \E p \in Pick(InPairs) :
  LET x == p[1] y == p[2] a == node[reg[x]] b == node[reg[y]] rec == (a.rg \/ b.rg) /\ On
  IN Put([E("inplace") EXCEPT !.x = x, !.y = y],
         Append(node, IF rec THEN New(a.g, TRUE, {reg[x], reg[y]}) ELSE [New(a.g, a.rg, a.keeps) EXCEPT !.leaf = a.leaf, !.hasg = a.hasg, !.spent = a.spent]),
         [reg EXCEPT ![x] = N + 1])
Fills == {x \in Live : node[reg[x]].leaf}
Fill == \E x \in Pick(Fills) : Put([E("fill") EXCEPT !.x = x], node, reg)
\* backward from the sum of x; a graph is used once
Backs == {x \in Live : node[reg[x]].rg /\ On /\ \A m \in Graph(reg[x]) : ~node[m].spent}
Backward == \E x \in Pick(Backs) :
  LET G == Graph(reg[x])
  IN Put([E("backward") EXCEPT !.x = x], [m \in 1..N |-> IF m \in G THEN [node[m] EXCEPT !.hasg = node[m].leaf, !.spent = ~node[m].leaf] ELSE node[m]], reg)
HasG == {x \in Live : node[reg[x]].hasg}
TakeGrad == \E r \in Pick(AnyReg), x \in Pick(HasG) : Put([E("grad") EXCEPT !.r = r, !.x = x], Append(node, New(node[reg[x]].g, FALSE, {})), [reg EXCEPT ![r] = N + 1])
ZeroGrad == \E x \in Pick(HasG) : Put([E("zero") EXCEPT !.x = x], node, reg)
\* a clone starts a new leaf with the flag of the original
Clone == \E r \in Pick(AnyReg), x \in Pick(Live) :
  Put([E("clone") EXCEPT !.r = r, !.x = x], Append(node, [New(node[reg[x]].g, FALSE, {}) EXCEPT !.rg = node[reg[x]].rg]), [reg EXCEPT ![r] = N + 1])
Drop == \E x \in Pick(Live) : Put([E("drop") EXCEPT !.x = x], node, [reg EXCEPT ![x] = 0])
Scope == /\ scope' = 1 - scope /\ log' = Append(log, [E(IF scope = 0 THEN "open" ELSE "close") EXCEPT !.free = FreeClasses(node, reg), !.live = Live]) /\ UNCHANGED <<node, reg, done>>
Kinds == <<"leaf", "leaf", "un", "un", "un", "bin", "bin", "bin", "cross", "cross", "alias", "inplace", "fill", "back", "back", "take", "zero", "clone", "drop", "drop", "drop", "drop", "scope">>
Choose(k) == CASE k = "leaf" -> Leaf [] k = "un" -> Un [] k = "bin" -> Bin [] k = "cross" -> Cross [] k = "alias" -> Alias [] k = "inplace" -> Inplace [] k = "fill" -> Fill
               [] k = "back" -> Backward [] k = "take" -> TakeGrad [] k = "zero" -> ZeroGrad [] k = "clone" -> Clone [] k = "drop" -> Drop [] k = "scope" -> Scope
Can(k) == CASE k \in {"un", "cross", "alias", "clone", "drop"} -> Live # {} [] k = "bin" -> Pairs # {} [] k = "inplace" -> InPairs # {} [] k = "fill" -> Fills # {}
            [] k = "back" -> Backs # {} [] k \in {"take", "zero"} -> HasG # {} [] OTHER -> TRUE
Step == /\ ~done /\ Len(log) < Steps
        /\ IF Sampled THEN LET k == Kinds[RandomElement(1..Len(Kinds))] IN (IF Can(k) THEN Choose(k) ELSE Leaf)
           ELSE \E k \in {Kinds[i] : i \in 1..Len(Kinds)} : Choose(k)
Finish == Len(log) = Steps /\ ~done /\ done' = TRUE /\ UNCHANGED <<node, reg, scope, log>>
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
\* nothing is kept by something that it keeps: reference counts suffice
Acyclic == \A n \in 1..N : \A m \in node[n].keeps : m < n
Emit == done => PrintT(ToJson([log |-> log]))
=============================================================================
