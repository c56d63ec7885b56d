-------------------------------- MODULE Duals --------------------------------
(* Numbers with their derivatives with respect to numbered variables:        *)
(* [v |-> value, j |-> variable -> derivative], only the variables a number  *)
(* depends on being in the domain of j.  One set of operators over integers  *)
(* (polynomial operations), one over symbolic reals.                         *)
EXTENDS Terms
Un(x, y) == DOMAIN x.j \cup DOMAIN y.j
Const(c) == [v |-> c, j |-> <<>>]
Var(c, n) == [v |-> c, j |-> n :> 1]
(* integers *)
GetI(x, n) == IF n \in DOMAIN x.j THEN x.j[n] ELSE 0
IAdd(x, y) == [v |-> x.v + y.v, j |-> [n \in Un(x, y) |-> GetI(x, n) + GetI(y, n)]]
ISub(x, y) == [v |-> x.v - y.v, j |-> [n \in Un(x, y) |-> GetI(x, n) - GetI(y, n)]]
IMul(x, y) == [v |-> x.v * y.v, j |-> [n \in Un(x, y) |-> GetI(x, n) * y.v + x.v * GetI(y, n)]]
ISum(q) == FoldLeft(IAdd, Const(0), q)
IGreater(x, y) == x.v > y.v
(* symbolic reals; a derivative is a sequence of terms to be added *)
GetT(x, n) == IF n \in DOMAIN x.j THEN <<x.j[n]>> ELSE <<>>
Scaled(x, n, k) == IF n \in DOMAIN x.j THEN <<Mul2(k, x.j[n])>> ELSE <<>>
TAdd(x, y) == [v |-> Add2(x.v, y.v), j |-> [n \in Un(x, y) |-> SumT(GetT(x, n) \o GetT(y, n))]]
TSub(x, y) == [v |-> Sub2(x.v, y.v), j |-> [n \in Un(x, y) |-> SumT(GetT(x, n) \o Scaled(y, n, -1))]]
TMul(x, y) == [v |-> Mul2(x.v, y.v), j |-> [n \in Un(x, y) |-> SumT(Scaled(x, n, y.v) \o Scaled(y, n, x.v))]]
TDiv(x, y) == [v |-> Div2(x.v, y.v), j |-> [n \in Un(x, y) |-> SumT(Scaled(x, n, Div2(1, y.v)) \o Scaled(y, n, Div2(Sub2(0, x.v), Mul2(y.v, y.v))))]]
TSum(q) == [v |-> SumT([k \in 1..Len(q) |-> q[k].v]),
            j |-> [n \in UNION {DOMAIN q[k].j : k \in 1..Len(q)} |-> SumT(LET s == SelectSeq(q, LAMBDA e : n \in DOMAIN e.j) IN [k \in 1..Len(s) |-> s[k].j[n]])]]
Chain(v, x, d) == [v |-> v, j |-> [n \in DOMAIN x.j |-> Mul2(d, x.j[n])]]
TExp(x) == Chain(Fn("exp", x.v), x, Fn("exp", x.v))
TLog(x) == Chain(Fn("log", x.v), x, Div2(1, x.v))
TSqrt(x) == Chain(Fn("sqrt", x.v), x, Div2(1, Mul2(2, Fn("sqrt", x.v))))
TSin(x) == Chain(Fn("sin", x.v), x, Fn("cos", x.v))
TCos(x) == Chain(Fn("cos", x.v), x, Sub2(0, Fn("sin", x.v)))
TPow(x, y) == [v |-> Pow2(x.v, y.v), j |-> [n \in Un(x, y) |-> SumT(Scaled(x, n, Mul2(y.v, Pow2(x.v, Sub2(y.v, 1)))) \o Scaled(y, n, Mul2(Pow2(x.v, y.v), Fn("log", x.v))))]]
TMax(q) == Const(<<"maxof", [k \in 1..Len(q) |-> q[k].v]>>)
=============================================================================
