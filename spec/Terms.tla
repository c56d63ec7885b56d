------------------------------- MODULE Terms -------------------------------
(* Real-valued elements that TLC cannot compute with are kept as symbolic    *)
(* terms <<"op", arg, ...>> over integers; the runner evaluates a term in    *)
(* double precision.  What a result element *is* stays in the specification. *)
EXTENDS TensorOps

Add2(a, b) == <<"add", a, b>>
Sub2(a, b) == <<"sub", a, b>>
Mul2(a, b) == <<"mul", a, b>>
Div2(a, b) == <<"div", a, b>>
Pow2(a, b) == <<"pow", a, b>>
Fn(f, a) == <<f, a>>
SumT(s) == <<"sumof", s>>            \* sum of a sequence of terms
Rat(a, b) == <<"div", a, b>>
\* n/4 style operand values of both signs, zero included
Quarter(k) == Rat(k, 4)
NoiseQ(sh, seed, mod) == LET t == [k \in 1..Prod(sh) |-> ((k * 7919 + seed * 104729 + k * k * 31) % mod) - (mod \div 2)]
                         IN [s |-> sh, d |-> [k \in 1..Prod(sh) |-> Quarter(t[k])]]
PosQ(sh, seed, mod) == LET t == [k \in 1..Prod(sh) |-> ((k * 7919 + seed * 104729 + k * k * 31) % mod) + 1]
                       IN [s |-> sh, d |-> [k \in 1..Prod(sh) |-> Quarter(t[k])]]
=============================================================================
