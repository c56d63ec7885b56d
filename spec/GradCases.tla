------------------------------ MODULE GradCases ------------------------------
(* A02: a call of a differentiable operation with an upstream gradient must   *)
(* deliver to each operand requiring gradient  sum over outputs o of          *)
(* g[o] * d out[o] / d operand[k].  The derivatives are carried along while   *)
(* the operation is evaluated from its definition (module Duals).             *)
EXTENDS Duals, Json
CONSTANTS Shapes, Shapes2, Fams, Configs, Seed
VARIABLES sh, fam, c
\* integer duals / symbolic duals
NI == INSTANCE NNOps WITH Num <- Const, Plus <- IAdd, Minus <- ISub, Times <- IMul, Over <- IMul, ExpN <- Const, LogN <- Const, SqrtN <- Const,
                          SumOf <- ISum, Greater <- IGreater, MaxTerm <- Const
NT == INSTANCE NNOps WITH Num <- Const, Plus <- TAdd, Minus <- TSub, Times <- TMul, Over <- TDiv, ExpN <- TExp, LogN <- TLog, SqrtN <- TSqrt,
                          SumOf <- TSum, Greater <- IGreater, MaxTerm <- TMax

\* operands: sequence of plain tensors; rg: which require gradient; D(i): operand i with derivatives
Off(ops, i) == SumSeq([k \in 1..(i - 1) |-> Len(ops[k].d)])
D(ops, rg, i) == [s |-> ops[i].s, d |-> [k \in 1..Len(ops[i].d) |-> IF rg[i] THEN Var(ops[i].d[k], Off(ops, i) + k) ELSE Const(ops[i].d[k])]]
Up(s) == [s |-> s, d |-> [k \in 1..Prod(s) |-> ((k * 5 + Seed * 3 + (k \div 4)) % 7) - 3]]
Values(y) == [s |-> y.s, d |-> [k \in 1..Len(y.d) |-> y.d[k].v]]
GradOf(ops, rg, i, y, g, symbolic) ==
  [s |-> ops[i].s, d |-> [k \in 1..Len(ops[i].d) |->
     LET n == Off(ops, i) + k
         hit == SelectSeq([o \in 1..Len(y.d) |-> o], LAMBDA o : n \in DOMAIN y.d[o].j)
     IN IF symbolic THEN SumT([h \in 1..Len(hit) |-> Mul2(g.d[hit[h]], y.d[hit[h]].j[n])])
        ELSE SumSeq([h \in 1..Len(hit) |-> g.d[hit[h]] * y.d[hit[h]].j[n]])]]
None == [s |-> <<0>>, d |-> <<>>]
GCall(op, ops, dts, il, fl, rg, y, symbolic) ==
  LET g == Up(y.s) IN
  [op |-> op, ins |-> ops, dts |-> dts, il |-> il, fl |-> fl, kind |-> "t", tol |-> 0, rg |-> rg, g |-> g, exp |-> <<Values(y)>>,
   grads |-> [i \in 1..Len(ops) |-> IF rg[i] THEN GradOf(ops, rg, i, y, g, symbolic) ELSE None]]
V(n) == [i \in 1..n |-> "v"]
Masks(n) == {m \in [1..n -> BOOLEAN] : \E i \in 1..n : m[i]}
\* operand values
NZ(s, seed) == LET t == NoiseQ(s, seed, 17) IN [t EXCEPT !.d = [k \in 1..Len(t.d) |-> IF t.d[k][2] = 0 THEN Quarter(9) ELSE t.d[k]]]
IntN(s, seed, mod) == [s |-> s, d |-> [k \in 1..Prod(s) |-> ((k * 7919 + seed * 104729 + k * k * 31) % mod) - (mod \div 2)]]
IntNZ(s, seed) == LET t == IntN(s, seed, 9) IN [t EXCEPT !.d = [k \in 1..Len(t.d) |-> IF t.d[k] = 0 THEN 5 ELSE t.d[k]]]
Distinct(s) == LET n == Prod(s) IN [s |-> s, d |-> [k \in 1..n |-> (((((k * 37 + Seed) % 101) * 211) + k) % 10007) - 5000]]   \* no two equal
Empty == [s |-> <<>>, d |-> <<>>]

Binary ==
  UNION {LET A == NZ(p, 1) B == NZ(q, 2) P == PosQ(p, 3, 11) E == NoiseQ(q, 4, 13) IE == IntN(q, 5, 7) IA == IntN(p, 1, 15) IB == IntN(q, 2, 13) yes(rg, i) == D(<<A, B>>, rg, i) IN
     {LET a == D(<<IA, IB>>, rg, 1) b == D(<<IA, IB>>, rg, 2) IN
      CASE o = "add" -> GCall(o, <<IA, IB>>, V(2), <<>>, <<>>, rg, Map2(a, b, IAdd), FALSE)
        [] o = "sub" -> GCall(o, <<IA, IB>>, V(2), <<>>, <<>>, rg, Map2(a, b, ISub), FALSE)
        [] o = "mul" -> GCall(o, <<IA, IB>>, V(2), <<>>, <<>>, rg, Map2(a, b, IMul), FALSE)
        [] o = "addA" -> GCall(o, <<IA, IB>>, V(2), <<>>, <<-3>>, rg, Map2(a, b, LAMBDA x, y : IAdd(x, IMul(Const(-3), y))), FALSE)
        [] o = "subA" -> GCall(o, <<IA, IB>>, V(2), <<>>, <<3>>, rg, Map2(a, b, LAMBDA x, y : ISub(x, IMul(Const(3), y))), FALSE)
        [] o = "div" -> GCall(o, <<A, B>>, V(2), <<>>, <<>>, rg, Map2(D(<<A, B>>, rg, 1), D(<<A, B>>, rg, 2), TDiv), TRUE)
        [] o = "pow" -> GCall(o, <<P, E>>, V(2), <<>>, <<>>, rg, Map2(D(<<P, E>>, rg, 1), D(<<P, E>>, rg, 2), TPow), TRUE)
      : o \in {"add", "sub", "mul", "addA", "subA", "div", "pow"}, rg \in Masks(2)}
     \cup {GCall("pow", <<A, IE>>, V(2), <<>>, <<>>, <<TRUE, FALSE>>, Map2(D(<<A, IE>>, <<TRUE, FALSE>>, 1), D(<<A, IE>>, <<TRUE, FALSE>>, 2), TPow), TRUE)}
   : p \in {sh}, q \in {x \in Shapes2 : Compatible(sh, x)}}
One == <<TRUE>>
Unary ==
  LET A == NZ(sh, 1) a == D(<<A>>, One, 1) P == PosQ(sh, 3, 11) pp == D(<<P>>, One, 1) I == IntNZ(sh, 4) ii == D(<<I>>, One, 1)
      K(v) == Const(v)
      F(op, il, fl, G(_)) == GCall(op, <<A>>, V(1), il, fl, One, Map1(a, G), TRUE)
  IN {F("sin", <<>>, <<>>, TSin), F("cos", <<>>, <<>>, TCos),
      F("addS", <<>>, <<Quarter(3)>>, LAMBDA x : TAdd(x, K(Quarter(3)))), F("subS", <<>>, <<Quarter(3)>>, LAMBDA x : TSub(x, K(Quarter(3)))),
      F("mulS", <<>>, <<Quarter(-7)>>, LAMBDA x : TMul(x, K(Quarter(-7)))), F("divS", <<>>, <<Quarter(-7)>>, LAMBDA x : TDiv(x, K(Quarter(-7)))),
      F("addR", <<>>, <<Quarter(3)>>, LAMBDA x : TAdd(x, K(Quarter(3)))), F("subR", <<>>, <<Quarter(3)>>, LAMBDA x : TSub(K(Quarter(3)), x)),
      F("mulR", <<>>, <<Quarter(-7)>>, LAMBDA x : TMul(x, K(Quarter(-7)))), F("divR", <<>>, <<Quarter(-7)>>, LAMBDA x : TDiv(K(Quarter(-7)), x)),
      GCall("relu", <<I>>, V(1), <<>>, <<>>, One, NI!Relu(ii), FALSE),
      GCall("sum", <<I>>, V(1), <<>>, <<>>, One, [s |-> <<>>, d |-> <<ISum(ii.d)>>], FALSE)}
     \cup {F("powS", <<>>, <<e>>, LAMBDA x : TPow(x, K(e))) : e \in {Rat(2, 1), Rat(3, 1), Rat(-1, 1), Rat(-2, 1), Rat(1, 1)}}
     \cup {GCall("powS", <<P>>, V(1), <<>>, <<e>>, One, Map1(pp, LAMBDA x : TPow(x, K(e))), TRUE) : e \in {Rat(1, 2), Rat(-3, 2), Rat(5, 2), Rat(0, 1)}}
SoftDims == {d \in (-Len(sh))..(Len(sh) - 1) : TRUE}
Soft ==
  LET A == NZ(sh, 1) a == D(<<A>>, One, 1) IN
  {GCall("softmax", <<A>>, V(1), <<<<d>>>>, <<>>, One, NT!Softmax(a, d), TRUE) : d \in SoftDims}
  \cup {GCall("logSoftmax", <<A>>, V(1), <<<<d>>>>, <<>>, One, NT!LogSoftmax(a, d), TRUE) : d \in SoftDims}
Perms(n) == {p \in [1..n -> 0..(n - 1)] : \A i, j \in 1..n : i # j => p[i] # p[j]}
Views ==
  LET I == IntN(sh, 6, 19) ii == D(<<I>>, One, 1) n == Len(sh)
      G(op, il, y) == GCall(op, <<I>>, V(1), il, <<>>, One, y, FALSE)
  IN {G("permute", <<p>>, Permute(ii, p)) : p \in Perms(n)}
     \cup (IF n = 0 THEN {} ELSE {G("permuteAll", <<>>, PermuteAll(ii)), G("squeeze", <<<<>>>>, Squeeze(ii, <<>>))})
     \cup {G("unsqueeze", <<<<d>>>>, Unsqueeze(ii, d)) : d \in (-n - 1)..n}
     \cup {G("flatten", <<<<a, b>>>>, Flatten(ii, a, b)) : a \in {x \in (-n)..(n - 1) : x >= 0}, b \in {x \in (-n)..(n - 1) : TRUE} \cap {x \in (-n)..(n - 1) : x < 0 \/ TRUE}}
     \cup {G("reshape", <<<<-1>>>>, Reshape(ii, <<-1>>)), G("view", <<<<1, -1>>>>, Reshape(ii, <<1, -1>>))}
     \cup {G("unflatten", <<<<d>>, <<1, -1>>>>, Unflatten(ii, d, <<1, -1>>)) : d \in (-n)..(n - 1)}
OkViews == {x \in Views : x.op = "flatten" => LET n == Len(sh) IN Dim(x.il[1][1], n) <= Dim(x.il[1][2], n)}

\* configurations are tuples of integers, read by family
LinearF == UNION {LET lead == cf[1] n == cf[2] m == cf[3] X == IntN(lead \o <<n>>, 1, 7) W == IntN(<<m, n>>, 2, 7) B == IntN(<<m>>, 3, 7) IN
    {GCall("linear", <<X, W, B>>, V(3), <<>>, <<>>, rg, NI!Linear(D(<<X, W, B>>, rg, 1), D(<<X, W, B>>, rg, 2), <<D(<<X, W, B>>, rg, 3)>>), FALSE) : rg \in Masks(3)}
    \cup {GCall("linear", <<X, W>>, V(2), <<>>, <<>>, rg, NI!Linear(D(<<X, W>>, rg, 1), D(<<X, W>>, rg, 2), <<>>), FALSE) : rg \in Masks(2)} : cf \in Configs}
ConvF == UNION {LET N == cf[1] C == cf[2] O == cf[3] hw == cf[4] k == cf[5] st == cf[6] pad == cf[7]
                    X == IntN(<<N, C>> \o hw, 1, 7) W == IntN(<<O, C>> \o k, 2, 7) B == IntN(<<O>>, 3, 7) IN
    {GCall("conv2d", <<X, W, B>>, V(3), <<st, pad>>, <<>>, rg, NI!Conv2d(D(<<X, W, B>>, rg, 1), D(<<X, W, B>>, rg, 2), <<D(<<X, W, B>>, rg, 3)>>, st, pad), FALSE) : rg \in Masks(3)}
    \cup {GCall("conv2d", <<X, W>>, V(2), <<st, pad>>, <<>>, rg, NI!Conv2d(D(<<X, W>>, rg, 1), D(<<X, W>>, rg, 2), <<>>, st, pad), FALSE) : rg \in Masks(2)} : cf \in Configs}
PoolF == {LET N == cf[1] C == cf[2] hw == cf[4] k == cf[5] st == cf[6] pad == cf[7] X == Distinct(<<N, C>> \o hw) IN
          GCall("maxPool2d", <<X>>, V(1), <<k, st, pad>>, <<>>, One, NI!MaxPool2d(D(<<X>>, One, 1), k, st, pad), FALSE) : cf \in Configs}
MseF == UNION {LET X == NoiseQ(sh, 1, 15) T == NoiseQ(q, 2, 15) rg == <<TRUE, FALSE>> IN
          {GCall("mseLoss", <<X, T>>, V(2), <<<<r>>>>, <<>>, rg, NT!MSE(D(<<X, T>>, rg, 1), D(<<X, T>>, rg, 2), r), TRUE) : r \in 0..2} : q \in {x \in Shapes2 : Compatible(sh, x)}}
NllF == UNION {LET n == cf[1] k == cf[2] X == NoiseQ(<<n, k>>, 1, 15) T == [s |-> <<n>>, d |-> [i \in 1..n |-> (i * i + Seed) % k]] rg == <<TRUE, FALSE>> IN
          {GCall("nllLoss", <<X, T>>, <<"v", "i64">>, <<<<r>>>>, <<>>, rg, NT!NLL(D(<<X, T>>, rg, 1), T, r), TRUE) : r \in 0..2} : cf \in Configs}
\* dropout: keep is unknown; the relation is judged with the mask the forward result shows
DropF == {LET I == IntNZ(sh, 1) IN
          [op |-> "dropout", ins |-> <<I>>, dts |-> V(1), il |-> <<<<tr>>>>, fl |-> <<p>>, kind |-> "mask", tol |-> 0, rg |-> One, g |-> Up(sh), exp |-> <<I>>, grads |-> <<I>>] :
           tr \in {0, 1}, p \in {Rat(0, 1), Rat(1, 8), Rat(1, 4), Rat(1, 2), Rat(5, 8), Rat(3, 4), Rat(1, 1)}}

CasesFor(f) == CASE f = "bin" -> Binary [] f = "un" -> Unary [] f = "soft" -> Soft [] f = "views" -> OkViews [] f = "linear" -> LinearF [] f = "conv" -> ConvF
                 [] f = "pool" -> PoolF [] f = "mse" -> MseF [] f = "nll" -> NllF [] f = "drop" -> DropF
Init == sh \in Shapes /\ fam \in Fams /\ c = [op |-> "none"]
Next == c.op = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<sh, fam>>
Answered == c.op # "none"
TypeOK == Answered => /\ WellFormed(c.exp[1]) /\ Len(c.g.d) = Len(c.exp[1].d)
                      /\ \A i \in 1..Len(c.ins) : c.rg[i] => c.grads[i].s = c.ins[i].s /\ WellFormed(c.grads[i])
\* the gradient of a sum-preserving rearrangement is a rearrangement of the upstream gradient
ViewLaw == (Answered /\ fam = "views") => SumSeq(c.grads[1].d) = SumSeq(c.g.d)
\* Euler: for operations of degree one in the operand, sum x.grad = sum g.y
EulerLaw == (Answered /\ fam \in {"views", "pool"}) =>
   SumSeq([k \in 1..Len(c.ins[1].d) |-> c.ins[1].d[k] * c.grads[1].d[k]]) = SumSeq([o \in 1..Len(c.g.d) |-> c.g.d[o] * c.exp[1].d[o]])
\* linear and convolution without bias: linear in the weights
WeightLaw == (Answered /\ fam \in {"linear", "conv"} /\ Len(c.ins) = 2 /\ c.rg[2]) =>
   SumSeq([k \in 1..Len(c.ins[2].d) |-> c.ins[2].d[k] * c.grads[2].d[k]]) = SumSeq([o \in 1..Len(c.g.d) |-> c.g.d[o] * c.exp[1].d[o]])
Emit == Answered => PrintT(ToJson(c))
=============================================================================
