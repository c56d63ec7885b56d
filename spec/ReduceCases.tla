---------------------------- MODULE ReduceCases ----------------------------
(* V04: a reduction maps every result position to a function of exactly the  *)
(* operand elements that differ from it in the reduced dimensions only.      *)
EXTENDS CaseBase, Terms
CONSTANTS Sh, Fams, Mod, MaxDims
VARIABLES sh, fam, c

Rec(op, ins, il, exp, cls, odt) ==
  [op |-> op, ins |-> ins, dts |-> <<"v">>, il |-> il, fl |-> <<>>, kind |-> "t", exp |-> exp, cls |-> cls, odt |-> odt]

ISum(q) == SumSeq(q)
ISq(q) == FoldLeft(LAMBDA a, b : a + b * b, 0, q)
MeanOf(q) == Div2(ISum(q), Len(q))
\* variance through the exact integer identity n*S2 - S1^2
VarOf(q, unb) == LET n == Len(q) IN Div2(n * ISq(q) - ISum(q) * ISum(q), IF unb THEN n * (n - 1) ELSE n * n)
MaxOf(q) == FoldLeft(LAMBDA a, b : MaxI(a, b), q[1], q)
MinOf(q) == FoldLeft(LAMBDA a, b : MinI(a, b), q[1], q)
Where(q, v) == LET hit == {k \in 1..Len(q) : q[k] = v} IN <<"anyof">> \o [j \in 1..Cardinality(hit) |-> (SetToSortSeq(hit, LAMBDA x, y : x < y))[j] - 1]
\* +-1000000 stands for an infinity; the runner substitutes it
Inf == 1000000
InfT(t) == t

X == Noise(sh, 1, Mod)
\* operands for the order reductions: plain, all negative, all +inf, all -inf, a mixture with infinities
OrderOps ==
  {Noise(sh, 2, 7), [Noise(sh, 3, 9) EXCEPT !.d = [k \in 1..Prod(sh) |-> -10 - @[k]]], Ramp(sh, 0),
   [Ramp(sh, 0) EXCEPT !.d = [k \in 1..Prod(sh) |-> -Inf]], [Ramp(sh, 0) EXCEPT !.d = [k \in 1..Prod(sh) |-> Inf]],
   [Noise(sh, 4, 7) EXCEPT !.d = [k \in 1..Prod(sh) |-> IF @[k] = 0 THEN -Inf ELSE IF @[k] = 1 THEN Inf ELSE @[k]]]}

n == Len(sh)
BothSigns(d) == {d - 1, d - 1 - n}
\* every non-empty ordered choice of distinct dimensions up to MaxDims, one of them counted from the end
DimSeqs == {q \in UNION {[1..k -> 1..n] : k \in 1..MinI(MaxDims, n)} : \A i, j \in DOMAIN q : i # j => q[i] # q[j]}
Signed(q) == {[i \in 1..Len(q) |-> q[i] - 1], [i \in 1..Len(q) |-> IF i % 2 = 1 THEN q[i] - 1 - n ELSE q[i] - 1]}
OneDim == IF n = 0 THEN {<<0>>} ELSE {<<d>> : d \in (-n)..(n - 1)}
DSet(ds) == IF n = 0 THEN {} ELSE DimSet(ds, n)
Unb(D) == {FALSE} \cup (IF Prod(RedSizes(sh, D)) > 1 THEN {TRUE} ELSE {})

ArithDims(sfx, ds) ==
  LET D == DSet(ds) IN UNION {
    {Rec("sum" \o sfx, <<X>>, <<ds, <<B01(kp)>>>>, <<ReduceWith(X, D, kp, ISum)>>, "exact", <<"v">>),
     Rec("mean" \o sfx, <<X>>, <<ds, <<B01(kp)>>>>, <<ReduceWith(X, D, kp, MeanOf)>>, "real", <<"v">>)} \cup
    UNION {LET V(q) == VarOf(q, u) IN
      {Rec("var" \o sfx, <<X>>, <<ds, <<B01(kp)>>, <<B01(u)>>>>, <<ReduceWith(X, D, kp, V)>>, "real", <<"v">>),
       Rec("varMean" \o sfx, <<X>>, <<ds, <<B01(kp)>>, <<B01(u)>>>>, <<ReduceWith(X, D, kp, V), ReduceWith(X, D, kp, MeanOf)>>, "real", <<"v">>)}
      : u \in Unb(D)} : kp \in BOOLEAN}
ArithAll ==
  LET D == AllDims(X) IN
    {Rec("sum", <<X>>, <<>>, <<ReduceWith(X, D, FALSE, ISum)>>, "exact", <<"v">>), Rec("mean", <<X>>, <<>>, <<ReduceWith(X, D, FALSE, MeanOf)>>, "real", <<"v">>)} \cup
    UNION {LET V(q) == VarOf(q, u) IN
      {Rec("var", <<X>>, <<<<B01(u)>>>>, <<ReduceWith(X, D, FALSE, V)>>, "real", <<"v">>),
       Rec("varMean", <<X>>, <<<<B01(u)>>>>, <<ReduceWith(X, D, FALSE, V), ReduceWith(X, D, FALSE, MeanOf)>>, "real", <<"v">>)} : u \in Unb(D)}
OrderAll == UNION {LET D == AllDims(t) x == InfT(t) AMin(q) == Where(q, MinOf(q)) AMax(q) == Where(q, MaxOf(q)) IN
    {Rec("min", <<x>>, <<>>, <<InfT(ReduceWith(t, D, FALSE, MinOf))>>, "exact", <<"v">>), Rec("max", <<x>>, <<>>, <<InfT(ReduceWith(t, D, FALSE, MaxOf))>>, "exact", <<"v">>),
     Rec("argmin", <<x>>, <<>>, <<ReduceWith(t, D, FALSE, AMin)>>, "exact", <<"i64">>), Rec("argmax", <<x>>, <<>>, <<ReduceWith(t, D, FALSE, AMax)>>, "exact", <<"i64">>)}
    : t \in OrderOps}
OrderDims(ds) == UNION {UNION {LET D == DSet(ds) x == InfT(t) AMin(q) == Where(q, MinOf(q)) AMax(q) == Where(q, MaxOf(q)) il == <<ds, <<B01(kp)>>>> IN
    {Rec("minD", <<x>>, il, <<InfT(ReduceWith(t, D, kp, MinOf)), ReduceWith(t, D, kp, AMin)>>, "exact", <<"v", "i64">>),
     Rec("maxD", <<x>>, il, <<InfT(ReduceWith(t, D, kp, MaxOf)), ReduceWith(t, D, kp, AMax)>>, "exact", <<"v", "i64">>),
     Rec("argminD", <<x>>, il, <<ReduceWith(t, D, kp, AMin)>>, "exact", <<"i64">>), Rec("argmaxD", <<x>>, il, <<ReduceWith(t, D, kp, AMax)>>, "exact", <<"i64">>)}
    : kp \in BOOLEAN} : t \in OrderOps}

CasesFor(f) ==
  CASE f = "arith1" -> UNION {ArithDims("D", ds) : ds \in OneDim}
    [] f = "arithN" -> UNION {UNION {ArithDims("Ds", ds) : ds \in Signed(q)} : q \in DimSeqs}
    [] f = "all" -> ArithAll \cup OrderAll
    [] f = "order1" -> UNION {OrderDims(ds) : ds \in OneDim}

Init == sh \in Sh /\ fam \in Fams /\ c = [op |-> "none"]
Next == c.op = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<sh, fam>>
Answered == c.op # "none"
TypeOK == Answered => \A i \in 1..Len(c.exp) : WellFormed(c.exp[i])
\* nothing is lost or counted twice, and the order in which dimensions are named is irrelevant
SumLaw == (Answered /\ c.op \in {"sumD", "sumDs", "sum"}) => SumSeq(c.exp[1].d) = SumSeq(X.d)
SizeLaw == (Answered /\ Len(c.il) >= 1 /\ c.op \in {"sumD", "sumDs"}) => Numel(c.exp[1]) * Prod(RedSizes(sh, DSet(c.il[1]))) = Prod(sh)
OrderLaw == (Answered /\ c.op \in {"sumDs"}) => c.exp[1] = ReduceWith(X, {d : d \in DSet(Reverse(c.il[1]))}, c.il[2][1] = 1, ISum)
Emit == Answered => PrintT(ToJson(c))
=============================================================================
