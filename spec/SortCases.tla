----------------------------- MODULE SortCases -----------------------------
(* V05: sort, top-k and running sums along a dimension.  Where several index *)
(* answers are admissible (ties, unsorted top-k) the specification gives the *)
(* relation SelectOk that an answer has to satisfy.                          *)
EXTENDS CaseBase, Terms
CONSTANTS Sh, Fams
VARIABLES sh, fam, c

Rec(op, ins, il, exp, cls, d, srt) ==
  [op |-> op, ins |-> ins, dts |-> <<"v">>, il |-> il, fl |-> <<>>, kind |-> "t", exp |-> exp, cls |-> cls, dim |-> d, ordered |-> srt]

n == Len(sh)
Inf == 1000000
Lane(t, i, rest) == [k \in 1..t.s[i] |-> At(t, InsertAt1(rest, i, k - 1))]     \* elements along 1-based dimension i
\* position-wise construction from a function on lanes
AlongDim(t, i, newExt, G(_)) ==
  LET F(ix) == (G(Lane(t, i, RemoveAt1(ix, i))))[ix[i] + 1] IN Mk(Replace(t.s, i, newExt), F)
Asc(q) == SortSeq(q, LAMBDA a, b : a < b)
Desc(q) == SortSeq(q, LAMBDA a, b : a > b)
\* one admissible index answer: ties in order of position
Pos(q, v, j) == CHOOSE p \in 1..Len(q) : q[p] = v /\ Cardinality({x \in 1..p : q[x] = v}) = j
IdxFor(q, vals) == [k \in 1..Len(vals) |-> Pos(q, vals[k], Cardinality({x \in 1..k : vals[x] = vals[k]})) - 1]
Running(q) == [k \in 1..Len(q) |-> SumSeq(SubSeq(q, 1, k))]

Ops == {Noise(sh, 1, 5), Noise(sh, 2, 23), Ramp(sh, -3), [Ramp(sh, 0) EXCEPT !.d = Reverse(@)], [Ramp(sh, 0) EXCEPT !.d = [k \in DOMAIN @ |-> 4]]}
InfOps == {[Noise(sh, 4, 7) EXCEPT !.d = [k \in DOMAIN @ |-> IF @[k] = 0 THEN -Inf ELSE IF @[k] = 1 THEN Inf ELSE @[k]]]}
BothSigns(d) == {d - 1, d - 1 - n}

Sorts(S, cls) == UNION {UNION {UNION {UNION {
    LET V(q) == IF desc THEN Desc(q) ELSE Asc(q) I(q) == IdxFor(q, V(q)) IN
    {Rec("sort", <<t>>, <<<<ds>>, <<B01(desc)>>>>, <<AlongDim(t, i, t.s[i], V), AlongDim(t, i, t.s[i], I)>>, cls, i, TRUE)}
  : ds \in BothSigns(i)} : desc \in BOOLEAN} : i \in 1..n} : t \in S}
Topks(S, cls) == UNION {UNION {UNION {UNION {UNION {
    LET V(q) == SubSeq(IF big THEN Desc(q) ELSE Asc(q), 1, k) I(q) == IdxFor(q, V(q)) IN
    {Rec("topk", <<t>>, <<<<k, ds>>, <<B01(big), B01(so)>>>>, <<AlongDim(t, i, k, V), AlongDim(t, i, k, I)>>, cls, i, so) : ds \in BothSigns(i)}
  : k \in {k \in {1, 2, 3, 7, sh[i] - 1, sh[i]} : k >= 1 /\ k <= sh[i]}} : big \in BOOLEAN} : so \in BOOLEAN} : i \in 1..n} : t \in S}
Cums(S) == UNION {UNION {{Rec("cumsum", <<t>>, <<<<ds>>>>, <<AlongDim(t, i, t.s[i], Running)>>, "sum", i, TRUE) : ds \in BothSigns(i)} : i \in 1..n} : t \in S}

CasesFor(f) == CASE f = "sort" -> Sorts(Ops, "ord") \cup Sorts(InfOps, "inf") [] f = "topk" -> Topks(Ops, "ord") \cup Topks(InfOps, "inf") [] f = "cumsum" -> Cums(Ops)

\* the relation an answer (values, indices) of a selection must satisfy
Rng(q) == {q[k] : k \in DOMAIN q}
SelectOk(q, v, ix, k, largest, ordered) ==
  /\ Len(v) = k /\ Len(ix) = k
  /\ Cardinality(Rng(ix)) = k /\ \A j \in 1..k : ix[j] \in 0..(Len(q) - 1) /\ q[ix[j] + 1] = v[j]
  /\ \A p \in 0..(Len(q) - 1) : p \notin Rng(ix) => \A j \in 1..k : IF largest THEN v[j] >= q[p + 1] ELSE v[j] <= q[p + 1]
  /\ ordered => \A j \in 1..(k - 1) : IF largest THEN v[j] >= v[j + 1] ELSE v[j] <= v[j + 1]

Init == sh \in Sh /\ fam \in Fams /\ c = [op |-> "none"]
Next == c.op = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<sh, fam>>
Answered == c.op # "none"
TypeOK == Answered => \A i \in 1..Len(c.exp) : WellFormed(c.exp[i])
Lanes(t, i) == {Unravel(k - 1, RemoveAt1(t.s, i)) : k \in 1..Prod(RemoveAt1(t.s, i))}
\* the answer the specification gives is itself admissible
Consistent == (Answered /\ c.op \in {"sort", "topk"} /\ Prod(sh) < 100) =>
  \A r \in Lanes(c.ins[1], c.dim) :
    SelectOk(Lane(c.ins[1], c.dim, r), Lane(c.exp[1], c.dim, r), Lane(c.exp[2], c.dim, r), c.exp[1].s[c.dim],
             IF c.op = "sort" THEN c.il[2][1] = 1 ELSE c.il[2][1] = 1, TRUE)
CumLaw == (Answered /\ c.op = "cumsum") => \A r \in Lanes(c.ins[1], c.dim) :
    Last(Lane(c.exp[1], c.dim, r)) = SumSeq(Lane(c.ins[1], c.dim, r))
Emit == Answered => PrintT(ToJson(c))
=============================================================================
