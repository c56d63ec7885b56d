----------------------------- MODULE MatmulCases -----------------------------
(* V06: the product of two tensors is, at every position, the sum of products *)
(* along the contracted dimension, with batch dimensions aligned at the last  *)
(* one and broadcast, and vector operands contributing no dimension.          *)
EXTENDS CaseBase
CONSTANTS BatchA, BatchB,   \* sets of batch shapes; <<-1>> stands for "vector operand"
          MKN, Fams, Mod
VARIABLES ba, bb, mkn, c

Vec(b) == b = <<-1>>
m == mkn[1]
kk == mkn[2]
n == mkn[3]
ShA(t) == IF Vec(ba) THEN <<kk>> ELSE ba \o (IF t THEN <<kk, m>> ELSE <<m, kk>>)
ShB(t) == IF Vec(bb) THEN <<kk>> ELSE bb \o (IF t THEN <<n, kk>> ELSE <<kk, n>>)
BA == IF Vec(ba) THEN <<>> ELSE ba
BB == IF Vec(bb) THEN <<>> ELSE bb
Rec(op, ins, il, exp) == Call(op, ins, <<"v", "v">>, il, exp)

Products ==
  IF ~Compatible(BA, BB) THEN {} ELSE
  {LET A == Noise(ShA(ta), 1, Mod) B == Noise(ShB(tb), 2, Mod)
   IN Rec("matmul", <<A, B>>, <<<<B01(ta), B01(tb)>>>>, <<IMatmul(A, B, ta, tb)>>)
   : ta \in BOOLEAN, tb \in BOOLEAN}
\* mismatched contraction, incompatible batches, operands of rank 0
Refusals ==
  (IF Compatible(BA, BB)
   THEN LET A == Noise(ShA(FALSE), 1, Mod)
            B == Noise(IF Vec(bb) THEN <<kk + 1>> ELSE bb \o <<kk + 1, n>>, 2, Mod)
        IN {[Rec("matmul", <<A, B>>, <<<<0, 0>>>>, <<>>) EXCEPT !.kind = "reject"]}
   ELSE {[Rec("matmul", <<Noise(ShA(FALSE), 1, Mod), Noise(ShB(FALSE), 2, Mod)>>, <<<<0, 0>>>>, <<>>) EXCEPT !.kind = "reject"]}) \cup
  {[Rec("matmul", <<Noise(<<>>, 1, Mod), Noise(ShB(FALSE), 2, Mod)>>, <<<<0, 0>>>>, <<>>) EXCEPT !.kind = "reject"],
   [Rec("matmul", <<Noise(ShA(FALSE), 1, Mod), Noise(<<>>, 2, Mod)>>, <<<<0, 0>>>>, <<>>) EXCEPT !.kind = "reject"]}
Dots ==
  IF ~(Vec(ba) /\ Vec(bb)) THEN {} ELSE
  LET A == Noise(<<kk>>, 1, Mod) B == Noise(<<kk>>, 2, Mod)
  IN {Rec("dot", <<A, B>>, <<>>, <<[s |-> <<>>, d |-> <<SumSeq([i \in 1..kk |-> A.d[i] * B.d[i]])>>]>>)}

CasesFor(f) == CASE f = "prod" -> Products [] f = "refuse" -> Refusals [] f = "dot" -> Dots
VARIABLE fam
Init == ba \in BatchA /\ bb \in BatchB /\ mkn \in MKN /\ fam \in Fams /\ c = [op |-> "none"]
Next == c.op = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<ba, bb, mkn, fam>>
Answered == c.op # "none"
Exp == c.exp[1]
IsProd == Answered /\ c.op = "matmul" /\ c.kind = "t"
TypeOK == (Answered /\ c.kind = "t") => WellFormed(c.exp[1])
ShapeLaw == IsProd =>
  Exp.s = BShape(BA, BB) \o (IF Vec(ba) THEN <<>> ELSE <<m>>) \o (IF Vec(bb) THEN <<>> ELSE <<n>>)
\* (AB)^T = B^T A^T for matrices
TransposeLaw == (IsProd /\ ~Vec(ba) /\ ~Vec(bb) /\ Prod(Exp.s) <= 40) =>
  Transpose(Exp, -2, -1) = IMatmul(c.ins[2], c.ins[1], c.il[1][2] = 0, c.il[1][1] = 0)
\* the product distributes over the left operand
LinearLaw == (IsProd /\ Prod(Exp.s) <= 40) =>
  LET A2 == [c.ins[1] EXCEPT !.d = [i \in 1..Len(@) |-> 3 * @[i] + 1]]
      One == [c.ins[1] EXCEPT !.d = [i \in 1..Len(@) |-> 1]]
      P == IMatmul(One, c.ins[2], c.il[1][1] = 1, c.il[1][2] = 1)
  IN IMatmul(A2, c.ins[2], c.il[1][1] = 1, c.il[1][2] = 1).d = [i \in 1..Len(Exp.d) |-> 3 * Exp.d[i] + P.d[i]]
Emit == Answered => PrintT(ToJson(c))
=============================================================================
