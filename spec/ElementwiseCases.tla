-------------------------- MODULE ElementwiseCases --------------------------
(* V03: elementwise operations over every broadcast-compatible pair (triple) *)
(* of shapes in the bound; incompatible combinations must be refused.        *)
EXTENDS CaseBase, Terms
CONSTANTS ShA, ShB, Fams, UnaryMod
VARIABLES a, b, fam, c

V1 == <<"v">>
V2 == <<"v", "v">>
Cat(S, lay) == {[x EXCEPT !.fam = lay] : x \in S}
\* fam in the record tells the runner which element types are legal and how exact the answer is:
\*   exact (integer arithmetic), cmp (bool result), real (rounded), bool (logical)
Rec(op, ins, dts, fl, kind, exp, cls) ==
  [op |-> op, ins |-> ins, dts |-> dts, il |-> <<>>, fl |-> fl, kind |-> kind, exp |-> exp, cls |-> cls]

A == Noise(a, 1, 13)   \* values -6..6, zero included
Bt == Noise(b, 2, 9)   \* values -4..4
\* no zero: divisors and negative powers
NZ(t) == [t EXCEPT !.d = [k \in 1..Len(t.d) |-> IF t.d[k] = 0 THEN 3 ELSE t.d[k]]]
Pos(t) == [t EXCEPT !.d = [k \in 1..Len(t.d) |-> 1 + AbsI(t.d[k])]]
Small(t) == [t EXCEPT !.d = [k \in 1..Len(t.d) |-> t.d[k] % 4]]

Cmp(o, x, y) == CASE o = "lt" -> B01(x < y) [] o = "le" -> B01(x <= y) [] o = "gt" -> B01(x > y)
                  [] o = "ge" -> B01(x >= y) [] o = "eq" -> B01(x = y) [] o = "ne" -> B01(x # y)
                  [] o = "logicAnd" -> B01(x % 2 = 1 /\ y % 2 = 1) [] o = "logicOr" -> B01(x % 2 = 1 \/ y % 2 = 1)
Ar(o, x, y) == CASE o = "add" -> x + y [] o = "sub" -> x - y [] o = "mul" -> x * y
                 [] o = "maximum" -> MaxI(x, y) [] o = "minimum" -> MinI(x, y)
                 [] o = "clampMin" -> MaxI(x, y) [] o = "clampMax" -> MinI(x, y)
                 [] o = "div" -> Div2(x, y) [] o = "pow" -> Pow2(x, y)
Fits == BShape(a, b) = a         \* an in-place operation must not grow its target
Junk(s) == Ramp(s, 50)
WithOut(r, s) == {r, [preout |-> Junk(s)] @@ [r EXCEPT !.op = r.op \o "Out"]}
OutAlpha(r, s) == [preout |-> Junk(s)] @@ [r EXCEPT !.op = r.op \o "Out", !.fl = <<1>>]

Binary ==
  IF ~Compatible(a, b) THEN {}
  ELSE LET S == BShape(a, b) IN UNION {
    {Rec(o, <<A, Bt>>, V2, <<>>, "t", <<Map2(A, Bt, LAMBDA x, y : Cmp(o, x, y))>>, "cmp") : o \in {"lt", "le", "gt", "ge", "eq", "ne"}},
    UNION {{Rec(o, <<A, Bt>>, V2, <<>>, "t", <<Map2(A, Bt, LAMBDA x, y : Ar(o, x, y))>>, "exact"),
            OutAlpha(Rec(o, <<A, Bt>>, V2, <<>>, "t", <<Map2(A, Bt, LAMBDA x, y : Ar(o, x, y))>>, "exact"), S)} : o \in {"add", "sub"}},
    UNION {WithOut(Rec("mul", <<A, Bt>>, V2, <<>>, "t", <<Map2(A, Bt, LAMBDA x, y : x * y)>>, "exact"), S) : o \in {1}},
    UNION {WithOut(Rec(o, <<A, Bt>>, V2, <<>>, "t", <<Map2(A, Bt, LAMBDA x, y : Ar(o, x, y))>>, "order"), S) : o \in {"maximum", "minimum", "clampMin", "clampMax"}},
    WithOut(Rec("div", <<A, NZ(Bt)>>, V2, <<>>, "t", <<Map2(A, NZ(Bt), LAMBDA x, y : Div2(x, y))>>, "real"), S),
    WithOut(Rec("pow", <<NZ(A), Bt>>, V2, <<>>, "t", <<Map2(NZ(A), Bt, LAMBDA x, y : Pow2(x, y))>>, "real"), S),
    UNION {WithOut(Rec(o, <<Ramp(a, 0), Noise(b, 3, 5)>>, V2, <<>>, "t", <<Map2(Ramp(a, 0), Noise(b, 3, 5), LAMBDA x, y : Cmp(o, x % 2, y % 2))>>, "bool"), S) : o \in {"logicAnd", "logicOr"}},
    {Rec("addA", <<A, Bt>>, V2, <<3>>, "t", <<Map2(A, Bt, LAMBDA x, y : x + 3 * y)>>, "exact"),
     Rec("subA", <<A, Bt>>, V2, <<-2>>, "t", <<Map2(A, Bt, LAMBDA x, y : x + 2 * y)>>, "exact")},
    IF Fits THEN
      UNION {
        {Rec(o \o "_", <<A, Bt>>, V2, <<>>, "inplace", <<Map2(A, Bt, LAMBDA x, y : Ar(o, x, y))>>, "exact") : o \in {"add", "sub", "mul"}},
        {Rec(o \o "I", <<A, Bt>>, V2, <<2>>, "inplace", <<Map2(A, Bt, LAMBDA x, y : Ar(o, x, 2 * y))>>, "exact") : o \in {"add", "sub"}},
        {Rec("mulI", <<A, Bt>>, V2, <<>>, "inplace", <<Map2(A, Bt, LAMBDA x, y : x * y)>>, "exact"),
         Rec("divI", <<A, NZ(Bt)>>, V2, <<>>, "inplace", <<Map2(A, NZ(Bt), LAMBDA x, y : Div2(x, y))>>, "real"),
         Rec("div_", <<A, NZ(Bt)>>, V2, <<>>, "inplace", <<Map2(A, NZ(Bt), LAMBDA x, y : Div2(x, y))>>, "real"),
         Rec("powI", <<NZ(A), Bt>>, V2, <<>>, "inplace", <<Map2(NZ(A), Bt, LAMBDA x, y : Pow2(x, y))>>, "real")},
        {Rec(o \o "_", <<A, Bt>>, V2, <<>>, "inplace", <<Map2(A, Bt, LAMBDA x, y : Ar(o, x, y))>>, "order") : o \in {"clampMin", "clampMax"}},
        {Rec(o \o "_", <<Ramp(a, 0), Noise(b, 3, 5)>>, V2, <<>>, "inplace", <<Map2(Ramp(a, 0), Noise(b, 3, 5), LAMBDA x, y : Cmp(o, x % 2, y % 2))>>, "bool") : o \in {"logicAnd", "logicOr"}}}
    ELSE {}}

\* combinations that no broadcast relates must be refused, and so must growing an in-place target
Refusals ==
  (IF Compatible(a, b) THEN {} ELSE
     {Rec(o, <<A, Bt>>, V2, <<>>, "reject", <<>>, "exact") : o \in {"add", "sub", "mul", "div", "pow", "lt", "eq", "maximum", "add_", "mul_", "clampMin_"}} \cup
     {Rec("clamp", <<A, Bt, Bt>>, <<"v", "v", "v">>, <<>>, "reject", <<>>, "exact"), Rec("addcmul", <<A, Bt, Bt>>, <<"v", "v", "v">>, <<2>>, "reject", <<>>, "exact"),
      Rec("logicAnd", <<A, Bt>>, V2, <<>>, "reject", <<>>, "bool")}) \cup
  (IF Compatible(a, b) /\ ~Fits THEN {Rec(o, <<A, Bt>>, V2, <<2>>, "reject", <<>>, "exact") : o \in {"addI", "mulI", "clampMin_", "powI"}} ELSE {}) \cup
  (IF a # b THEN {Rec(o, <<A, Ramp(b, 0)>>, <<"v", "b">>, <<2>>, "reject", <<>>, "exact") : o \in {"fillMasked", "fillMasked_"}} ELSE {})

\* third operand: each of a few shapes that can join the pair
Thirds == {<<>>, a, b, <<1>>, BShape(a, b)}
Ternary ==
  IF ~Compatible(a, b) THEN {} ELSE
  UNION { LET C3 == Noise(t3, 5, 7)
              S == BShape(BShape(a, b), t3)
              E1 == Map3(A, Bt, C3, LAMBDA x, y, z : x + 2 * y * z)
              HiT == LET F(ix) == BAt(Bt, ix) + AbsI(BAt(C3, ix)) IN Mk(BShape(b, t3), F)
              E2 == Map3(A, Bt, HiT, LAMBDA x, lo, hi : MinI(MaxI(x, lo), hi))
              r1 == Rec("addcmul", <<A, Bt, C3>>, <<"v", "v", "v">>, <<2>>, "t", <<E1>>, "exact")
              r2 == Rec("clamp", <<A, Bt, HiT>>, <<"v", "v", "v">>, <<>>, "t", <<E2>>, "exact")
          IN UNION {WithOut(r1, S), WithOut(r2, S),
                    IF S = a THEN {[r1 EXCEPT !.op = "addcmul_", !.kind = "inplace"], [r2 EXCEPT !.op = "clamp_", !.kind = "inplace"]} ELSE {}}
          : t3 \in {t \in Thirds : Compatible(t, BShape(a, b))} }

\* one-operand operations; q: values in quarters
Scalars == {-3, 0, 2}
Unary ==
  IF b # <<>> THEN {} ELSE
  LET X == NoiseQ(a, 4, UnaryMod) P == PosQ(a, 6, UnaryMod) IN UNION {
    UNION {WithOut(Rec(o, <<X>>, V1, <<>>, "t", <<Map1(X, LAMBDA x : Fn(o, x))>>, "real"), a) \cup
           {Rec(o \o "_", <<X>>, V1, <<>>, "inplace", <<Map1(X, LAMBDA x : Fn(o, x))>>, "real")}
            : o \in {"abs", "neg", "square", "exp", "sin", "cos", "sigmoid", "tanh", "relu", "gelu", "silu"}},
    UNION {WithOut(Rec(o, <<P>>, V1, <<>>, "t", <<Map1(P, LAMBDA x : Fn(o, x))>>, "real"), a) \cup
           {Rec(o \o "_", <<P>>, V1, <<>>, "inplace", <<Map1(P, LAMBDA x : Fn(o, x))>>, "real")} : o \in {"sqrt", "log"}},
    WithOut(Rec("sign", <<A>>, V1, <<>>, "t", <<Map1(A, LAMBDA x : Sgn(x))>>, "sign"), a) \cup
           {Rec("sign_", <<A>>, V1, <<>>, "inplace", <<Map1(A, LAMBDA x : Sgn(x))>>, "sign")},
    WithOut(Rec("logicNot", <<A>>, V1, <<>>, "t", <<Map1(A, LAMBDA x : 1 - (x % 2))>>, "bool"), a),
    {Rec("not", <<A>>, V1, <<>>, "t", <<Map1(A, LAMBDA x : 1 - (x % 2))>>, "bool"),
     Rec("logicNot_", <<A>>, V1, <<>>, "inplace", <<Map1(A, LAMBDA x : 1 - (x % 2))>>, "bool")},
    UNION {UNION {
       {Rec(o \o "S", <<A>>, V1, <<k>>, "t", <<Map1(A, LAMBDA x : Ar(o, x, k))>>, "exact") : o \in {"add", "sub", "mul"}},
       {Rec(o \o "R", <<A>>, V1, <<k>>, "t", <<Map1(A, LAMBDA x : Ar(o, k, x))>>, "exact") : o \in {"add", "sub", "mul"}},
       {Rec(o \o "S_", <<A>>, V1, <<k>>, "inplace", <<Map1(A, LAMBDA x : Ar(o, x, k))>>, "exact") : o \in {"add", "sub", "mul"}},
       {Rec("divR", <<NZ(A)>>, V1, <<k>>, "t", <<Map1(NZ(A), LAMBDA x : Div2(k, x))>>, "real")},
       IF k # 0 THEN {Rec("divS", <<A>>, V1, <<k>>, "t", <<Map1(A, LAMBDA x : Div2(x, k))>>, "real"),
                      Rec("divS_", <<A>>, V1, <<k>>, "inplace", <<Map1(A, LAMBDA x : Div2(x, k))>>, "real")} ELSE {},
       {Rec("powS", <<NZ(A)>>, V1, <<k>>, "t", <<Map1(NZ(A), LAMBDA x : Pow2(x, k))>>, "real")},
       {Rec(o \o "S", <<A>>, V1, <<k>>, "t", <<Map1(A, LAMBDA x : Cmp(o, x, k))>>, "cmp") : o \in {"lt", "le", "gt", "ge", "eq", "ne"}}
      } : k \in Scalars},
    UNION {LET M == Noise(a, seed, 5) m01 == [M EXCEPT !.d = [k \in 1..Len(M.d) |-> M.d[k] % 2]]
               E == Map2(A, m01, LAMBDA x, m : IF m = 1 THEN 9 ELSE x)
               r == Rec("fillMasked", <<A, m01>>, <<"v", "b">>, <<9>>, "t", <<E>>, "any")
           IN WithOut(r, a) \cup {[r EXCEPT !.op = "fillMasked_", !.kind = "inplace"]} : seed \in 1..3},
    IF Len(a) > 0 /\ a[Len(a)] % 2 = 0 THEN
       LET n == a[Len(a)] \div 2
           F(ix) == Mul2(Fn("silu", At(X, ix)), At(X, Replace(ix, Len(a), ix[Len(a)] + n)))
       IN {Rec("siluMul", <<X>>, V1, <<>>, "t", <<Mk(Replace(a, Len(a), n), F)>>, "real")} ELSE {}
  }

CasesFor(f) == CASE f = "binary" -> Binary [] f = "ternary" -> Ternary [] f = "unary" -> Unary [] f = "refuse" -> Refusals
Init == a \in ShA /\ b \in ShB /\ fam \in Fams /\ c = [op |-> "none"]
Next == c.op = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<a, b, fam>>
Answered == c.op # "none"
TypeOK == Answered => \A i \in 1..Len(c.exp) : WellFormed(c.exp[i])
\* broadcasting is symmetric and idempotent, and a commutative operation does not care about operand order
BroadcastLaw == Compatible(a, b) => /\ BShape(a, b) = BShape(b, a) /\ BShape(a, BShape(a, b)) = BShape(a, b)
                                    /\ Compatible(b, a)
Commutes == (Answered /\ c.op \in {"add", "mul", "maximum", "eq"} /\ Len(c.ins) = 2 /\ c.kind = "t") =>
   c.exp[1] = Map2(c.ins[2], c.ins[1], LAMBDA x, y : CASE c.op = "add" -> x + y [] c.op = "mul" -> x * y [] c.op = "maximum" -> MaxI(x, y) [] c.op = "eq" -> B01(x = y))
Emit == Answered => PrintT(ToJson(c))
=============================================================================
