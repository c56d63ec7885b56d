------------------------------- MODULE NNCases -------------------------------
(* N01, N02, N06: layers, losses, attention and rotary embeddings: every call *)
(* in the bound answered from the definitions of module NNOps (on integers    *)
(* where the layer only adds, multiplies and selects, on symbolic reals       *)
(* otherwise).                                                                *)
EXTENDS Terms, Json
CONSTANTS Shapes, Shapes2, Fams, Configs, Seed
VARIABLES sh, fam, c
Id(x) == x
PlusI(a, b) == a + b
MinusI(a, b) == a - b
TimesI(a, b) == a * b
GreaterI(a, b) == a > b
NI == INSTANCE NNOps WITH Num <- Id, Plus <- PlusI, Minus <- MinusI, Times <- TimesI, Over <- TimesI, ExpN <- Id, LogN <- Id, SqrtN <- Id,
                          SumOf <- SumSeq, Greater <- GreaterI, MaxTerm <- Id
ExpT(x) == Fn("exp", x)
LogT(x) == Fn("log", x)
SqrtT(x) == Fn("sqrt", x)
MaxT(q) == <<"maxof", q>>
NS == INSTANCE NNOps WITH Num <- Id, Plus <- Add2, Minus <- Sub2, Times <- Mul2, Over <- Div2, ExpN <- ExpT, LogN <- LogT, SqrtN <- SqrtT,
                          SumOf <- SumT, Greater <- GreaterI, MaxTerm <- MaxT

IntN(s, seed, mod) == [s |-> s, d |-> [k \in 1..Prod(s) |-> ((k * 7919 + seed * 104729 + k * k * 31) % mod) - (mod \div 2)]]
Distinct(s) == LET n == Prod(s) IN [s |-> s, d |-> [k \in 1..n |-> (((((k * 37 + Seed) % 101) * 19) + k * 3) % 2039) - 1300]]
Call(op, ins, dts, il, fl, exp) == [op |-> op, ins |-> ins, dts |-> dts, il |-> il, fl |-> fl, kind |-> "t", exp |-> <<exp>>, tol |-> 0]
V(n) == [i \in 1..n |-> "v"]

LinearF == UNION {LET lead == cf[1] n == cf[2] m == cf[3] X == IntN(lead \o <<n>>, 1, 7) W == IntN(<<m, n>>, 2, 7) B == IntN(<<m>>, 3, 7) IN
    {Call(o, <<X, W, B>>, V(3), <<>>, <<>>, NI!Linear(X, W, <<B>>)) : o \in {"linear", "mLinear"}}
    \cup {Call(o, <<X, W>>, V(2), <<>>, <<>>, NI!Linear(X, W, <<>>)) : o \in {"linear", "mLinear"}} : cf \in Configs}
ConvF == UNION {LET N == cf[1] C == cf[2] O == cf[3] hw == cf[4] k == cf[5] st == cf[6] pad == cf[7]
                    X == IntN(<<N, C>> \o hw, 1, 7) W == IntN(<<O, C>> \o k, 2, 7) B == IntN(<<O>>, 3, 7) IN
    {Call(o, <<X, W, B>>, V(3), <<st, pad>>, <<>>, NI!Conv2d(X, W, <<B>>, st, pad)) : o \in {"conv2d", "mConv2d"}}
    \cup {Call(o, <<X, W>>, V(2), <<st, pad>>, <<>>, NI!Conv2d(X, W, <<>>, st, pad)) : o \in {"conv2d", "mConv2d"}} : cf \in Configs}
\* windows containing nothing but padding have no maximum
PoolF == UNION {LET N == cf[1] C == cf[2] hw == cf[4] k == cf[5] st == cf[6] pad == cf[7]
                    lead == IF N = 0 THEN <<C>> ELSE <<N, C>>
                    X == Distinct(lead \o hw) Y == [X EXCEPT !.d = [i \in 1..Len(@) |-> -1 - ((i * 7) % 5)]] IN
          {Call(o, <<A>>, V(1), <<k, st, pad>>, <<>>, NI!MaxPool2d(A, k, st, pad)) : o \in {"maxPool2d", "mMaxPool2d"}, A \in {X, Y}}
          \cup (IF st = k /\ pad = <<0, 0>> THEN {Call("mMaxPool2dDef", <<X>>, V(1), <<k>>, <<>>, NI!MaxPool2d(X, k, k, pad))} ELSE {}) : cf \in Configs}
SoftOf(far) == LET t == IF ~far THEN NoiseQ(sh, Seed, 33) ELSE [s |-> sh, d |-> [k \in 1..Prod(sh) |-> ((k * 131 + Seed) % 7) * 300 - 900]]   \* far apart: no overflow allowed
         IN {Call(o, <<t>>, V(1), <<<<d>>>>, <<>>, IF o \in {"softmax", "mSoftmax"} THEN NS!Softmax(t, d) ELSE NS!LogSoftmax(t, d)) :
               o \in {"softmax", "mSoftmax", "logSoftmax", "mLogSoftmax"}, d \in (-Len(sh))..(Len(sh) - 1)}
NormF == LET n == sh[Len(sh)] X == NoiseQ(sh, Seed, 29) G == NoiseQ(<<n>>, 3, 13) B == NoiseQ(<<n>>, 4, 13) IN
  UNION {{Call("layerNorm", <<X>>, V(1), <<<<n>>>>, <<e>>, NS!LayerNorm(X, <<>>, <<>>, e)),
          Call("rmsNorm", <<X>>, V(1), <<<<n>>>>, <<e>>, NS!RMSNorm(X, <<>>, e))} \cup
         {Call(o, <<X, G, B>>, V(3), <<<<n>>>>, <<e>>, NS!LayerNorm(X, <<G>>, <<B>>, e)) : o \in {"layerNorm", "mLayerNorm"}} \cup
         {Call(o, <<X, G>>, V(2), <<<<n>>>>, <<e>>, NS!LayerNorm(X, <<G>>, <<>>, e)) : o \in {"layerNorm", "mLayerNorm"}} \cup
         {Call(o, <<X, G>>, V(2), <<<<n>>>>, <<e>>, NS!RMSNorm(X, <<G>>, e)) : o \in {"rmsNorm", "mRMSNorm"}} : e \in {Rat(1, 100000), Rat(1, 2)}}
EmbF == UNION {LET rows == cf[1] width == cf[2] W == IntN(<<rows, width>>, 5, 61) I == [s |-> sh, d |-> [k \in 1..Prod(sh) |-> (k * k * 3 + k + Seed) % rows]] IN
   {Call(o, <<I, W>>, <<"i64", "v">>, <<>>, <<>>, NI!Embedding(I, W)) : o \in {"embedding", "mEmbedding"}} : cf \in Configs}
ActF == LET A == NoiseQ(sh, Seed, 43) F(f) == Map1(A, LAMBDA x : Fn(f, x)) IN
   {Call("mRelu", <<A>>, V(1), <<>>, <<>>, F("relu")), Call("mGelu", <<A>>, V(1), <<>>, <<>>, F("gelu")), Call("mSilu", <<A>>, V(1), <<>>, <<>>, F("silu"))}
   \cup {Call("mFlatten", <<A>>, V(1), <<<<a, b>>>>, <<>>, Flatten(A, a, b)) : a \in 0..(Len(sh) - 1), b \in {x \in (-1)..(Len(sh) - 1) : Len(sh) > 0}}
OkAct == {x \in ActF : x.op = "mFlatten" => Dim(x.il[1][1], Len(sh)) <= Dim(x.il[1][2], Len(sh))}
\* dropout: each element is dropped or divided by the probability of keeping it
DropF == LET I == [IntN(sh, Seed, 9) EXCEPT !.d = [k \in 1..Len(@) |-> IF @[k] = 0 THEN 5 ELSE @[k]]]
             F(keep) == Map1(I, LAMBDA x : <<"anyof", 0, Div2(x, keep)>>) IN
   {Call(o, <<I>>, V(1), <<<<1>>>>, <<p[1]>>, F(p[2])) : o \in {"dropout", "mDropout"}, p \in {<<Rat(1, 4), Rat(3, 4)>>, <<Rat(1, 2), Rat(1, 2)>>, <<Rat(3, 4), Rat(1, 4)>>}}
   \cup {Call(o, <<I>>, V(1), <<<<tr>>>>, <<Rat(0, 1)>>, Map1(I, LAMBDA x : Add2(x, 0))) : o \in {"dropout", "mDropout"}, tr \in {0, 1}}
   \cup {Call(o, <<I>>, V(1), <<<<0>>>>, <<p>>, Map1(I, LAMBDA x : Add2(x, 0))) : o \in {"dropout", "mDropout"}, p \in {Rat(1, 2), Rat(1, 1)}}
   \cup {Call(o, <<I>>, V(1), <<<<1>>>>, <<Rat(1, 1)>>, Map1(I, LAMBDA x : Add2(0, 0))) : o \in {"dropout", "mDropout"}}
(* losses *)
MseF == UNION {LET X == NoiseQ(sh, 1, 15) T == NoiseQ(q, 2, 15) IN
          {Call(o, <<X, T>>, V(2), <<<<r>>>>, <<>>, NS!MSE(X, T, r)) : r \in 0..2, o \in {"mseLoss", "mMseLoss"}} : q \in {x \in Shapes2 : Compatible(sh, x)}}
NllF == UNION {LET n == cf[1] k == cf[2] X == NoiseQ(<<n, k>>, 1, 15) T == [s |-> <<n>>, d |-> [i \in 1..n |-> (i * i + Seed) % k]] IN
          {Call(o, <<X, T>>, <<"v", "i64">>, <<<<r>>>>, <<>>, NS!NLL(X, T, r)) : r \in 0..2, o \in {"nllLoss", "mNllLoss"}} : cf \in Configs}
(* attention: configurations <<lead, L, S, d, dv>> *)
All(ix, j) == TRUE
Zero(ix, j) == 0
AttnOf(kind) == UNION {LET lead == cf[1] L == cf[2] S == cf[3] d == cf[4] dv == cf[5]
    Q == NoiseQ(lead \o <<L, d>>, 1, 17) K == NoiseQ(lead \o <<S, d>>, 2, 17) W == NoiseQ(lead \o <<S, dv>>, 3, 17)
    dflt == Div2(1, Fn("sqrt", d))
    R(ins, dts, causal, fl, y) == Call("sdpa", ins, dts, <<<<causal>>>>, fl, y)
    Row(ix) == ix[Len(ix) - 1]
    CausalOk(ix, j) == j <= Row(ix)
    \* masks over [L,S], over a broadcast row [1,S], and over all leading dimensions
    MaskShapes == {<<L, S>>, <<1, S>>, lead \o <<L, S>>}
    BM(s) == [s |-> s, d |-> [k \in 1..Prod(s) |-> IF ((k - 1) % S) = ((k * 5 + Seed) % S) \/ ((k * k + Seed) % 3) = 0 \/ ((k - 1) % S) = 0 THEN 1 ELSE 0]]
    AM(s) == NoiseQ(s, 7, 21)
    MAt(m, ix, j) == BAt(m, SubSeq(ix, 1, Len(ix) - 1) \o <<j>>)
    scales == {<<Rat(0, 1)>>, <<Rat(0, 1), Rat(3, 4)>>}
    Sc(f) == IF Len(f) = 1 THEN dflt ELSE f[2] IN
    CASE kind = "attn" -> {R(<<Q, K, W>>, V(3), 0, f, NS!Attention(Q, K, W, Sc(f), All, Zero)) : f \in scales}
    [] kind = "causal" -> {R(<<Q, K, W>>, V(3), 1, f, NS!Attention(Q, K, W, Sc(f), CausalOk, Zero)) : f \in scales}
    [] kind = "attnbool" -> {R(<<Q, K, W, BM(s)>>, <<"v", "v", "v", "b">>, 0, f, LET m == BM(s) IN NS!Attention(Q, K, W, Sc(f), LAMBDA ix, j : MAt(m, ix, j) = 1, Zero)) : f \in scales, s \in MaskShapes}
    [] kind = "attnadd" -> {R(<<Q, K, W, AM(s)>>, V(4), 0, f, LET m == AM(s) IN NS!Attention(Q, K, W, Sc(f), All, LAMBDA ix, j : MAt(m, ix, j))) : f \in scales, s \in MaskShapes}
    [] kind = "attndrop" -> (LET I == [s |-> lead \o <<S, S>>, d |-> [k \in 1..(Prod(lead) * S * S) |-> IF ((k - 1) % S) = (((k - 1) \div S) % S) THEN 1 ELSE 0]]
              y == NS!Attention(Q, K, I, dflt, All, Zero)
          IN {R(<<Q, K, I>>, V(3), 0, <<Rat(1, 4)>>, Map1(y, LAMBDA w : <<"anyof", 0, Div2(w, Rat(3, 4))>>))})    \* dropped weights
    : cf \in Configs}
(* rotary embeddings: configurations <<headDim, ctxLen, batch, heads, seq, offset>> *)
ThetaBase == 10000
Freq(i, d, theta) == Div2(1, Pow2(theta, Div2(2 * i, d)))
\* the published piecewise rule for extended contexts: factor, low, high, original length
ScaledFreq(f, fac, lo, hi, orig) ==
  LET wave == Div2(Mul2(2, "pi"), f) smooth == Div2(Sub2(Div2(orig, wave), lo), Sub2(hi, lo))
  IN <<"ite", <<"gt", wave, Div2(orig, lo)>>, Div2(f, fac),
       <<"ite", <<"lt", wave, Div2(orig, hi)>>, f, Add2(Mul2(Sub2(1, smooth), Div2(f, fac)), Mul2(smooth, f))>>>>
RopeF == UNION {LET d == cf[1] ctx == cf[2] half == d \div 2 theta == cf[7]
    Table(Fq(_)) == LET F(ix) == LET a == Mul2(ix[1], Fq(ix[2] % half)) IN Fn(IF ix[3] = 0 THEN "cos" ELSE "sin", a) IN Mk(<<ctx, d, 2>>, F)
    PlainF(i) == Freq(i, d, theta)
    ScaledF(i) == ScaledFreq(Freq(i, d, theta), 8, 1, 4, 16)
    X == NoiseQ(<<cf[3], cf[4], cf[5], d>>, Seed, 19)
    Rotated == LET F(ix) == LET i == ix[4] % half a == Mul2(ix[3] + cf[6], PlainF(i))
                                x1 == At(X, <<ix[1], ix[2], ix[3], i>>) x2 == At(X, <<ix[1], ix[2], ix[3], i + half>>)
                            IN IF ix[4] < half THEN Sub2(Mul2(x1, Fn("cos", a)), Mul2(x2, Fn("sin", a))) ELSE Add2(Mul2(x2, Fn("cos", a)), Mul2(x1, Fn("sin", a)))
               IN Mk(X.s, F) IN
    {Call("ropeInit", <<>>, <<>>, <<<<d, ctx>>>>, <<theta>>, Table(PlainF)),
     Call("ropeInit", <<>>, <<>>, <<<<d, ctx>>, <<16>>>>, <<theta, 8, 4, 1>>, Table(ScaledF)),
     Call("mRope", <<X>>, V(1), <<<<d, ctx, cf[6]>>>>, <<theta>>, Rotated)} : cf \in Configs}

CasesFor(f) == CASE f = "linear" -> LinearF [] f = "conv" -> ConvF [] f = "pool" -> PoolF [] f = "soft" -> SoftOf(FALSE) [] f = "softfar" -> SoftOf(TRUE) [] f = "norm" -> NormF [] f = "emb" -> EmbF
                 [] f = "act" -> OkAct [] f = "drop" -> DropF [] f = "mse" -> MseF [] f = "nll" -> NllF [] f \in {"attn", "causal", "attnbool", "attnadd", "attndrop"} -> AttnOf(f) [] f = "rope" -> RopeF
Init == sh \in Shapes /\ fam \in Fams /\ c = [op |-> "none"]
Next == c.op = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<sh, fam>>
Answered == c.op # "none"
TypeOK == Answered => WellFormed(c.exp[1])
\* the rows of the output of a convolution by a single 1 are the input
PoolLaw == (Answered /\ fam = "pool") => \A e \in ToSet(c.exp[1].d) : e \in ToSet(c.ins[1].d)
LinearLaw == (Answered /\ fam = "linear" /\ Len(c.ins) = 2) => c.exp[1] = IMatmul(c.ins[1], c.ins[2], FALSE, TRUE)
MseLaw == (Answered /\ fam = "mse" /\ c.il[1][1] = 0) => c.exp[1].s = BShape(c.ins[1].s, c.ins[2].s)
Emit == Answered => PrintT(ToJson(c))
=============================================================================
