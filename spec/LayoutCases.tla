---------------------------- MODULE LayoutCases ----------------------------
(* V02: every layout / indexing operation over every operand shape in the    *)
(* bound and every legal argument.                                           *)
EXTENDS CaseBase
CONSTANTS Ranks, Exts, MaxNumel, Fams
VARIABLES sh, fam, c

\* "v" operands are retyped and re-laid-out freely by the runner; "i64" index tensors are fixed
V == <<"v">>
T0 == Ramp(sh, 0)
R == Len(sh)
Dims == {d \in -R..(R - 1) : TRUE}
Pairs == {<<a, b>> : a, b \in Dims}
Perms == {p \in [1..R -> 0..(R - 1)] : \A i, j \in 1..R : i # j => p[i] # p[j]}
Neg(p, m) == [i \in 1..R |-> IF (m \div PowI(2, i - 1)) % 2 = 1 THEN p[i] - R ELSE p[i]]

\* shapes with the same number of elements, optionally with one inferred extent
Refactor(n) == {s \in UNION {[1..r -> 1..n] : r \in 0..3} : Prod(s) = n}
InferVariants(s) == {s} \cup {Replace(s, i, -1) : i \in 1..Len(s)}

ShapeCases ==
  UNION {
    UNION { {Call(o, <<T0>>, V, <<s2>>, <<Reshape(T0, s2)>>) : o \in {"reshape", "view"}} \cup
            {CallI("reshape_", <<T0>>, V, <<s2>>, <<Reshape(T0, s2)>>)}
            : s2 \in UNION {InferVariants(s1) : s1 \in IF Prod(sh) <= 12 THEN Refactor(Prod(sh)) ELSE {sh, <<Prod(sh)>>}} },
    {Call("flatten", <<T0>>, V, <<<<p[1], p[2]>>>>, <<Flatten(T0, p[1], p[2])>>) : p \in {q \in Pairs : Dim(q[1], R) <= Dim(q[2], R)}},
    {CallI("flatten_", <<T0>>, V, <<<<p[1], p[2]>>>>, <<Flatten(T0, p[1], p[2])>>) : p \in {q \in Pairs : Dim(q[1], R) <= Dim(q[2], R)}},
    {Call("mFlatten", <<T0>>, V, <<<<p[1], p[2]>>>>, <<Flatten(T0, p[1], p[2])>>) : p \in {q \in Pairs : Dim(q[1], R) <= Dim(q[2], R) /\ q[1] >= 0}},
    {Call("squeeze", <<T0>>, V, <<ds>>, <<Squeeze(T0, ds)>>) : ds \in {<<>>} \cup {<<d>> : d \in Dims} \cup {<<p[1], p[2]>> : p \in {q \in Pairs : Dim(q[1], R) # Dim(q[2], R)}}},
    {CallI("squeeze_", <<T0>>, V, <<ds>>, <<Squeeze(T0, ds)>>) : ds \in {<<>>} \cup {<<d>> : d \in Dims}},
    {Call("squeeze1", <<T0>>, V, <<<<d>>>>, <<Squeeze(T0, <<d>>)>>) : d \in Dims},
    {Call("unsqueeze", <<T0>>, V, <<<<d>>>>, <<Unsqueeze(T0, d)>>) : d \in (-R - 1)..R},
    {CallI("unsqueeze_", <<T0>>, V, <<<<d>>>>, <<Unsqueeze(T0, d)>>) : d \in (-R - 1)..R},
    UNION { {Call("unflatten", <<T0>>, V, <<<<d>>, s2>>, <<Unflatten(T0, d, s2)>>),
             CallI("unflatten_", <<T0>>, V, <<<<d>>, s2>>, <<Unflatten(T0, d, s2)>>)}
            : <<d, s2>> \in {<<d, s2>> \in Dims \X UNION {InferVariants(s1) : s1 \in UNION {Refactor(e) : e \in {x \in Range(sh) : x <= 20}}} :
                               Len(s2) >= 1 /\ Prod(InferShape(s2, sh[Dim(d, R)])) = sh[Dim(d, R)]} }
  }

PermCases ==
  UNION {
    {Call("permute", <<T0>>, V, <<q>>, <<Permute(T0, q)>>) : q \in {Neg(p, m) : p \in Perms, m \in IF R <= 3 THEN 0..(PowI(2, R) - 1) ELSE {0, 5}}},
    {CallI("permute_", <<T0>>, V, <<p>>, <<Permute(T0, p)>>) : p \in Perms},
    {Call("permuteAll", <<T0>>, V, <<>>, <<PermuteAll(T0)>>), CallI("permuteAll_", <<T0>>, V, <<>>, <<PermuteAll(T0)>>)},
    {Call("transpose", <<T0>>, V, <<<<p[1], p[2]>>>>, <<Transpose(T0, p[1], p[2])>>) : p \in Pairs},
    {CallI("transpose_", <<T0>>, V, <<<<p[1], p[2]>>>>, <<Transpose(T0, p[1], p[2])>>) : p \in Pairs},
    IF R = 2 THEN {Call("t", <<T0>>, V, <<>>, <<Transpose(T0, 0, 1)>>), CallI("t_", <<T0>>, V, <<>>, <<Transpose(T0, 0, 1)>>)} ELSE {},
    IF R >= 2 THEN UNION {{Call("tril", <<T0>>, V, <<<<k>>>>, <<Tri(T0, k, TRUE, 0)>>), Call("triu", <<T0>>, V, <<<<k>>>>, <<Tri(T0, k, FALSE, 0)>>)} : k \in -3..3} ELSE {}
  }

Ext1(d) == sh[Dim(d, R)]
Compositions(n) == {q \in UNION {[1..k -> 0..n] : k \in 1..3} : SumSeq(q) = n}
SliceCases ==
  UNION {
    UNION {{Call("narrow", <<T0>>, V, <<<<d, st, len>>>>, <<Narrow(T0, d, st, len)>>)
             : <<st, len>> \in {<<st, len>> \in (-Ext1(d)..(Ext1(d) - 1)) \X (0..Ext1(d)) : Wrap(st, Ext1(d)) + len <= Ext1(d)}} : d \in Dims},
    UNION {{CallL("split", <<T0>>, V, <<<<k, d>>>>, Split(T0, k, d)) : k \in {k \in 1..Ext1(d) : Ext1(d) % k = 0}} : d \in Dims},
    UNION {{CallL("splitSections", <<T0>>, V, <<q, <<d>>>>, SplitSections(T0, q, d)) : q \in Compositions(Ext1(d))} : d \in Dims},
    UNION {{CallL("chunk", <<T0>>, V, <<<<k, d>>>>, Chunk(T0, k, d)) : k \in 1..(Ext1(d) + 1)} : d \in Dims}
  }

\* other operands to join with: same shape except along dimension i
Along(i, n, b) == Ramp(Replace(sh, i, n), b)
JoinCases ==
  UNION {
    UNION {{Call("concat", <<T0, Along(Dim(d, R), n, 40)>>, <<"v", "v">>, <<<<d>>>>, <<Concat(<<T0, Along(Dim(d, R), n, 40)>>, d)>>) : n \in 0..3} : d \in Dims},
    {Call("concat", <<T0, Along(Dim(d, R), 1, 40), Along(Dim(d, R), 2, 80)>>, <<"v", "v", "v">>, <<<<d>>>>,
          <<Concat(<<T0, Along(Dim(d, R), 1, 40), Along(Dim(d, R), 2, 80)>>, d)>>) : d \in Dims},
    {Call("concat", <<T0>>, V, <<<<d>>>>, <<T0>>) : d \in Dims},
    {Call("stack", <<T0, Ramp(sh, 40)>>, <<"v", "v">>, <<<<d>>>>, <<Stack(<<T0, Ramp(sh, 40)>>, d)>>) : d \in (-R - 1)..R},
    {Call("stack", <<T0, Ramp(sh, 40), Ramp(sh, 80)>>, <<"v", "v", "v">>, <<<<d>>>>, <<Stack(<<T0, Ramp(sh, 40), Ramp(sh, 80)>>, d)>>) : d \in (-R - 1)..R},
    IF R >= 1 THEN {Call("hstack", <<T0, Ramp(sh, 40)>>, <<"v", "v">>, <<>>, <<HStack(<<T0, Ramp(sh, 40)>>)>>),
                    Call("vstack", <<T0, Ramp(sh, 40)>>, <<"v", "v">>, <<>>, <<VStack(<<T0, Ramp(sh, 40)>>)>>)} ELSE {},
    IF R >= 2 THEN {Call("hstack", <<T0, Along(2, 2, 40)>>, <<"v", "v">>, <<>>, <<HStack(<<T0, Along(2, 2, 40)>>)>>),
                    Call("vstack", <<T0, Along(1, 2, 40)>>, <<"v", "v">>, <<>>, <<VStack(<<T0, Along(1, 2, 40)>>)>>)}
    ELSE IF R = 1 THEN {Call("hstack", <<T0, Along(1, 2, 40)>>, <<"v", "v">>, <<>>, <<HStack(<<T0, Along(1, 2, 40)>>)>>)} ELSE {}
  }

\* index tensors: values pseudo-random in range, negatives included when allowed
Idx(ish, n, seed, neg) ==
  [s |-> ish, d |-> [k \in 1..Prod(ish) |-> LET v == (k * 5 + seed * 3 + (k * k) \div 2) % n IN IF neg /\ (k + seed) % 3 = 0 THEN v - n ELSE v]]
\* index tensors whose entries are distinct along dimension i (scatter targets must not collide)
IdxDistinct(ish, i, n, rot, neg) ==
  LET F(ix) == LET v == (ix[i] + rot + SumSeq(ix) - ix[i]) % n IN IF neg /\ ix[i] % 2 = 1 THEN v - n ELSE v IN Mk(ish, F)
W(k) == IF k > 1 THEN 1..2 ELSE 1..1
GatherCases ==
  UNION { LET i == Dim(d, R) n == sh[i] IN UNION {
    {Call("gather", <<T0, x>>, <<"v", "i64">>, <<<<d>>>>, <<Gather(T0, d, x)>>)
        : x \in {Idx(Replace(sh, i, m), n, seed, ng) : m \in 1..3, seed \in 1..2, ng \in BOOLEAN} \cup
               \* index smaller than the operand in the other dimensions
               {Idx([j \in 1..R |-> IF j = i THEN 2 ELSE MaxI(1, sh[j] - 1)], n, 1, FALSE)}},
    UNION {{Call("scatter", <<T0, x, Ramp(x.s, 60)>>, <<"v", "i64", "v">>, <<<<d>>>>, <<Scatter(T0, d, x, Ramp(x.s, 60))>>),
            CallI("scatter_", <<T0, x, Ramp(x.s, 60)>>, <<"v", "i64", "v">>, <<<<d>>>>, <<Scatter(T0, d, x, Ramp(x.s, 60))>>)}
        : x \in {IdxDistinct(Replace(sh, i, m), i, n, rot, ng) : m \in 1..n, rot \in 0..1, ng \in BOOLEAN} \cup
                {IdxDistinct([j \in 1..R |-> IF j = i THEN n ELSE MaxI(1, sh[j] - 1)], i, n, 1, FALSE)}},
    {Call("indexSelect", <<T0, x>>, <<"v", "i64">>, <<<<d>>>>, <<IndexSelect(T0, d, x)>>) : x \in {Idx(<<m>>, n, seed, FALSE) : m \in 1..4, seed \in 1..2}},
    {Call("repeatInterleave", <<T0>>, V, <<<<r, d>>>>, <<RepeatInterleave(T0, r, d)>>) : r \in 1..3}
  } : d \in Dims }

IxTuples == UNION {{q \in [1..k -> -3..2] : \A i \in 1..k : q[i] >= -sh[i] /\ q[i] < sh[i]} : k \in 1..MinI(R, 2)}
              \cup (IF R >= 3 THEN {q \in [1..3 -> -2..1] : \A i \in 1..3 : q[i] >= -sh[i] /\ q[i] < sh[i]} ELSE {})
IdxLists == UNION {{[i \in 1..k |-> Idx(ish, sh[i], seed + i, ng)] : ish \in {<<1>>, <<3>>, <<2, 2>>}, seed \in 1..2, ng \in BOOLEAN} : k \in 1..R}
\* index lists whose rows are pairwise distinct positions: walk the leading positions backwards
PutLists == UNION {LET pre == SubSeq(sh, 1, k) n == Prod(pre) m == MinI(n, 3) IN
              {[i \in 1..k |-> [s |-> <<m>>, d |-> [j \in 1..m |-> LET v == Unravel(n - j, pre)[i] IN IF ng /\ j % 2 = 1 THEN v - sh[i] ELSE v]]] : ng \in BOOLEAN} : k \in 1..R}
IndexCases ==
  UNION {
    {Call("index", <<T0>>, V, <<q>>, <<Index(T0, q)>>) : q \in IxTuples},
    UNION {LET rest == SubSeq(sh, Len(q) + 1, R) IN
           {CallI("indexPut_", <<T0, v>>, <<"v", "v">>, <<q>>, <<IndexPut(T0, q, v)>>) : v \in {Scalar(77), Ramp(rest, 60)}} : q \in IxTuples},
    {Call("indexAdvance", <<T0>> \o xs, V \o [i \in 1..Len(xs) |-> "i64"], <<>>, <<IndexAdvance(T0, xs)>>) : xs \in IdxLists},
    UNION {LET rest == SubSeq(sh, Len(xs) + 1, R) IN
           {CallI("indexPutAdvance_", <<T0, v>> \o xs, <<"v", "v">> \o [i \in 1..Len(xs) |-> "i64"], <<>>, <<IndexPutAdvance(T0, xs, v)>>)
              : v \in {Scalar(77), Ramp(xs[1].s \o rest, 60)}} : xs \in PutLists},
    {Call("expand", <<T0>>, V, <<q>>, <<Expand(T0, q)>>)
       : q \in UNION {{pre \o [i \in 1..R |-> IF sh[i] = 1 THEN (IF i \in S THEN -1 ELSE 2 + (i % 2)) ELSE IF i \in S THEN -1 ELSE sh[i]] : S \in SUBSET (1..R)}
                       : pre \in {<<>>, <<1>>, <<2>>, <<2, 3>>}}}
  }
RangeCases ==
  IF sh # <<>> THEN {} ELSE
  UNION {
    {Call("arangei", <<>>, <<>>, <<<<a, b, st>>>>, <<Arange(a, b, st)>>) : <<a, b, st>> \in {<<a, b, st>> \in (-2..2) \X (-3..5) \X {-2, -1, 1, 2, 3} : (b - a) * st > 0}},
    {Call("linspacei", <<>>, <<>>, <<<<a, b, n>>>>, <<Linspace(a, b, n)>>) : <<a, b, n>> \in {<<a, b, n>> \in (-3..3) \X (-3..5) \X (1..5) : n = 1 \/ (b - a) % (n - 1) = 0}},
    {[Call("arangef", <<>>, <<>>, <<>>, <<Arange(a, b, st)>>) EXCEPT !.fl = <<a, b, st>>] : <<a, b, st>> \in {<<a, b, st>> \in (-2..2) \X (-3..5) \X {-2, -1, 1, 2} : (b - a) * st > 0}},
    {[Call("linspacef", <<>>, <<>>, <<<<n>>>>, <<Linspace(a, b, n)>>) EXCEPT !.fl = <<a, b>>] : <<a, b, n>> \in {<<a, b, n>> \in (-3..3) \X (-3..5) \X (1..5) : n = 1 \/ (b - a) % (n - 1) = 0}}
  }
FillCases ==
  UNION {
    {[CallI("fill_", <<T0>>, V, <<>>, <<Map1(T0, LAMBDA x : 5)>>) EXCEPT !.fl = <<5>>],
     CallI("fillZero_", <<T0>>, V, <<>>, <<Map1(T0, LAMBDA x : 0)>>), CallI("fillOne_", <<T0>>, V, <<>>, <<Map1(T0, LAMBDA x : 1)>>),
     Call("onesLike", <<T0>>, V, <<>>, <<Map1(T0, LAMBDA x : 1)>>), Call("zerosLike", <<T0>>, V, <<>>, <<Map1(T0, LAMBDA x : 0)>>),
     [Call("fullLike", <<T0>>, V, <<>>, <<Map1(T0, LAMBDA x : 3)>>) EXCEPT !.fl = <<3>>],
     Call("zeros", <<>>, <<>>, <<sh>>, <<Map1(T0, LAMBDA x : 0)>>), Call("ones", <<>>, <<>>, <<sh>>, <<Map1(T0, LAMBDA x : 1)>>),
     [Call("full", <<>>, <<>>, <<sh>>, <<Map1(T0, LAMBDA x : 7)>>) EXCEPT !.fl = <<7>>],
     Call("clone", <<T0>>, V, <<>>, <<T0>>)},
    {CallI("fillOffset_", <<T0, Scalar(77)>>, <<"v", "v">>, <<<<o, n>>>>, <<[T0 EXCEPT !.d = [k \in 1..Len(T0.d) |-> IF k > o /\ k <= o + n THEN 77 ELSE T0.d[k]]]>>)
        : <<o, n>> \in {<<o, n>> \in (IF Prod(sh) <= 40 THEN 0..Prod(sh) ELSE {0, 1, Prod(sh) \div 2}) \X (0..3) : o + n <= Prod(sh)}}
  }

\* zero-extent operands only go through operations whose arguments stay legal
Empty == 0 \in Range(sh)
CasesFor(f) ==
  CASE f = "shape" -> IF Empty THEN {Call("reshape", <<T0>>, V, <<<<0>>>>, <<Reshape(T0, <<0>>)>>)} ELSE ShapeCases
    [] f = "perm" -> PermCases
    [] f = "slice" -> IF Empty THEN {} ELSE SliceCases
    [] f = "join" -> JoinCases
    [] f = "gather" -> IF Empty THEN {} ELSE GatherCases
    [] f = "index" -> IF Empty THEN {} ELSE IndexCases
    [] f = "range" -> RangeCases
    [] f = "fill" -> FillCases

Init == /\ sh \in ShapesOf(Ranks, Exts, MaxNumel) /\ fam \in Fams /\ c = [op |-> "none"]
Next == c.op = "none" /\ c' \in CasesFor(fam) /\ UNCHANGED <<sh, fam>>

-----------------------------------------------------------------------------
Answered == c.op # "none"
\* the model's own sanity: results are well formed, and operations that only rearrange keep every element
TypeOK == Answered => /\ \A i \in 1..Len(c.exp) : WellFormed(c.exp[i])
                      /\ \A i \in 1..Len(c.ins) : WellFormed(c.ins[i])
Rearranges == {"reshape", "view", "reshape_", "flatten", "squeeze", "unsqueeze", "unflatten", "permute", "permuteAll", "transpose", "t", "concat", "stack", "split", "splitSections", "chunk"}
Multiset(ts) == LET all == FoldLeft(LAMBDA a, t : a \o t.d, <<>>, ts) IN SetToSortSeq({<<all[i], i>> : i \in 1..Len(all)}, LAMBDA p, q : p[1] < q[1] \/ (p[1] = q[1] /\ p[2] < q[2]))
RearrangeLaw == (Answered /\ c.op \in Rearranges) =>
   LET a == Multiset(c.ins) b == Multiset(c.exp) IN [i \in 1..Len(a) |-> a[i][1]] = [i \in 1..Len(b) |-> b[i][1]]
SelfInverse == (Answered /\ c.op = "transpose") => Transpose(c.exp[1], c.il[1][1], c.il[1][2]) = c.ins[1]
SplitJoin == (Answered /\ c.op \in {"split", "splitSections", "chunk"}) => Concat(c.exp, c.il[Len(c.il)][Len(c.il[Len(c.il)])]) = c.ins[1]
Emit == Answered => PrintT(ToJson(c))
=============================================================================
