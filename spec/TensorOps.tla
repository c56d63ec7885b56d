----------------------------- MODULE TensorOps -----------------------------
(* The meaning of tensor operations, independent of any implementation.      *)
(* A tensor is [s |-> shape, d |-> elements in row-major order]; elements    *)
(* are integers (or, in module Terms, symbolic real terms: every operator    *)
(* below that only moves elements is agnostic about what they are).          *)
(* Every operation is defined by saying, for each position of the result,    *)
(* which operand positions it is made of -- never by a traversal order.      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt, TLC

Prod(s) == FoldLeft(LAMBDA a, b : a * b, 1, s)
SumSeq(s) == FoldLeft(LAMBDA a, b : a + b, 0, s)
Iota(n) == [i \in 1..n |-> i]
MaxI(a, b) == IF a >= b THEN a ELSE b
MinI(a, b) == IF a <= b THEN a ELSE b
AbsI(a) == IF a < 0 THEN -a ELSE a
Sgn(a) == IF a < 0 THEN -1 ELSE IF a > 0 THEN 1 ELSE 0
RECURSIVE PowI(_, _)
PowI(a, n) == IF n = 0 THEN 1 ELSE a * PowI(a, n - 1)

\* positions are sequences of 0-based coordinates
Unravel(k, s) == [i \in 1..Len(s) |-> (k \div Prod(SubSeq(s, i + 1, Len(s)))) % s[i]]
Ravel(ix, s) == FoldLeft(LAMBDA acc, i : acc * s[i] + ix[i], 0, Iota(Len(s)))

Rank(t) == Len(t.s)
Numel(t) == Prod(t.s)
At(t, ix) == t.d[Ravel(ix, t.s) + 1]
Mk(s, F(_)) == [s |-> s, d |-> [k \in 1..Prod(s) |-> F(Unravel(k - 1, s))]]
Positions(s) == {Unravel(k - 1, s) : k \in 1..Prod(s)}
Scalar(v) == [s |-> <<>>, d |-> <<v>>]
WellFormed(t) == Len(t.d) = Prod(t.s)

\* dimension arguments may be negative; 1-based position of dimension d in rank n
Dim(d, n) == IF d < 0 THEN d + n + 1 ELSE d + 1
ValidDim(d, n) == d >= -n /\ d < n

Replace(s, i, v) == [s EXCEPT ![i] = v]
RemoveAt1(s, i) == SubSeq(s, 1, i - 1) \o SubSeq(s, i + 1, Len(s))
InsertAt1(s, i, v) == SubSeq(s, 1, i - 1) \o <<v>> \o SubSeq(s, i, Len(s))

-----------------------------------------------------------------------------
(* shape changes: elements keep their row-major order *)

InferShape(sh, n) ==
  IF -1 \in Range(sh)
  THEN LET known == Prod([i \in 1..Len(sh) |-> IF sh[i] = -1 THEN 1 ELSE sh[i]])
       IN [i \in 1..Len(sh) |-> IF sh[i] = -1 THEN n \div known ELSE sh[i]]
  ELSE sh
Reshape(t, sh) == [t EXCEPT !.s = InferShape(sh, Numel(t))]

Flatten(t, a, b) ==
  IF Rank(t) = 0 THEN [t EXCEPT !.s = <<1>>]
  ELSE LET i == Dim(a, Rank(t)) j == Dim(b, Rank(t))
       IN [t EXCEPT !.s = SubSeq(t.s, 1, i - 1) \o <<Prod(SubSeq(t.s, i, j))>> \o SubSeq(t.s, j + 1, Rank(t))]
Unflatten(t, d, sh) ==
  LET i == Dim(d, Rank(t))
  IN [t EXCEPT !.s = SubSeq(t.s, 1, i - 1) \o InferShape(sh, t.s[i]) \o SubSeq(t.s, i + 1, Rank(t))]
\* remove the listed dimensions that have extent 1; no list = all of them
Squeeze(t, dims) ==
  LET drop(i) == t.s[i] = 1 /\ (dims = <<>> \/ \E k \in 1..Len(dims) : Dim(dims[k], Rank(t)) = i)
  IN [t EXCEPT !.s = FoldLeft(LAMBDA acc, i : IF drop(i) THEN acc ELSE Append(acc, t.s[i]), <<>>, Iota(Rank(t)))]
Unsqueeze(t, d) == [t EXCEPT !.s = InsertAt1(t.s, Dim(d, Rank(t) + 1), 1)]

-----------------------------------------------------------------------------
(* permutations of dimensions *)

\* dims[i] (0-based, maybe negative) is the source dimension of result dimension i
Permute(t, dims) ==
  LET n == Rank(t)
      src(i) == Dim(dims[i], n)
      sh == [i \in 1..n |-> t.s[src(i)]]
      F(ix) == At(t, [j \in 1..n |-> ix[CHOOSE i \in 1..n : src(i) = j]])
  IN Mk(sh, F)
PermuteAll(t) == Permute(t, [i \in 1..Rank(t) |-> Rank(t) - i])
TransposeDims(n, d0, d1) ==
  LET a == Dim(d0, n) b == Dim(d1, n)
  IN [i \in 1..n |-> (IF i = a THEN b ELSE IF i = b THEN a ELSE i) - 1]
Transpose(t, d0, d1) == Permute(t, TransposeDims(Rank(t), d0, d1))

-----------------------------------------------------------------------------
(* slicing and joining *)

Narrow(t, d, start, len) ==
  LET i == Dim(d, Rank(t))
      st == IF start < 0 THEN start + t.s[i] ELSE start
      F(ix) == At(t, Replace(ix, i, ix[i] + st))
  IN Mk(Replace(t.s, i, len), F)
SplitSections(t, secs, d) ==
  [k \in 1..Len(secs) |-> Narrow(t, d, SumSeq(SubSeq(secs, 1, k - 1)), secs[k])]
Split(t, size, d) ==
  LET n == t.s[Dim(d, Rank(t))] IN SplitSections(t, [k \in 1..(n \div size) |-> size], d)
\* pieces of ceil(n/chunks); the last one may be smaller
Chunk(t, chunks, d) ==
  LET n == t.s[Dim(d, Rank(t))]
      c == MinI(chunks, n)
      sz == (n + c - 1) \div c
      cnt == (n + sz - 1) \div sz
  IN SplitSections(t, [k \in 1..cnt |-> MinI(sz, n - (k - 1) * sz)], d)

ConcatD(ts, i) ==    \* along 1-based dimension i
  LET ext == [k \in 1..Len(ts) |-> ts[k].s[i]]
      start(k) == SumSeq(SubSeq(ext, 1, k - 1))
      F(ix) == LET k == CHOOSE k \in 1..Len(ts) : start(k) <= ix[i] /\ ix[i] < start(k) + ext[k]
               IN At(ts[k], Replace(ix, i, ix[i] - start(k)))
  IN Mk(Replace(ts[1].s, i, SumSeq(ext)), F)
Concat(ts, d) == ConcatD(ts, Dim(d, Rank(ts[1])))
Stack(ts, d) ==
  LET i == Dim(d, Rank(ts[1]) + 1)
      F(ix) == At(ts[ix[i] + 1], RemoveAt1(ix, i))
  IN Mk(InsertAt1(ts[1].s, i, Len(ts)), F)
HStack(ts) == IF Rank(ts[1]) = 1 THEN Concat(ts, 0) ELSE Concat(ts, 1)
VStack(ts) == IF Rank(ts[1]) = 1 THEN Stack(ts, 0) ELSE Concat(ts, 0)

-----------------------------------------------------------------------------
(* indexing *)

Wrap(v, n) == IF v < 0 THEN v + n ELSE v
Gather(t, d, idx) ==
  LET i == Dim(d, Rank(t))
      F(ix) == At(t, Replace(ix, i, Wrap(At(idx, ix), t.s[i])))
  IN Mk(idx.s, F)
\* positions of t named by idx receive src; later index positions win (only distinct targets are required by callers)
Scatter(t, d, idx, src) ==
  LET i == Dim(d, Rank(t))
      n == Numel(idx)
      tgt(k) == LET p == Unravel(k - 1, idx.s) IN Ravel(Replace(p, i, Wrap(idx.d[k], t.s[i])), t.s) + 1
      \* src is indexed by position in idx (same shape)
      hit(q) == {k \in 1..n : tgt(k) = q}
  IN [t EXCEPT !.d = [q \in 1..Numel(t) |-> IF hit(q) = {} THEN t.d[q] ELSE src.d[Max(hit(q))]]]
Index(t, ixs) ==
  LET k == Len(ixs)
      pre == [i \in 1..k |-> Wrap(ixs[i], t.s[i])]
      F(ix) == At(t, pre \o ix)
  IN Mk(SubSeq(t.s, k + 1, Rank(t)), F)
IndexAdvance(t, idxs) ==
  LET k == Len(idxs) m == Rank(idxs[1])
      F(ix) == LET p == SubSeq(ix, 1, m)
               IN At(t, [i \in 1..k |-> Wrap(At(idxs[i], p), t.s[i])] \o SubSeq(ix, m + 1, Len(ix)))
  IN Mk(idxs[1].s \o SubSeq(t.s, k + 1, Rank(t)), F)
IndexPut(t, ixs, val) ==
  LET k == Len(ixs)
      pre == [i \in 1..k |-> Wrap(ixs[i], t.s[i])]
      F(ix) == IF SubSeq(ix, 1, k) = pre
               THEN IF val.s = <<>> THEN val.d[1] ELSE val.d[Ravel(SubSeq(ix, k + 1, Len(ix)), SubSeq(t.s, k + 1, Rank(t))) + 1]
               ELSE At(t, ix)
  IN Mk(t.s, F)
IndexPutAdvance(t, idxs, val) ==
  LET k == Len(idxs) n == Numel(idxs[1])
      rest == SubSeq(t.s, k + 1, Rank(t))
      row(j) == [i \in 1..k |-> Wrap(idxs[i].d[j], t.s[i])]
      F(ix) == LET hit == {j \in 1..n : row(j) = SubSeq(ix, 1, k)}
               IN IF hit = {} THEN At(t, ix)
                  ELSE IF val.s = <<>> THEN val.d[1]
                  ELSE val.d[(Max(hit) - 1) * Prod(rest) + Ravel(SubSeq(ix, k + 1, Len(ix)), rest) + 1]
  IN Mk(t.s, F)
IndexSelect(t, d, idx) ==
  LET i == Dim(d, Rank(t))
      F(ix) == At(t, Replace(ix, i, idx.d[ix[i] + 1]))
  IN Mk(Replace(t.s, i, Numel(idx)), F)
RepeatInterleave(t, r, d) ==
  LET i == Dim(d, Rank(t))
      F(ix) == At(t, Replace(ix, i, ix[i] \div r))
  IN Mk(Replace(t.s, i, t.s[i] * r), F)

\* diag >= 0 keeps diagonals above the main one
Tri(t, diag, lower, zero) ==
  LET n == Rank(t)
      F(ix) == IF (lower /\ ix[n] <= ix[n - 1] + diag) \/ (~lower /\ ix[n] >= ix[n - 1] + diag)
               THEN At(t, ix) ELSE zero
  IN Mk(t.s, F)

-----------------------------------------------------------------------------
(* broadcasting *)

Ext(s, i, n) == LET j == i - (n - Len(s)) IN IF j >= 1 THEN s[j] ELSE 1
Compatible(a, b) ==
  LET n == MaxI(Len(a), Len(b))
  IN \A i \in 1..n : LET x == Ext(a, i, n) y == Ext(b, i, n) IN x = y \/ x = 1 \/ y = 1
BShape(a, b) ==
  LET n == MaxI(Len(a), Len(b))
  IN [i \in 1..n |-> LET x == Ext(a, i, n) y == Ext(b, i, n) IN IF x = 1 THEN y ELSE x]
\* element of t seen at position ix of a larger shape
BAt(t, ix) == At(t, [j \in 1..Rank(t) |-> IF t.s[j] = 1 THEN 0 ELSE ix[Len(ix) - Rank(t) + j]])
Broadcast(t, s) == LET F(ix) == BAt(t, ix) IN Mk(s, F)
ExpandShape(t, sizes) ==
  LET n == Len(sizes) IN [i \in 1..n |-> IF sizes[i] = -1 THEN Ext(t.s, i, n) ELSE sizes[i]]
Expand(t, sizes) == Broadcast(t, ExpandShape(t, sizes))
Map1(t, G(_)) == [t EXCEPT !.d = [k \in 1..Len(t.d) |-> G(t.d[k])]]
Map2(a, b, G(_, _)) == LET F(ix) == G(BAt(a, ix), BAt(b, ix)) IN Mk(BShape(a.s, b.s), F)
Map3(a, b, c, G(_, _, _)) ==
  LET F(ix) == G(BAt(a, ix), BAt(b, ix), BAt(c, ix)) IN Mk(BShape(BShape(a.s, b.s), c.s), F)

-----------------------------------------------------------------------------
(* reductions: every result position collects the sequence of elements that  *)
(* differ from it only in the reduced dimensions                             *)

DimSet(dims, n) == {Dim(dims[k], n) : k \in 1..Len(dims)}
RedShape(s, D, keep) ==
  IF keep THEN [i \in 1..Len(s) |-> IF i \in D THEN 1 ELSE s[i]]
  ELSE FoldLeft(LAMBDA acc, i : IF i \in D THEN acc ELSE Append(acc, s[i]), <<>>, Iota(Len(s)))
\* full position from a kept position (rank n - |D|, in order) and a reduced one
Merge(s, D, kept, red) ==
  [i \in 1..Len(s) |-> IF i \in D THEN red[Cardinality({j \in D : j <= i})]
                       ELSE kept[Cardinality({j \in 1..i : j \notin D})]]
RedSizes(s, D) == FoldLeft(LAMBDA acc, i : IF i \in D THEN Append(acc, s[i]) ELSE acc, <<>>, Iota(Len(s)))
\* sequence of the reduced elements at kept position
Slice(t, D, kept) ==
  LET rs == RedSizes(t.s, D) IN [k \in 1..Prod(rs) |-> At(t, Merge(t.s, D, kept, Unravel(k - 1, rs)))]
ReduceWith(t, D, keep, G(_)) ==
  LET ks == RedShape(t.s, D, FALSE)
  IN [s |-> RedShape(t.s, D, keep), d |-> [k \in 1..Prod(ks) |-> G(Slice(t, D, Unravel(k - 1, ks)))]]
AllDims(t) == 1..Rank(t)

-----------------------------------------------------------------------------
(* matrix product with batch broadcasting; transposition swaps the last two  *)

Tr(t, flag) == IF flag /\ Rank(t) >= 2 THEN Transpose(t, -2, -1) ELSE t
Matmul(a0, b0, ta, tb, Plus(_, _), Times(_, _), zero) ==
  LET va == Rank(a0) = 1 vb == Rank(b0) = 1
      a == IF va THEN Unsqueeze(a0, 0) ELSE Tr(a0, ta)
      b == IF vb THEN Unsqueeze(b0, 1) ELSE Tr(b0, tb)
      na == Rank(a) nb == Rank(b)
      m == a.s[na - 1] kk == a.s[na] n == b.s[nb]
      ba == SubSeq(a.s, 1, na - 2) bb == SubSeq(b.s, 1, nb - 2)
      bs == BShape(ba, bb)
      coord(ix, s) == [j \in 1..Len(s) |-> IF s[j] = 1 THEN 0 ELSE ix[Len(bs) - Len(s) + j]]
      F(ix) == LET p == SubSeq(ix, 1, Len(bs)) i == ix[Len(bs) + 1] j == ix[Len(bs) + 2]
                   pa == coord(p, ba) pb == coord(p, bb)
               IN FoldLeft(LAMBDA acc, q : Plus(acc, Times(At(a, pa \o <<i, q - 1>>), At(b, pb \o <<q - 1, j>>))), zero, Iota(kk))
      r == Mk(bs \o <<m, n>>, F)
      r1 == IF va THEN [r EXCEPT !.s = RemoveAt1(r.s, Len(bs) + 1)] ELSE r
  IN IF vb THEN [r1 EXCEPT !.s = SubSeq(r1.s, 1, Len(r1.s) - 1)] ELSE r1

IMatmul(a, b, ta, tb) == Matmul(a, b, ta, tb, LAMBDA x, y : x + y, LAMBDA x, y : x * y, 0)

-----------------------------------------------------------------------------
(* range constructors *)
CeilDiv(a, b) == IF b > 0 THEN (a + b - 1) \div b ELSE (-a + (-b) - 1) \div (-b)
Arange(a, b, st) == LET n == MaxI(0, CeilDiv(b - a, st)) IN [s |-> <<n>>, d |-> [k \in 1..n |-> a + (k - 1) * st]]
Linspace(a, b, n) ==   \* only used where the step divides
  LET st == IF n > 1 THEN (b - a) \div (n - 1) ELSE 0 IN [s |-> <<n>>, d |-> [k \in 1..n |-> a + (k - 1) * st]]
=============================================================================
