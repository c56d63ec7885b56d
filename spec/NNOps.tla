-------------------------------- MODULE NNOps --------------------------------
(* Layers and losses, defined position by position over any kind of number:  *)
(* integers, symbolic reals (Terms), or either of these together with their  *)
(* derivatives (duals).                                                      *)
EXTENDS TensorOps
CONSTANTS Num(_),          \* the number for an integer or a term
          Plus(_, _), Minus(_, _), Times(_, _), Over(_, _), ExpN(_), LogN(_), SqrtN(_),
          SumOf(_),        \* sum of a sequence
          Greater(_, _),   \* order, for the places that select
          MaxTerm(_)       \* a number near the largest of a sequence whose derivative does not matter

Neg(x) == Minus(Num(0), x)
Linear(x, w, b) ==         \* the last dimension of x against the rows of w
  LET n == x.s[Len(x.s)] lead == SubSeq(x.s, 1, Len(x.s) - 1)
      F(ix) == LET pre == SubSeq(ix, 1, Len(ix) - 1) o == ix[Len(ix)]
                   p == SumOf([i \in 1..n |-> Times(At(x, pre \o <<i - 1>>), At(w, <<o, i - 1>>))])
               IN IF b = <<>> THEN p ELSE Plus(p, At(b[1], <<o>>))
  IN Mk(lead \o <<w.s[1]>>, F)

OutExt(n, k, st, pad) == ((n - k + 2 * pad) \div st) + 1
\* input positions (row, column) seen by output position (i, j)
Window(H, W, k, st, pad, i, j) ==
  SelectSeq([n \in 1..(k[1] * k[2]) |-> <<i * st[1] + ((n - 1) \div k[2]) - pad[1], j * st[2] + ((n - 1) % k[2]) - pad[2], (n - 1) \div k[2], (n - 1) % k[2]>>],
            LAMBDA p : p[1] >= 0 /\ p[1] < H /\ p[2] >= 0 /\ p[2] < W)
Conv2d(x, w, b, st, pad) ==
  LET k == <<w.s[3], w.s[4]>> C == w.s[2]
      sh == <<x.s[1], w.s[1], OutExt(x.s[3], k[1], st[1], pad[1]), OutExt(x.s[4], k[2], st[2], pad[2])>>
      F(ix) == LET win == Window(x.s[3], x.s[4], k, st, pad, ix[3], ix[4])
                   n == Len(win)
                   p == SumOf([q \in 1..(C * n) |-> LET c == (q - 1) \div n e == win[((q - 1) % n) + 1]
                                                   IN Times(At(x, <<ix[1], c, e[1], e[2]>>), At(w, <<ix[2], c, e[3], e[4]>>))])
               IN IF b = <<>> THEN p ELSE Plus(p, At(b[1], <<ix[2]>>))
  IN Mk(sh, F)
MaxOfSeq(q) == q[CHOOSE k \in 1..Len(q) : \A j \in 1..Len(q) : ~Greater(q[j], q[k])]
MaxPool2d(x, k, st, pad) ==     \* padding is no candidate
  LET n == Len(x.s) lead == SubSeq(x.s, 1, n - 2)
      F(ix) == LET win == Window(x.s[n - 1], x.s[n], k, st, pad, ix[n - 1], ix[n])
               IN MaxOfSeq([q \in 1..Len(win) |-> At(x, SubSeq(ix, 1, n - 2) \o <<win[q][1], win[q][2]>>)])
  IN Mk(lead \o <<OutExt(x.s[n - 1], k[1], st[1], pad[1]), OutExt(x.s[n], k[2], st[2], pad[2])>>, F)
Relu(x) == Map1(x, LAMBDA e : IF Greater(e, Num(0)) THEN e ELSE Num(0))

Along(x, ix, i) == [k \in 1..x.s[i] |-> At(x, Replace(ix, i, k - 1))]
Softmax(x, d) ==
  LET i == Dim(d, Rank(x))
      F(ix) == LET a == Along(x, ix, i) mx == MaxTerm(a)
                   e(k) == ExpN(Minus(a[k], mx))
               IN Over(e(ix[i] + 1), SumOf([k \in 1..Len(a) |-> e(k)]))
  IN Mk(x.s, F)
LogSoftmax(x, d) ==
  LET i == Dim(d, Rank(x))
      F(ix) == LET a == Along(x, ix, i) mx == MaxTerm(a)
               IN Minus(Minus(At(x, ix), mx), LogN(SumOf([k \in 1..Len(a) |-> ExpN(Minus(a[k], mx))])))
  IN Mk(x.s, F)
MeanOf(a) == Over(SumOf(a), Num(Len(a)))
Square(e) == Times(e, e)
\* over the last dimension; gamma, beta are <<>> or <<tensor>>
LayerNorm(x, gamma, beta, eps) ==
  LET r == Rank(x)
      F(ix) == LET a == Along(x, ix, r) mu == MeanOf(a) var == MeanOf([k \in 1..Len(a) |-> Square(Minus(a[k], mu))])
                   y == Over(Minus(At(x, ix), mu), SqrtN(Plus(var, eps)))
                   z == IF gamma = <<>> THEN y ELSE Times(y, At(gamma[1], <<ix[r]>>))
               IN IF beta = <<>> THEN z ELSE Plus(z, At(beta[1], <<ix[r]>>))
  IN Mk(x.s, F)
RMSNorm(x, gamma, eps) ==
  LET r == Rank(x)
      F(ix) == LET a == Along(x, ix, r)
                   y == Over(At(x, ix), SqrtN(Plus(MeanOf([k \in 1..Len(a) |-> Square(a[k])]), eps)))
               IN IF gamma = <<>> THEN y ELSE Times(y, At(gamma[1], <<ix[r]>>))
  IN Mk(x.s, F)
Embedding(idx, w) == LET F(ix) == At(w, <<At(idx, SubSeq(ix, 1, Len(ix) - 1)), ix[Len(ix)]>>) IN Mk(idx.s \o <<w.s[2]>>, F)

\* reductions of losses: 0 none, 1 mean, 2 sum
Reduced(t, red) == CASE red = 0 -> t [] red = 1 -> [s |-> <<>>, d |-> <<MeanOf(t.d)>>] [] red = 2 -> [s |-> <<>>, d |-> <<SumOf(t.d)>>]
MSE(x, t, red) == Reduced(Map2(x, t, LAMBDA a, b : Square(Minus(a, b))), red)
NLL(x, target, red) == LET F(ix) == Neg(At(x, ix \o <<At(target, ix)>>)) IN Reduced(Mk(<<x.s[1]>>, F), red)

\* attention over the last two dimensions (sequence, feature); mask <<>> or <<additive tensor of allowed/bias>>
\* Allowed(q, k): may query q look at key k;  Bias(ix, k): added to the score
Attention(q, k, v, scale, Allowed(_, _), Bias(_, _)) ==
  LET n == Rank(q) d == q.s[n] S == k.s[n - 1]
      F(ix) == LET lead == SubSeq(ix, 1, n - 2) row == ix[n - 1]
                   keys == SelectSeq([j \in 1..S |-> j - 1], LAMBDA j : Allowed(ix, j))
                   score(j) == Plus(Times(scale, SumOf([c \in 1..d |-> Times(At(q, lead \o <<row, c - 1>>), At(k, lead \o <<j, c - 1>>))])), Bias(ix, j))
                   sc == [m \in 1..Len(keys) |-> score(keys[m])]
                   mx == MaxTerm(sc)
                   w == [m \in 1..Len(keys) |-> ExpN(Minus(sc[m], mx))]
               IN Over(SumOf([m \in 1..Len(keys) |-> Times(w[m], At(v, lead \o <<keys[m], ix[n]>>))]), SumOf(w))
  IN Mk(SubSeq(q.s, 1, n - 1) \o <<v.s[n]>>, F)
=============================================================================
