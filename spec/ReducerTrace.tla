---------------------------- MODULE ReducerTrace -----------------------------
(* Accepts recorded runs of data-parallel training.  A trace gives the declaration, the steps, and for every rank  *)
(* and step the collectives it took part in (kind, argument, values it contributed) and afterwards all parameters  *)
(* and gradients (whole numbers; << >> for none).                                                                   *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, k, val, grad, cap
vars == <<tr, k, val, grad, cap>>
T == Traces[tr]
W == 1 .. T.world
P == 1 .. Len(T.size)
Rg == {p \in P : T.rg[p] = 1}
Gv(r, p, t, i) == 12 * (((p - 1) * 16 + i) * 5 + (r - 1) + 3 * t)
G(r, p, t) == [i \in 1 .. T.size[p] |-> Gv(r, p, t, i - 1)]
Iv(r, p) == [i \in 1 .. T.size[p] |-> (r - 1) * 1000 + (p - 1) * 16 + i - 1]
Plus(a, b) == [i \in 1 .. Len(b) |-> IF a = << >> THEN b[i] ELSE a[i] + b[i]]
RECURSIVE Cat(_, _)
Cat(r, n) == IF n = 0 THEN << >> ELSE Cat(r, n - 1) \o T.ops[r][k][n].d     \* all values of the first n collectives
Count(s, v) == Cardinality({i \in 1 .. Len(s) : s[i] = v})
Bag(a, b) == \E s \in {a}, u \in {b} : Len(s) = Len(u) /\ \A i \in 1 .. Len(s) : Count(s, s[i]) = Count(u, s[i])
SubBag(a, b) == \E s \in {a}, u \in {b} : \A i \in 1 .. Len(s) : Count(s, s[i]) <= Count(u, s[i])
RECURSIVE All(_, _)
All(f, p) == IF p = 0 THEN << >> ELSE All(f, p - 1) \o f[p]      \* all values of the gradient-requiring parameters
Of(f) == TLCEval(All([p \in P |-> IF p \in Rg THEN f[p] ELSE << >>], Len(T.size)))
RECURSIVE SumR(_, _, _, _)
SumR(f, r, p, i) == IF r = 0 THEN 0 ELSE f[r][p][i] + SumR(f, r - 1, p, i)
St == T.steps[k]
Ops(r) == T.ops[r][k]
See(r) == T.see[r][k]
\* the k-th collectives of all ranks are one: same kind, argument, length
Aligned == \A r, s \in W : /\ Len(Ops(r)) = Len(Ops(s))
                           /\ \A j \in 1 .. Len(Ops(r)) : /\ Ops(r)[j].k = Ops(s)[j].k /\ Ops(r)[j].a = Ops(s)[j].a
                                                          /\ Len(Ops(r)[j].d) = Len(Ops(s)[j].d)
Silent == \A r \in W : Ops(r) = << >>
Keep == val' = val /\ \A r \in W : See(r).v = val[r]
Local == TLCEval([r \in W |-> [p \in P |-> IF \E i \in 1 .. Len(St.ord[r]) : St.ord[r][i] = p
                                   THEN Plus(IF St.zero = 1 THEN << >> ELSE grad[r][p], G(r, p, St.t))
                                   ELSE IF St.zero = 1 /\ p \in Rg THEN [i \in 1 .. T.size[p] |-> 0] ELSE grad[r][p]]])
Avg(f) == [r \in W |-> [p \in P |-> IF p \in Rg THEN [i \in 1 .. T.size[p] |-> SumR(f, T.world, p, i) \div T.world] ELSE << >>]]
\* the bytes of a bucket stay within the capacity, unless it is a single parameter's
Fits(r, o, f) == IF 4 * Len(o.d) <= cap THEN TRUE ELSE \E p \in Rg : Bag(o.d, f[r][p])
Full == \A r \in W : {St.ord[r][i] : i \in 1 .. Len(St.ord[r])} = Rg
Make == /\ St.k = "make" /\ cap' = St.cap /\ Aligned
        /\ \A r \in W : \A j \in 1 .. Len(Ops(r)) : Ops(r)[j].k = "broadcast" /\ Ops(r)[j].a = St.root
        /\ val' = [r \in W |-> val[St.root + 1]] /\ grad' = grad
        /\ \A r \in W : See(r).v = val'[r] /\ See(r).g = grad'[r]
PassWith(loc) ==
        /\ IF cap = 0 THEN Silent /\ grad' = loc
           ELSE /\ Aligned
                /\ \A r \in W : \A j \in 1 .. Len(Ops(r)) : Ops(r)[j].k = "reduce" /\ Ops(r)[j].a \in {1, 2} /\ Fits(r, Ops(r)[j], loc) = TRUE
                /\ IF Full THEN /\ grad' = (IF Rg = {} THEN loc ELSE TLCEval(Avg(loc)))
                                /\ \A r \in W : Bag(Cat(r, Len(Ops(r))), Of(loc[r]))
                   ELSE /\ grad' = loc
                        /\ \A r \in W : SubBag(Cat(r, Len(Ops(r))), Of(loc[r]))
        /\ \A r \in W : See(r).g = grad'[r]
Pass == /\ St.k = "pass" /\ Keep /\ cap' = cap /\ \E loc \in {Local} : PassWith(loc)
Other == /\ St.k \in {"eval", "drop"} /\ Silent /\ Keep /\ grad' = grad /\ cap' = (IF St.k = "drop" THEN 0 ELSE cap)
         /\ \A r \in W : See(r).g = grad'[r]
Init == /\ tr \in 1 .. Len(Traces) /\ k = 1 /\ cap = 0
        /\ val = [r \in W |-> [p \in P |-> Iv(r, p)]] /\ grad = [r \in W |-> [p \in P |-> << >>]]
More == k <= Len(T.steps)
Next == More /\ (Make \/ Pass \/ Other) /\ k' = k + 1 /\ tr' = tr
Spec == Init /\ [][Next]_vars
Report == ~More => PrintT(ToJson([ok |-> tr]))
=============================================================================
