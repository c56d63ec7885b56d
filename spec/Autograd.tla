------------------------------ MODULE Autograd ------------------------------
(* A01, A03, A04, A05: programs over named tensors with gradient recording.  *)
(* Every element carries its value and its derivative with respect to every  *)
(* element of every leaf, propagated forwards through the definition of each *)
(* operation (dual numbers over the integers).  What backward must leave in  *)
(* a leaf is read off these derivatives; no order of traversal, no graph and *)
(* no accumulation scheme is mentioned.                                      *)
EXTENDS TensorOps, Json
CONSTANTS LeafShapes,    \* shapes of the initial tensors
          LeafRG,        \* which of them require gradient
          OpSet,         \* operations used
          Steps,         \* length of a program (without the final step)
          Plan,          \* <<>> for free programs, else the kinds of steps
          MaxRegs, Feats,
          Sampled        \* draw one application per step at random instead of considering all
VARIABLES reg,           \* name -> tensor of duals with flags, or Dead
          grad,          \* leaf -> [def, recv, t]
          depth,         \* open no-gradient scopes (this thread)
          other,         \* open no-gradient scope on another thread
          hooks,         \* leaf -> sequence of labels
          nhook, up, spent, log, done
vars == <<reg, grad, depth, other, hooks, nhook, up, spent, log, done>>

NL == Len(LeafShapes)
LeafName == <<"a", "b", "c">>
Leaves == {LeafName[i] : i \in {k \in 1..NL : LeafRG[k]}}
LeafIdx(n) == CHOOSE i \in 1..NL : LeafName[i] = n
Off(i) == SumSeq([k \in 1..(i - 1) |-> Prod(LeafShapes[k])])
N == Off(NL + 1)
Temps == <<"t1", "t2", "t3", "t4", "t5", "t6">>
Names == {LeafName[i] : i \in 1..NL} \cup {Temps[i] : i \in 1..MaxRegs}
Dead == [t |-> [s |-> <<>>, d |-> <<>>], rg |-> FALSE, leaf |-> FALSE, dep |-> {}, anc |-> {}]
Live == {n \in Names : reg[n] # Dead}

(* dual numbers *)
Zero == [n \in 1..N |-> 0]
K(v) == [v |-> v, j |-> Zero]
DAdd(x, y) == [v |-> x.v + y.v, j |-> [n \in 1..N |-> x.j[n] + y.j[n]]]
DSub(x, y) == [v |-> x.v - y.v, j |-> [n \in 1..N |-> x.j[n] - y.j[n]]]
DMul(x, y) == [v |-> x.v * y.v, j |-> [n \in 1..N |-> x.v * y.j[n] + y.v * x.j[n]]]
DScale(k, x) == [v |-> k * x.v, j |-> [n \in 1..N |-> k * x.j[n]]]
DSum(s) == FoldLeft(DAdd, K(0), s)
DRelu(x) == IF x.v > 0 THEN x ELSE K(0)
Plain(t) == [s |-> t.s, d |-> [k \in 1..Len(t.d) |-> t.d[k].v]]
Const(t) == [s |-> t.s, d |-> [k \in 1..Len(t.d) |-> K(t.d[k])]]
Freeze(t) == Const(Plain(t))

LeafVal(i) == [k \in 1..Prod(LeafShapes[i]) |-> ((i * 5 + k * 3) % 7) - 3 + (IF ((i * 5 + k * 3) % 7) = 3 THEN 5 ELSE 0)]
LeafTensor(i, vals) == [s |-> LeafShapes[i], d |-> [k \in 1..Prod(LeafShapes[i]) |->
                        [v |-> vals[k], j |-> [n \in 1..N |-> IF LeafRG[i] /\ n = Off(i) + k THEN 1 ELSE 0]]]]
LeafReg(i, vals) == [t |-> LeafTensor(i, vals), rg |-> LeafRG[i], leaf |-> TRUE, dep |-> IF LeafRG[i] THEN {LeafName[i]} ELSE {}, anc |-> {}]
NoGrad == [def |-> FALSE, recv |-> FALSE, t |-> [s |-> <<>>, d |-> <<>>]]
Init == /\ reg = [n \in Names |-> IF \E i \in 1..NL : LeafName[i] = n THEN LeafReg(LeafIdx(n), LeafVal(LeafIdx(n))) ELSE Dead]
        /\ grad = [l \in Leaves |-> NoGrad] /\ depth = 0 /\ other = FALSE /\ hooks = [l \in Leaves |-> <<>>] /\ nhook = 0
        /\ up = FALSE /\ spent = {} /\ log = <<>> /\ done = FALSE

(* the operations: name, operands, integer lists, floats, value as a tensor of duals, whether its record serves one backward pass only *)
T(n) == reg[n].t
A(name, ins, il, fl, t, once) == [op |-> name, ins |-> ins, il |-> il, fl |-> fl, t |-> t, once |-> once]
CanBroadcast(s, u) == \A i \in 1..MinI(Len(s), Len(u)) : LET p == s[Len(s) + 1 - i] q == u[Len(u) + 1 - i] IN p = q \/ p = 1 \/ q = 1
Binary == {p \in Live \X Live : CanBroadcast(T(p[1]).s, T(p[2]).s)}
LinearD(x, w, b) ==    \* last dimension of x against rows of w
  LET lead == SubSeq(x.s, 1, Len(x.s) - 1) n == x.s[Len(x.s)] m == w.s[1]
      F(ix) == LET o == ix[Len(ix)] + 1 pre == SubSeq(ix, 1, Len(ix) - 1)
               IN DAdd(DSum([i \in 1..n |-> DMul(At(x, pre \o <<i - 1>>), At(w, <<o - 1, i - 1>>))]), IF b = <<>> THEN K(0) ELSE At(b[1], <<o - 1>>))
  IN Mk(lead \o <<m>>, F)
Apps(O) ==
  (IF "add" \in O THEN {A("add", <<p[1], p[2]>>, <<>>, <<>>, Map2(T(p[1]), T(p[2]), DAdd), FALSE) : p \in Binary} ELSE {})
  \cup (IF "sub" \in O THEN {A("sub", <<p[1], p[2]>>, <<>>, <<>>, Map2(T(p[1]), T(p[2]), DSub), FALSE) : p \in Binary} ELSE {})
  \cup (IF "mul" \in O THEN {A("mul", <<p[1], p[2]>>, <<>>, <<>>, Map2(T(p[1]), T(p[2]), DMul), FALSE) : p \in Binary} ELSE {})
  \cup (IF "scal" \in O THEN {A("mulS", <<n>>, <<>>, <<2>>, Map1(T(n), LAMBDA x : DScale(2, x)), FALSE) : n \in Live}
        \cup {A("subR", <<n>>, <<>>, <<3>>, Map1(T(n), LAMBDA x : DSub(K(3), x)), FALSE) : n \in Live} ELSE {})
  \cup (IF "sum" \in O THEN {A("sum", <<n>>, <<>>, <<>>, [s |-> <<>>, d |-> <<DSum(T(n).d)>>], FALSE) : n \in {x \in Live : T(x).s # <<>>}} ELSE {})
  \cup (IF "sq" \in O THEN {A("powS", <<n>>, <<>>, <<2>>, Map1(T(n), LAMBDA x : DMul(x, x)), FALSE) : n \in Live} ELSE {})
  \cup (IF "relu" \in O THEN {A("relu", <<n>>, <<>>, <<>>, Map1(T(n), DRelu), FALSE) : n \in {x \in Live : \A k \in 1..Len(T(x).d) : T(x).d[k].v # 0}} ELSE {})
  \cup (IF "shape" \in O THEN UNION {{A("permuteAll", <<n>>, <<>>, <<>>, PermuteAll(T(n)), FALSE), A("flatten", <<n>>, <<<<0, -1>>>>, <<>>, Flatten(T(n), 0, -1), FALSE),
             A("unsqueeze", <<n>>, <<<<0>>>>, <<>>, Unsqueeze(T(n), 0), FALSE), A("squeeze", <<n>>, <<<<>>>>, <<>>, Squeeze(T(n), <<>>), FALSE)} : n \in {x \in Live : T(x).s # <<>>}} ELSE {})
  \cup (IF "perm" \in O THEN {A("permute", <<n>>, <<<<1, 0>>>>, <<>>, Permute(T(n), <<1, 0>>), FALSE) : n \in {x \in Live : Len(T(x).s) = 2}}
             \cup {A("reshape", <<n>>, <<<<-1, 1>>>>, <<>>, Reshape(T(n), <<-1, 1>>), FALSE) : n \in Live} ELSE {})
  \cup (IF "linear" \in O THEN {A("linear", <<p[1], p[2]>>, <<>>, <<>>, LinearD(T(p[1]), T(p[2]), <<>>), FALSE) :
             p \in {q \in Live \X Live : Len(T(q[1]).s) \in {1, 2, 3} /\ Len(T(q[2]).s) = 2 /\ T(q[1]).s[Len(T(q[1]).s)] = T(q[2]).s[2]}} ELSE {})
  \cup (IF "mse" \in O THEN {A("mseLoss", <<p[1], p[2]>>, <<<<2>>>>, <<>>, [s |-> <<>>, d |-> <<DSum(LET z == Map2(T(p[1]), T(p[2]), DSub) IN [k \in 1..Len(z.d) |-> DMul(z.d[k], z.d[k])])>>], TRUE) :
             p \in {q \in Live \X Live : T(q[1]).s = T(q[2]).s /\ ~reg[q[2]].rg}} ELSE {})

Bound(t) == Len(t.d) <= 12 /\ Len(t.s) <= 3 /\ \A k \in 1..Len(t.d) : AbsI(t.d[k].v) <= 3000 /\ \A n \in 1..N : AbsI(t.d[k].j[n]) <= 20000
Fits(O) == {ap \in Apps(O) : Bound(ap.t)}
Applications == IF ~Sampled THEN Fits(OpSet)
                ELSE LET few == Fits({RandomElement(OpSet)}) all == Fits(OpSet)
                     IN IF few # {} THEN {RandomElement(few)} ELSE IF all # {} THEN {RandomElement(all)} ELSE {}
Recorded(enabled, ins) == enabled /\ \E k \in 1..Len(ins) : reg[ins[k]].rg
ResultReg(ap, enabled) ==
  LET r == Recorded(enabled, ap.ins) deps == UNION {reg[ap.ins[k]].dep : k \in 1..Len(ap.ins)}
  IN [t |-> IF r THEN ap.t ELSE Freeze(ap.t), rg |-> r, leaf |-> ~r, dep |-> IF r THEN deps ELSE {},
      anc |-> IF r THEN UNION {reg[ap.ins[k]].anc : k \in 1..Len(ap.ins)} \cup (IF ap.once THEN {Len(log) + 1} ELSE {}) ELSE {}]

Entry(k, what) == [k |-> k] @@ what
Log(e) == log' = Append(log, e)
\* what can be seen of a register
See(r) == [t |-> Plain(r.t), rg |-> r.rg, leaf |-> r.leaf]
FreeTemps == {i \in 1..MaxRegs : reg[Temps[i]] = Dead}
NextTemp == Temps[Min(FreeTemps)]

OpStep == /\ FreeTemps # {}
          /\ \E ap \in Applications : \E th \in (IF "thread" \in Feats /\ depth > 0 THEN {FALSE, TRUE} ELSE {FALSE}) :
               /\ LET r == ResultReg(ap, th \/ depth = 0) IN
                  /\ reg' = [reg EXCEPT ![NextTemp] = r]
                  /\ Log(Entry("op", [op |-> ap.op, out |-> NextTemp, ins |-> ap.ins, il |-> ap.il, fl |-> ap.fl, th |-> th, see |-> See(r)]))
          /\ UNCHANGED <<grad, depth, other, hooks, nhook, up, spent, done>>
\* in-place arithmetic on a result (or on a tensor that requires no gradient)
InplaceStep ==
  /\ \E p \in Binary : \E o \in {"add_", "mul_", "sub_"} :
       /\ ~(reg[p[1]].leaf /\ reg[p[1]].rg) /\ BShape(T(p[1]).s, T(p[2]).s) = T(p[1]).s
       /\ LET ap == A(o, <<p[1], p[2]>>, <<>>, <<>>, Map2(T(p[1]), T(p[2]), LAMBDA x, y : IF o = "add_" THEN DAdd(x, y) ELSE IF o = "sub_" THEN DSub(x, y) ELSE DMul(x, y)), FALSE)
              r == IF depth > 0 /\ reg[p[1]].rg THEN Dead ELSE ResultReg(ap, depth = 0) IN
          /\ Bound(ap.t) /\ r # Dead
          /\ reg' = [reg EXCEPT ![p[1]] = r]
          /\ Log(Entry("inplace", [op |-> o, out |-> p[1], ins |-> ap.ins, see |-> See(r)]))
  /\ UNCHANGED <<grad, depth, other, hooks, nhook, up, spent, done>>
\* updating a leaf inside a scope: it stays a leaf with the same gradient; results computed before are discarded
UpdateStep ==
  /\ depth > 0
  /\ \E l \in Leaves : \E o \in {"add_", "fill_", "mul_"} :
       LET i == LeafIdx(l) old == Plain(T(l)).d
           new == [k \in 1..Len(old) |-> IF o = "fill_" THEN 2 ELSE IF o = "add_" THEN old[k] + 5 ELSE (0 - old[k])] IN
       /\ \A k \in 1..Len(new) : AbsI(new[k]) <= 20
       /\ reg' = [n \in Names |-> IF n = l THEN LeafReg(i, new) ELSE IF reg[n].leaf THEN reg[n] ELSE Dead]
       /\ Log(Entry("update", [op |-> o, out |-> l, fl |-> IF o = "fill_" THEN 2 ELSE IF o = "add_" THEN 5 ELSE (0 - 1), see |-> See(LeafReg(i, new))]))
  /\ UNCHANGED <<grad, depth, other, hooks, nhook, up, spent, done>>
ScopeStep == \/ /\ depth < 2 /\ depth' = depth + 1 /\ Log(Entry("N+", [d |-> depth + 1])) /\ UNCHANGED <<reg, grad, other, hooks, nhook, up, spent, done>>
             \/ /\ depth > 0 /\ depth' = depth - 1 /\ Log(Entry("N-", [d |-> depth - 1])) /\ UNCHANGED <<reg, grad, other, hooks, nhook, up, spent, done>>
             \/ /\ "thread" \in Feats /\ other' = ~other /\ Log(Entry(IF other THEN "TN-" ELSE "TN+", [d |-> depth])) /\ UNCHANGED <<reg, grad, depth, hooks, nhook, up, spent, done>>
DropStep == /\ \E i \in 1..MaxRegs : reg[Temps[i]] # Dead /\ reg' = [reg EXCEPT ![Temps[i]] = Dead] /\ Log(Entry("drop", [out |-> Temps[i]]))
            /\ UNCHANGED <<grad, depth, other, hooks, nhook, up, spent, done>>

\* the derivative of the output, weighted by g, with respect to leaf l
Weighted(r, g, l) == LET i == LeafIdx(l) IN
  [s |-> LeafShapes[i], d |-> [k \in 1..Prod(LeafShapes[i]) |-> SumSeq([e \in 1..Len(r.t.d) |-> g[e] * r.t.d[e].j[Off(i) + k]])]]
Plus(x, y) == [x EXCEPT !.d = [k \in 1..Len(x.d) |-> x.d[k] + y.d[k]]]
GradsSeen(gr) == [l \in Leaves |-> [def |-> gr[l].def, recv |-> gr[l].recv, t |-> gr[l].t]]
BackwardFrom(n, g) ==
  LET r == reg[n]
      gr == [l \in Leaves |-> IF l \in r.dep THEN [def |-> TRUE, recv |-> TRUE, t |-> IF grad[l].def THEN Plus(grad[l].t, Weighted(r, g, l)) ELSE Weighted(r, g, l)] ELSE grad[l]]
  IN /\ r.rg /\ r.anc \cap spent = {}
     /\ \A l \in r.dep : \A k \in 1..Len(gr[l].t.d) : AbsI(gr[l].t.d[k]) <= 2000000
     /\ grad' = gr /\ spent' = spent \cup r.anc /\ up' = TRUE
     /\ Log(Entry("backward", [out |-> n, g |-> [s |-> r.t.s, d |-> g], dflt |-> r.t.s = <<>> /\ g = <<1>>, fired |-> [l \in Leaves |-> IF l \in r.dep THEN hooks[l] ELSE <<>>], grads |-> GradsSeen(gr)]))
     /\ UNCHANGED <<reg, depth, other, hooks, nhook, done>>
Upstreams(r) == LET n == Len(r.t.d) IN
   IF n = 1 THEN {<<1>>, <<-3>>} ELSE {[e \in 1..n |-> ((e * 5 + Len(log)) % 7) - 2]}
BackwardStep == \E n \in Live : \E g \in Upstreams(reg[n]) : BackwardFrom(n, g)
GradStep ==
  \/ \E l \in Leaves : LET gr == [grad EXCEPT ![l] = [def |-> TRUE, recv |-> grad[l].recv, t |-> [s |-> LeafShapes[LeafIdx(l)], d |-> [k \in 1..Prod(LeafShapes[LeafIdx(l)]) |-> 0]]]] IN
       /\ grad' = gr /\ Log(Entry("zero", [out |-> l, grads |-> GradsSeen(gr)])) /\ UNCHANGED <<reg, depth, other, hooks, nhook, up, spent, done>>
  \/ \E l \in {x \in Leaves : grad[x].recv} : LET gr == [grad EXCEPT ![l].t.d = [k \in 1..Len(grad[l].t.d) |-> 7]] IN    \* write into the stored gradient
       /\ grad' = gr /\ Log(Entry("gradfill", [out |-> l, grads |-> GradsSeen(gr)])) /\ UNCHANGED <<reg, depth, other, hooks, nhook, up, spent, done>>
  \/ \E l \in Leaves : LET s == LeafShapes[LeafIdx(l)] v == [s |-> s, d |-> [k \in 1..Prod(s) |-> k + 10]] gr == [grad EXCEPT ![l] = [def |-> TRUE, recv |-> TRUE, t |-> v]] IN
       /\ grad' = gr /\ Log(Entry("setgrad", [out |-> l, t |-> v, grads |-> GradsSeen(gr)])) /\ UNCHANGED <<reg, depth, other, hooks, nhook, up, spent, done>>
  \/ /\ up /\ Log(Entry("upfill", [grads |-> GradsSeen(grad)])) /\ UNCHANGED <<reg, grad, depth, other, hooks, nhook, up, spent, done>>   \* write into the upstream gradient passed last
HookStep ==
  \/ \E l \in Leaves : nhook < 6 /\ Len(hooks[l]) < 3 /\ LET lab == nhook + 1 IN
       /\ hooks' = [hooks EXCEPT ![l] = Append(hooks[l], lab)] /\ nhook' = lab /\ Log(Entry("hook", [out |-> l, lab |-> lab]))
       /\ UNCHANGED <<reg, grad, depth, other, up, spent, done>>
  \/ \E l \in Leaves : \E k \in 1..Len(hooks[l]) :
       /\ hooks' = [hooks EXCEPT ![l] = RemoveAt1(hooks[l], k)] /\ Log(Entry("unhook", [out |-> l, lab |-> hooks[l][k]]))
       /\ UNCHANGED <<reg, grad, depth, other, nhook, up, spent, done>>

StepOf(k) == CASE k = "o" -> OpStep [] k = "i" -> InplaceStep [] k = "s" -> ScopeStep [] k = "u" -> UpdateStep [] k = "d" -> DropStep
               [] k = "b" -> BackwardStep [] k = "g" -> GradStep [] k = "h" -> HookStep
Full == Len(log) = (IF Plan = <<>> THEN Steps ELSE Len(Plan))
\* in free programs the kind of a step is drawn first, so that rare kinds are as frequent as operations
Finish == Full /\ ~done /\ done' = TRUE /\ UNCHANGED <<reg, grad, depth, other, hooks, nhook, up, spent, log>>
FreeNext == \E k \in Feats \cap {"o", "i", "s", "u", "d", "b", "g", "h"} : StepOf(k)
Next == (~Full /\ (IF Plan = <<>> THEN FreeNext ELSE StepOf(Plan[Len(log) + 1]))) \/ Finish

(* laws of the machine itself *)
TypeOK == /\ \A n \in Live : WellFormed(T(n)) /\ (reg[n].rg => reg[n].dep # {})
          /\ \A l \in Leaves : grad[l].def => WellFormed(grad[l].t)
\* without recorded dependence there is no derivative
NoDepNoJ == \A n \in Live : \A i \in 1..NL : LeafName[i] \notin reg[n].dep =>
               \A e \in 1..Len(T(n).d) : \A k \in 1..Prod(LeafShapes[i]) : T(n).d[e].j[Off(i) + k] = 0
Final == [n \in Live |-> See(reg[n])]
Emit == done => PrintT(ToJson([steps |-> log, final |-> Final, init |-> [i \in {LeafName[k] : k \in 1..NL} |-> [s |-> LeafShapes[LeafIdx(i)], d |-> LeafVal(LeafIdx(i))]]]))
=============================================================================
