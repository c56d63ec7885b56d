----------------------------- MODULE ModuleTree -----------------------------
(* N03: trees of modules.  Nodes are numbered in order of creation; node 1 is *)
(* the root.  A node owns tensors (parameters, or plain states) and children, *)
(* each under a name.  Requests addressed to a node reach exactly its subtree.*)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS RootKinds, Kinds, MaxNodes, Acts, FillVals, Dtypes, MaxLog, MaxActs
VARIABLES node, mode, ten, log
vars == <<node, mode, ten, log>>

\* what each kind of module owns
Ten(n, s, par, how) == [n |-> n, s |-> s, par |-> par, how |-> how]
Owned(k) ==
  CASE k = "linear" -> <<Ten("weight", <<2, 2>>, TRUE, "uniform2"), Ten("bias", <<2>>, TRUE, "uniform2")>>
    [] k = "linnb" -> <<Ten("weight", <<2, 2>>, TRUE, "uniform2")>>
    [] k = "conv" -> <<Ten("weight", <<3, 2, 2, 1>>, TRUE, "uniform4"), Ten("bias", <<3>>, TRUE, "uniform4")>>
    [] k = "convnb" -> <<Ten("weight", <<1, 2, 2, 2>>, TRUE, "uniform8")>>
    [] k = "lnorm" -> <<Ten("weight", <<3>>, TRUE, "one"), Ten("bias", <<3>>, TRUE, "zero")>>
    [] k = "lnormnb" -> <<Ten("weight", <<3>>, TRUE, "one")>>
    [] k = "rms" -> <<Ten("weight", <<4>>, TRUE, "one")>>
    [] k = "emb" -> <<Ten("weight", <<5, 3>>, TRUE, "normal")>>
    [] k = "rope" -> <<Ten("rope", <<3, 4, 2>>, FALSE, "table")>>
    [] k = "block" -> <<Ten("scale", <<2>>, TRUE, "five"), Ten("mean", <<1, 2>>, FALSE, "six")>>
    [] OTHER -> <<>>
Containers == {"block", "plain", "list", "seq"}
Numbered == {"list", "seq"}
Names == <<"a", "z", "m">>         \* registration order is not alphabetical
Fresh(k) == [i \in 1..Len(Owned(k)) |-> [val |-> IF Owned(k)[i].how = "table" THEN "table" ELSE "unset", v |-> 0, dt |-> "f32", rg |-> Owned(k)[i].par, g |-> "none", gv |-> 0]]
MkNode(k, par, nm) == [k |-> k, par |-> par, nm |-> nm, kids |-> <<>>]

N == Len(node)
RECURSIVE Sub(_)
Sub(n) == {n} \cup UNION {Sub(node[n].kids[i]) : i \in 1..Len(node[n].kids)}
RECURSIVE SubSeqs(_, _)
\* the tensors of a subtree under their dotted paths, in registration order: own ones first, then each child's
RECURSIVE CatS(_)
CatS(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o CatS(Tail(ss))
SubSeqs(n, prefix) ==
  [i \in 1..Len(Owned(node[n].k)) |-> [path |-> prefix \o Owned(node[n].k)[i].n, n |-> n, i |-> i, par |-> Owned(node[n].k)[i].par]]
  \o CatS([c \in 1..Len(node[n].kids) |-> SubSeqs(node[n].kids[c], prefix \o node[node[n].kids[c]].nm \o ".")])
\* inside one node parameters precede states; both lists keep that order
Listing(n) == SubSeqs(n, "")
See == [states |-> Listing(1), mode |-> mode, ten |-> ten, kinds |-> [n \in 1..N |-> node[n].k]]

Log(e) == log' = Append(log, e)
E0(k, n) == [k |-> k, n |-> n, kind |-> "", par |-> 0, nm |-> "", v |-> 0, dt |-> "", i |-> 0, x |-> <<>>, y |-> <<>>]
NActs == Len(SelectSeq(log, LAMBDA e : e.k # "add"))

Add(p, k) ==
  /\ N < MaxNodes /\ node[p].k \in Containers /\ Len(node[p].kids) < 3
  /\ LET nm == IF node[p].k \in Numbered THEN ToString(Len(node[p].kids)) ELSE Names[Len(node[p].kids) + 1]
     IN /\ node' = Append([node EXCEPT ![p].kids = Append(@, N + 1)], MkNode(k, p, nm))
        /\ mode' = Append(mode, TRUE) /\ ten' = Append(ten, Fresh(k))
        /\ Log([E0("add", N + 1) EXCEPT !.kind = k, !.par = p, !.nm = nm])
MapSub(n, F(_, _)) == [m \in 1..N |-> IF m \in Sub(n) THEN [i \in 1..Len(ten[m]) |-> F(m, i)] ELSE ten[m]]
Train(n, b) == mode' = [m \in 1..N |-> IF m \in Sub(n) THEN b ELSE mode[m]] /\ Log([E0("train", n) EXCEPT !.v = IF b THEN 1 ELSE 0]) /\ UNCHANGED <<node, ten>>
Reset(n) == LET F(m, i) == [ten[m][i] EXCEPT !.val = Owned(node[m].k)[i].how] IN ten' = MapSub(n, F) /\ Log(E0("reset", n)) /\ UNCHANGED <<node, mode>>
Zero(n) == LET F(m, i) == IF ten[m][i].rg THEN [ten[m][i] EXCEPT !.g = "zero"] ELSE ten[m][i] IN ten' = MapSub(n, F) /\ Log(E0("zero", n)) /\ UNCHANGED <<node, mode>>
To(n, d) == LET F(m, i) == [ten[m][i] EXCEPT !.dt = d, !.g = "any"] IN ten' = MapSub(n, F) /\ Log([E0("to", n) EXCEPT !.dt = d]) /\ UNCHANGED <<node, mode>>
Fill(n, v) == LET F(m, i) == [ten[m][i] EXCEPT !.val = "fill", !.v = v] IN ten' = MapSub(n, F) /\ Log([E0("fill", n) EXCEPT !.v = v]) /\ UNCHANGED <<node, mode>>
Grads(n, v) == LET F(m, i) == IF ten[m][i].rg THEN [ten[m][i] EXCEPT !.g = "fill", !.gv = v] ELSE ten[m][i] IN ten' = MapSub(n, F) /\ Log([E0("grads", n) EXCEPT !.v = v]) /\ UNCHANGED <<node, mode>>
Freeze(n, i) == /\ ten[n][i].rg /\ ten' = [ten EXCEPT ![n][i].rg = FALSE, ![n][i].g = "none"] /\ Log([E0("freeze", n) EXCEPT !.i = i, !.nm = Owned(node[n].k)[i].n]) /\ UNCHANGED <<node, mode>>

\* forward of vectors of two integers
F32(n) == \A i \in 1..Len(ten[n]) : ten[n][i].dt = "f32"
RECURSIVE Fwd(_, _), Chain(_, _), Runs(_)
Runs(n) == LET k == node[n].k IN
  CASE k \in {"linear", "linnb"} -> F32(n) /\ \A i \in 1..Len(ten[n]) : ten[n][i].val = "fill"
    [] k \in {"relu", "flat", "drop", "plain", "block"} -> \A c \in 1..Len(node[n].kids) : Runs(node[n].kids[c])
    [] k = "seq" -> \A c \in 1..Len(node[n].kids) : Runs(node[n].kids[c])
    [] OTHER -> FALSE
Drops(n) == \E m \in Sub(n) : node[m].k = "drop" /\ mode[m]
Chain(ks, x) == IF ks = <<>> THEN x ELSE Chain(Tail(ks), Fwd(Head(ks), x))
Fwd(n, x) == LET k == node[n].k IN
  CASE k = "linear" -> LET y == ten[n][1].v * (x[1] + x[2]) + ten[n][2].v IN <<y, y>>
    [] k = "linnb" -> LET y == ten[n][1].v * (x[1] + x[2]) IN <<y, y>>
    [] k = "relu" -> [i \in 1..2 |-> IF x[i] > 0 THEN x[i] ELSE 0]
    [] k \in {"flat", "drop"} -> x
    [] k \in {"plain", "block"} -> Chain(node[n].kids, [i \in 1..2 |-> 2 * x[i] + n])       \* the user's module: an affine map, then its children
    [] k = "seq" -> Chain(node[n].kids, x)
Forward(n) == /\ Runs(n) /\ ~Drops(n) /\ (node[n].k = "seq" => Len(node[n].kids) > 0)
              /\ LET x == <<3 - n, 1>> IN Log([E0("forward", n) EXCEPT !.x = x, !.y = Fwd(n, x)])
              /\ UNCHANGED <<node, mode, ten>>

Init == \E k \in RootKinds : /\ node = <<MkNode(k, 0, "")>> /\ mode = <<TRUE>> /\ ten = <<Fresh(k)>> /\ log = <<[E0("add", 1) EXCEPT !.kind = k]>>
Act == /\ NActs < MaxActs
       /\ \/ "train" \in Acts /\ \E n \in 1..N, b \in BOOLEAN : Train(n, b)
          \/ "reset" \in Acts /\ \E n \in 1..N : Reset(n)
          \/ "zero" \in Acts /\ \E n \in 1..N : Zero(n)
          \/ "to" \in Acts /\ \E n \in 1..N, d \in Dtypes : To(n, d)
          \/ "fill" \in Acts /\ \E n \in 1..N, v \in FillVals : Fill(n, v)
          \/ "grads" \in Acts /\ \E n \in 1..N, v \in FillVals : Grads(n, v + 4)
          \/ "freeze" \in Acts /\ \E n \in 1..N : \E i \in 1..Len(ten[n]) : Freeze(n, i)
          \/ "forward" \in Acts /\ \E n \in 1..N : Forward(n)
Next == /\ Len(log) < MaxLog
        /\ \/ \E p \in 1..N, k \in Kinds : Add(p, k)
           \/ Act
           \/ Act
Spec == Init /\ [][Next]_vars

Total == [n \in 1..N |-> Len(ten[n])]
RECURSIVE SumF(_, _)
SumF(f, n) == IF n = 0 THEN 0 ELSE f[n] + SumF(f, n - 1)
\* every tensor of the tree is listed exactly once, under a path of its own
EachOnce == LET l == Listing(1) IN
  /\ Len(l) = SumF(Total, N)
  /\ \A a, b \in 1..Len(l) : a # b => l[a].path # l[b].path /\ <<l[a].n, l[a].i>> # <<l[b].n, l[b].i>>
Done == Len(log) = MaxLog \/ (MaxActs = NActs /\ N = MaxNodes)
Emit == Done => PrintT(ToJson([log |-> log, see |-> See]))
=============================================================================
