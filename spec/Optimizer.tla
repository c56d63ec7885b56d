------------------------------ MODULE Optimizer ------------------------------
(* O01, O02: an optimiser over named parameters.  Every value that ever       *)
(* exists has a name (p.a.3 is the third value of parameter a, g.a.2 its      *)
(* second gradient, m.a.1 a state tensor ...); a step writes down equations   *)
(* that define the new names from old ones.  Names are never redefined, so an *)
(* equation that mentions a gradient keeps meaning that gradient whatever     *)
(* happens to the gradient tensor afterwards.                                 *)
EXTENDS Terms, FiniteSets, TLC, Json
CONSTANTS Algo,       \* "SGD" "Adagrad" "RMSprop" "AdaDelta" "Adam" "AdamW"
          Hs,         \* the sets of hyper-parameters considered (integers or terms)
          Params,     \* parameter names
          Shapes,     \* parameter name -> shape
          Lrs,        \* learning rates that may be set
          Acts,       \* which user actions take place
          MaxLog, MaxQuiet, Seed
VARIABLES frozen, H, log, pv, gv, gdef, sv, lr, lr0, t, quiet, fresh
vars == <<frozen, H, log, pv, gv, gdef, sv, lr, lr0, t, quiet, fresh>>

Nm(kind, p, n) == kind \o "." \o p \o "." \o ToString(n)
P(p) == Nm("p", p, pv[p])
P1(p) == Nm("p", p, pv[p] + 1)
G(p) == Nm("g", p, gv[p])
S(k, p) == Nm(k, p, sv[p][k])
S1(k, p) == Nm(k, p, sv[p][k] + 1)
D(p) == "d." \o p \o "." \o ToString(t + 1)          \* intermediate results of step t+1
X(k, p) == k \o "." \o p \o ".t" \o ToString(t + 1)
Eq(l, r) == [l |-> l, r |-> r]
Zero0 == Rat(0, 1)
One == Rat(1, 1)
Sum3(a, b) == Add2(a, b)
Mix(k, a, b) == Add2(Mul2(k, a), Mul2(Sub2(One, k), b))      \* k a + (1-k) b
Sq(a) == Mul2(a, a)

\* which state tensors the algorithm keeps, and their initial value
Kinds == CASE Algo = "SGD" -> {"buf"} [] Algo = "Adagrad" -> {"s"} [] Algo = "RMSprop" -> {"v", "a", "buf"} [] Algo = "AdaDelta" -> {"v", "u"} [] OTHER -> {"m", "v", "x"}
Initial(k) == IF Algo = "Adagrad" THEN H.acc ELSE Zero0

Decayed(p) == Add2(G(p), Mul2(H.wd, P(p)))
T == t + 1
Recurrence(p) ==
  CASE Algo = "SGD" ->
       <<Eq(D(p), Decayed(p)),
         Eq(S1("buf", p), IF sv[p]["buf"] = 0 THEN D(p) ELSE Add2(Mul2(H.mom, S("buf", p)), Mul2(Sub2(One, H.damp), D(p)))),
         Eq(X("u", p), IF H.mom = Zero0 THEN D(p) ELSE IF H.nest = 1 THEN Add2(D(p), Mul2(H.mom, S1("buf", p))) ELSE S1("buf", p)),
         Eq(P1(p), Sub2(P(p), Mul2(lr, X("u", p))))>>
    [] Algo = "Adagrad" ->
       <<Eq(D(p), Decayed(p)),
         Eq(S1("s", p), Add2(S("s", p), Sq(D(p)))),
         Eq(X("c", p), Div2(lr, Add2(One, Mul2(Sub2(Rat(T, 1), One), H.lrd)))),
         Eq(P1(p), Sub2(P(p), Div2(Mul2(X("c", p), D(p)), Add2(Fn("sqrt", S1("s", p)), H.eps))))>>
    [] Algo = "RMSprop" ->
       <<Eq(D(p), Decayed(p)),
         Eq(S1("v", p), Mix(H.alpha, S("v", p), Sq(D(p)))),
         Eq(S1("a", p), Mix(H.alpha, S("a", p), D(p))),
         Eq(X("w", p), Add2(Fn("sqrt", IF H.cent = 1 THEN Sub2(S1("v", p), Sq(S1("a", p))) ELSE S1("v", p)), H.eps)),
         Eq(S1("buf", p), Add2(Mul2(H.mom, S("buf", p)), Div2(D(p), X("w", p)))),
         Eq(P1(p), Sub2(P(p), Mul2(lr, S1("buf", p))))>>      \* momentum 0 makes buf the plain quotient
    [] Algo = "AdaDelta" ->
       <<Eq(D(p), Decayed(p)),
         Eq(S1("v", p), Mix(H.rho, S("v", p), Sq(D(p)))),
         Eq(X("e", p), Mul2(Div2(Fn("sqrt", Add2(S("u", p), H.eps)), Fn("sqrt", Add2(S1("v", p), H.eps))), D(p))),
         Eq(S1("u", p), Mix(H.rho, S("u", p), Sq(X("e", p)))),
         Eq(P1(p), Sub2(P(p), Mul2(lr, X("e", p))))>>
    [] OTHER ->
       <<Eq(D(p), IF Algo = "Adam" THEN Decayed(p) ELSE G(p)),
         Eq(X("q", p), IF Algo = "Adam" THEN P(p) ELSE Mul2(P(p), Sub2(One, Mul2(lr, H.wd)))),      \* AdamW shrinks the parameter itself
         Eq(S1("m", p), Mix(H.b1, S("m", p), D(p))),
         Eq(S1("v", p), Mix(H.b2, S("v", p), Sq(D(p)))),
         Eq(X("mh", p), Div2(S1("m", p), Sub2(One, Pow2(H.b1, T)))),
         Eq(X("vh", p), Div2(S1("v", p), Sub2(One, Pow2(H.b2, T)))),
         Eq(S1("x", p), <<"max", S("x", p), X("vh", p)>>),
         Eq(P1(p), Sub2(X("q", p), Div2(Mul2(lr, X("mh", p)), Add2(Fn("sqrt", IF H.ams = 1 THEN S1("x", p) ELSE X("vh", p)), H.eps))))>>

RECURSIVE Cat(_)
Cat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Cat(Tail(ss))
Order == CHOOSE q \in [1..Cardinality(Params) -> Params] : \A i, j \in 1..Cardinality(Params) : i # j => q[i] # q[j]
PIdx(p) == CHOOSE i \in 1..Cardinality(Params) : Order[i] = p

See(pv2, gv2, gd) == [p \in Params |-> [v |-> Nm("p", p, pv2[p]), g |-> IF gd[p] THEN Nm("g", p, gv2[p]) ELSE "none"]]
Grad(p) == NoiseQ(Shapes[p], Seed + 17 * fresh + 5 * PIdx(p), 13)      \* a fresh gradient each time
\* a frozen parameter requires no gradient any more and has none
Base == [k |-> "", p |-> "", t |-> [s |-> <<>>, d |-> <<>>], eqs |-> <<>>, see |-> See(pv, gv, gdef), lr |-> lr, frozen |-> frozen]

Step ==
  LET live == SelectSeq(Order, LAMBDA p : gdef[p])
      Chg(f, p) == IF gdef[p] THEN f + 1 ELSE f
      pv2 == [p \in Params |-> Chg(pv[p], p)]
  IN /\ quiet > 0 \/ log = <<>>
     /\ log' = Append(log, [Base EXCEPT !.k = "step", !.eqs = Cat([i \in 1..Len(live) |-> Recurrence(live[i])]), !.see = See(pv2, gv, gdef)])
     /\ pv' = pv2 /\ sv' = [p \in Params |-> [k \in Kinds |-> Chg(sv[p][k], p)]]
     /\ t' = t + 1 /\ quiet' = 0
     /\ UNCHANGED <<gv, gdef, lr, fresh>>
Quiet == quiet < MaxQuiet /\ quiet' = quiet + 1 /\ fresh' = fresh + 1
\* the gradient becomes a new value, by one means or another
NewGrad(kind, p, ten, rhs) ==
  /\ kind \in Acts /\ Quiet /\ p \notin frozen
  /\ LET gv2 == [gv EXCEPT ![p] = @ + 1] gd == [gdef EXCEPT ![p] = TRUE]
     IN /\ log' = Append(log, [Base EXCEPT !.k = kind, !.p = p, !.t = ten, !.eqs = <<Eq(Nm("g", p, gv2[p]), rhs)>>, !.see = See(pv, gv2, gd)])
        /\ gv' = gv2 /\ gdef' = gd
  /\ UNCHANGED <<pv, sv, lr, t>>
SetGrad(p) == NewGrad("setgrad", p, Grad(p), <<"vec", Grad(p).d>>)
Backward(p) == NewGrad("backward", p, Grad(p), IF gdef[p] THEN Add2(G(p), <<"vec", Grad(p).d>>) ELSE <<"vec", Grad(p).d>>)
Zero(p) == NewGrad("zero", p, Grad(p), Zero0)
Fill(p) == gdef[p] /\ NewGrad("gradfill", p, Grad(p), Rat(7, 1))
\* the gradient is taken away again: until it gets a new one the parameter, and what is remembered about it, rest
Ungrad(p) ==
  /\ "ungrad" \in Acts /\ Quiet /\ gdef[p]
  /\ gdef' = [gdef EXCEPT ![p] = FALSE]
  /\ log' = Append(log, [Base EXCEPT !.k = "ungrad", !.p = p, !.see = See(pv, gv, gdef')])
  /\ UNCHANGED <<pv, gv, sv, lr, t>>
ZeroAll ==
  /\ "ozg" \in Acts /\ Quiet
  /\ LET gv2 == [p \in Params |-> gv[p] + 1] gd == [p \in Params |-> p \notin frozen]
     IN /\ log' = Append(log, [Base EXCEPT !.k = "ozg", !.eqs = [i \in 1..Len(Order) |-> Eq(Nm("g", Order[i], gv2[Order[i]]), Zero0)], !.see = See(pv, gv2, gd)])
        /\ gv' = gv2 /\ gdef' = gd
  /\ UNCHANGED <<pv, sv, lr, t>>
SetLr(r) == /\ "lr" \in Acts /\ Quiet /\ r # lr /\ lr' = r /\ log' = Append(log, [Base EXCEPT !.k = "lr", !.lr = r])
            /\ UNCHANGED <<pv, gv, gdef, sv, t>>
Poke(p) ==    \* the user overwrites a parameter
  /\ "poke" \in Acts /\ Quiet
  /\ LET pv2 == [pv EXCEPT ![p] = @ + 1]
     IN /\ log' = Append(log, [Base EXCEPT !.k = "poke", !.p = p, !.eqs = <<Eq(Nm("p", p, pv2[p]), Rat(-5, 4))>>, !.see = See(pv2, gv, gdef)])
        /\ pv' = pv2
  /\ UNCHANGED <<gv, gdef, sv, lr, t>>

Freeze(p) ==
  /\ "freeze" \in Acts /\ Quiet /\ p \notin frozen /\ frozen' = frozen \cup {p}
  /\ gdef' = [gdef EXCEPT ![p] = FALSE]
  /\ log' = Append(log, [Base EXCEPT !.k = "freeze", !.p = p, !.see = See(pv, gv, gdef'), !.frozen = frozen'])
  /\ UNCHANGED <<pv, gv, sv, lr, t>>

Init == /\ frozen = {} /\ H \in Hs /\ log = <<>> /\ pv = [p \in Params |-> 0] /\ gv = [p \in Params |-> 0] /\ gdef = [p \in Params |-> FALSE]
        /\ sv = [p \in Params |-> [k \in Kinds |-> 0]] /\ lr \in Lrs /\ lr0 = lr /\ t = 0 /\ quiet = 0 /\ fresh = 0
Open == Len(log) < MaxLog
Next == /\ Open /\ UNCHANGED <<lr0, H>>
        /\ \/ \E p \in Params : Freeze(p)
           \/ /\ UNCHANGED frozen
              /\ \/ Step
                 \/ \E p \in Params : SetGrad(p) \/ Backward(p)
                 \/ \E p \in Params : Zero(p) \/ Fill(p) \/ Ungrad(p)
                 \/ ZeroAll
                 \/ \E p \in Params : Poke(p)
                 \/ \E r \in Lrs : SetLr(r)
Spec == Init /\ [][Next]_vars

\* properties of the machine itself
StepOwns == [][(t' # t) => /\ gv' = gv /\ gdef' = gdef /\ lr' = lr
                           /\ \A p \in Params : ~gdef[p] => pv'[p] = pv[p] /\ sv'[p] = sv[p]
                           /\ \A p \in Params : gdef[p] => pv'[p] = pv[p] + 1]_vars
UserOwns == [][(t' = t) => sv' = sv]_vars
\* every name is defined at most once, so no later action reaches an earlier value
Names == Cat([i \in 1..Len(log) |-> [j \in 1..Len(log[i].eqs) |-> log[i].eqs[j].l]])
DefinedOnce == \A i, j \in 1..Len(Names) : i # j => Names[i] # Names[j]
InitVals == [p \in Params |-> NoiseQ(Shapes[p], Seed + PIdx(p), 11)]
Start == LET ini == [k \in Kinds |-> Initial(k)] IN [p |-> InitVals, s |-> ini]
Emit == Len(log) = MaxLog => PrintT(ToJson([log |-> log, h |-> H, init |-> Start, order |-> Order, lr |-> lr0]))
=============================================================================
