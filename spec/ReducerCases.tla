---------------------------- MODULE ReducerCases -----------------------------
(* Histories of data-parallel training: what is declared, and what is done with it on every rank.                  *)
(*  "order": two ranks, every pair of ready orders;  "part": every way to cut parameters into buckets;             *)
(*  "sample": random histories of several passes                                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, Randomization
CONSTANTS Kind, World, NParam, Sizes, Caps, Steps
VARIABLES c, n, t
vars == <<c, n, t>>
Perms(S) == {f \in [1 .. Cardinality(S) -> S] : \A i, j \in DOMAIN f : f[i] = f[j] => i = j}
P == 1 .. NParam
Rg(cc) == {p \in P : cc.rg[p] = 1}
Step(k, root, cap, how, zero, tt, ord) == [k |-> k, root |-> root, cap |-> cap, how |-> how, zero |-> zero, t |-> tt, ord |-> ord]
Make(root, cap) == Step("make", root, cap, "", 0, 0, << >>)
Same(o) == [r \in 1 .. World |-> o]
Decl(s, g, st) == [world |-> World, size |-> s, rg |-> g, steps |-> st]
Ident == [i \in P |-> i]
Orders(q) == {Decl([p \in P |-> 2 + (p % 2)], [p \in P |-> 1],
             << Make(0, cap), Step("pass", 0, 0, how, 1, 1, o), Step("pass", 0, 0, how, z, 2, Same(Ident)) >>) :
             cap \in Caps, how \in {"direct", "graph", "graph2"}, z \in {0, 1}, o \in [1 .. World -> Perms(P)]}
Parts(q) == UNION {{Decl(s, g, << Make(World - 1, cap), Step("pass", 0, 0, "direct", 0, 1, Same(o)) >>) :
             cap \in Caps, o \in Perms({p \in P : g[p] = 1})} : s \in [P -> Sizes], g \in [P -> {0, 1}]}
PartsFew(q) == {x \in Parts(q) : \A i \in DOMAIN x.steps[2].ord[1] : i = 1 \/ x.steps[2].ord[1][i] > x.steps[2].ord[1][i-1]}
Pick(S) == RandomElement(S)
RECURSIVE OrdOf(_)
OrdOf(S) == IF S = {} THEN << >> ELSE LET x == Pick(S) IN <<x>> \o OrdOf(S \ {x})
RandStep(cc, tt) ==
   LET x == Pick(1 .. 12) IN
   CASE x <= 7 -> LET z == Pick({0, 1}) h == Pick({"direct", "graph", "graph2"}) IN
                  Step("pass", 0, 0, h, z, tt, [r \in 1 .. World |-> OrdOf(Rg(cc))])
     [] x = 8  -> LET sub == Pick(SUBSET Rg(cc)) o == OrdOf(sub) IN Step("pass", 0, 0, "direct", Pick({0, 1}), tt, Same(o))
     [] x = 9  -> Step("eval", 0, 0, "", 0, tt, << >>)
     [] x = 10 -> Step("drop", 0, 0, "", 0, tt, << >>)
     [] OTHER  -> Make(Pick(0 .. World - 1), Pick(Caps))
RandDecl(z) == Decl([p \in P |-> Pick(Sizes)], [p \in P |-> IF Pick(1 .. 5) = 1 THEN 0 ELSE 1], << >>)
Init == /\ n = 0 /\ t = 0
        /\ CASE Kind = "order" -> c \in Orders(0) [] Kind = "part" -> c \in PartsFew(0) [] OTHER -> c = Decl([p \in P |-> 1], [p \in P |-> 1], << >>)
Next == /\ Kind = "sample" /\ n < Steps + 2 /\ n' = n + 1 /\ t' = t + 1
        /\ c' = CASE n = 0 -> RandDecl(n)
                  [] n = 1 -> [c EXCEPT !.steps = <<Make(Pick(0 .. World - 1), Pick(Caps))>>]
                  [] OTHER -> [c EXCEPT !.steps = Append(@, RandStep(c, t))]
Spec == Init /\ [][Next]_vars
Over == IF Kind = "sample" THEN n = Steps + 2 ELSE TRUE
Emit == Over => PrintT(ToJson(c))
=============================================================================
