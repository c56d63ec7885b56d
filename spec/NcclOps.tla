------------------------------- MODULE NcclOps -------------------------------
(* What a back end over NCCL does with the operations it is given: each reaches NCCL once, with the caller's sizes,  *)
(* type, operation and root; is ordered after what the caller had computed and before what it computes after        *)
(* waiting; a failure gives no work and leaves later operations alone.                                              *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Kind, World, Rank, Steps
VARIABLES h, n, err, hung, works, comm, ready
vars == <<h, n, err, hung, works, comm, ready>>
Pick(S) == RandomElement(S)
Kinds == {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send", "recv"}
DTs == {"f32", "f16", "bf16", "i32", "i64", "b8"}
Code(d) == CASE d = "f32" -> 7 [] d = "f16" -> 6 [] d = "bf16" -> 9 [] d = "i32" -> 2 [] d = "i64" -> 4 [] OTHER -> 1
Red(r) == CASE r = 1 -> 0 [] r = 2 -> 4 [] r = 3 -> 1 [] r = 4 -> 3 [] OTHER -> 2         \* sum, average, product, min, max
In(d, j, i) == IF d = "b8" THEN (i + j) % 2 ELSE 1 + (7 * j) + i
Res(d, i) == IF d = "b8" THEN (IF i % 3 = 0 THEN 1 ELSE 0) ELSE 3 + (2 * i)
Ins(d, j, m) == [i \in 1 .. m |-> In(d, j, i - 1)]
Ress(d, j, m) == [i \in 1 .. m |-> Res(d, (j * m) + i - 1)]
RECURSIVE Flat(_, _, _)
Flat(d, m, k) == IF k = 0 THEN << >> ELSE Flat(d, m, k - 1) \o Ins(d, k - 1, m)
HasRed(k) == k \in {"allReduce", "reduce", "reduceScatter"}
HasRoot(k) == k \in {"broadcast", "reduce", "send", "recv"}
Call(o) == <<o.kind, o.n, Code(o.dt), IF HasRed(o.kind) THEN Red(o.red) ELSE -1, IF HasRoot(o.kind) THEN o.root ELSE -1, Rank, World>>
\* what the operation reads, and what the caller's tensors hold after it
Seen(o) == CASE o.kind = "recv" -> << >>
             [] o.kind = "broadcast" -> (IF Rank = o.root THEN Ins(o.dt, 0, o.n) ELSE << >>)
             [] o.kind = "reduceScatter" -> Flat(o.dt, o.n, World)
             [] OTHER -> Ins(o.dt, 0, o.n)
Outs(o) == CASE o.kind = "send" -> <<Ins(o.dt, 0, o.n)>>
             [] o.kind = "reduce" -> <<IF Rank = o.root THEN Ress(o.dt, 0, o.n) ELSE Ins(o.dt, 0, o.n)>>
             [] o.kind = "allGather" -> [j \in 1 .. World |-> Ress(o.dt, j - 1, o.n)]
             [] OTHER -> <<Ress(o.dt, 0, o.n)>>
Op(k, d, red, root, m, f, eager, late, drop, polls) ==
   [kind |-> k, dt |-> d, red |-> red, root |-> root, n |-> m, fail |-> f, eager |-> eager, late |-> late, drop |-> drop, polls |-> polls]
InPlace(k) == k \in {"broadcast", "allReduce", "reduce", "send", "recv"}
\* the steps: [s, id, o, exp]
Step(s, id, o, exp) == [s |-> s, id |-> id, o |-> o, exp |-> exp]
NoOp == Op("", "f32", 1, 0, 1, "", 0, 0, 0, 0)
Exp0 == [ok |-> 0, err |-> {}, calls |-> << >>, seen |-> << >>, outs |-> << >>, res |-> 0, done |-> 0, succ |-> 1]
Setup == IF comm THEN << >> ELSE (IF Rank = 0 THEN <<<<"id">>, <<"init", Rank, World>>>> ELSE <<<<"init", Rank, World>>>>)
Good(o) == [Exp0 EXCEPT !.ok = 1, !.err = err, !.calls = Append(Setup, Call(o))]
\* one operation of every sort, done and looked at
Single(o) == << Step("op", 1, o, Good(o)), Step("wait", 1, NoOp, [Exp0 EXCEPT !.res = 1, !.done = 1]),
                Step("seen", 1, o, [Exp0 EXCEPT !.seen = <<<<o.kind>> \o Seen(o)>>]) >>
             \o (IF o.drop = 1 /\ InPlace(o.kind) THEN << >> ELSE <<Step("view", 1, o, [Exp0 EXCEPT !.outs = Outs(o)])>>)
Singles(z) == {Single(Op(k, d, red, root, m, "", e, l, 0, 0)) :
               k \in Kinds, d \in DTs, red \in 1 .. 5, root \in 0 .. World - 1, m \in {1, 4}, e \in {0, 1}, l \in {0, 1}}
Relevant(s) == LET o == s[1].o IN (HasRed(o.kind) \/ o.red = 1) /\ (HasRoot(o.kind) \/ o.root = 0)
               /\ (o.kind \in {"send", "recv"} => o.root # Rank) /\ (o.kind = "reduceScatter" => o.late = 0)
Init == /\ n = 0 /\ err = {0} /\ hung = FALSE /\ works = << >> /\ comm = FALSE /\ ready = FALSE
        /\ IF Kind = "single" THEN h \in {s \in Singles(0) : Relevant(s)} ELSE h = << >>
\* works: [o, st] with st in "ran" (issued), "exec" (carried out, not waited for), "done", "late" (timed out), "none"
RandOp(z) == LET k == Pick(Kinds) IN
             Op(k, Pick(DTs), Pick(1 .. 5), IF k \in {"send", "recv"} THEN (Rank + 1) % World ELSE Pick(0 .. World - 1), Pick({1, 2, 3, 4, 8}),
                "", IF hung THEN 0 ELSE Pick({0, 1}), IF k = "reduceScatter" THEN 0 ELSE Pick({0, 1}), Pick({0, 0, 1}), Pick({0, 0, 3}))
\* operations are carried out in the order they were issued
Upto(ws, w) == [x \in 1 .. Len(ws) |-> IF x <= w /\ ws[x].st = "ran" THEN [ws[x] EXCEPT !.st = "exec"] ELSE ws[x]]
Rec(o, st, r) == [o |-> o, st |-> st, ruined |-> r]
Issue == \E o \in {RandOp(n)} :
         /\ h' = Append(h, Step("op", Len(works) + 1, o, Good(o)))
         /\ works' = (LET ws == Append(works, Rec(o, "ran", o.drop = 1 /\ InPlace(o.kind))) IN IF o.eager = 1 THEN Upto(ws, Len(ws)) ELSE ws)
         /\ comm' = TRUE /\ ready' = TRUE /\ UNCHANGED <<err, hung>>
\* the failing call: before the group is open, the operation itself, or the end of the group
Errs(S) == {IF e = 0 THEN 2 ELSE e : e \in S}
Fail == \E o \in {[RandOp(n) EXCEPT !.fail = Pick({"start", "op", "end"})]} :
        /\ err' = (IF o.fail = "end" THEN err \cup Errs(err) ELSE Errs(err))
        /\ h' = Append(h, Step("op", Len(works) + 1, o, [Exp0 EXCEPT !.err = err', !.calls = Setup \o (IF o.fail = "end" THEN <<Call(o)>> ELSE << >>)]))
        /\ works' = Append(works, Rec(o, "none", TRUE)) /\ comm' = TRUE /\ ready' = (ready \/ o.fail # "start") /\ UNCHANGED hung
\* the identity cannot be made: no communicator, and the next operation makes one
FailId == /\ ~comm /\ Rank = 0
          /\ \E o \in {[RandOp(n) EXCEPT !.fail = "id"]} :
             /\ err' = Errs(err) /\ h' = Append(h, Step("op", Len(works) + 1, o, [Exp0 EXCEPT !.err = err']))
             /\ works' = Append(works, Rec(o, "none", TRUE)) /\ UNCHANGED <<hung, comm, ready>>
Live == {w \in 1 .. Len(works) : works[w].st # "none"}
Wait == /\ Live # {}
        /\ \E w \in {Pick(Live)}, ms \in {Pick({0, 0, 20})} :
             LET x == works[w]
                 held == hung /\ x.st = "ran"
             IN
             /\ h' = Append(h, Step("wait", w, [NoOp EXCEPT !.n = ms],
                       IF x.st = "late" \/ (held /\ ms > 0) THEN [Exp0 EXCEPT !.res = 0, !.done = 1, !.succ = 0]
                       ELSE [Exp0 EXCEPT !.res = 1, !.done = IF held THEN 0 ELSE 1]))
             /\ works' = (IF x.st = "late" THEN works
                          ELSE IF held THEN [works EXCEPT ![w].st = IF ms > 0 THEN "late" ELSE "ran", ![w].ruined = TRUE]
                          ELSE [Upto(works, w) EXCEPT ![w].st = "done"])
        /\ UNCHANGED <<err, hung, comm, ready>>
Viewable == {v \in Live : works[v].st = "done" /\ ~works[v].ruined}
View == /\ Viewable # {}
        /\ \E w \in {Pick(Viewable)} : h' = Append(h, Step("view", w, works[w].o, [Exp0 EXCEPT !.outs = Outs(works[w].o)]))
        /\ UNCHANGED <<err, hung, works, comm, ready>>
Hang == hung' = ~hung /\ h' = Append(h, Step(IF hung THEN "unhang" ELSE "hang", 0, NoOp, Exp0)) /\ UNCHANGED <<err, works, comm, ready>>
End == /\ Rank = 0 /\ ~hung /\ (comm => ready) /\ \A w \in 1 .. Len(works) : works[w].st # "ran"
       /\ \E c \in {Pick({"abort", "shutdown"})} :
          /\ err' = (IF c = "abort" THEN {2} ELSE {0})
          /\ h' = Append(h, Step(c, 0, NoOp, [Exp0 EXCEPT !.err = err', !.calls = IF comm THEN <<<<IF c = "abort" THEN "abort" ELSE "destroy">>>> ELSE << >>]))
       /\ comm' = FALSE /\ ready' = FALSE /\ UNCHANGED <<hung, works>>
Next == /\ Kind = "sample" /\ n < Steps /\ n' = n + 1
        /\ \/ Issue \/ Issue \/ Fail \/ FailId \/ Wait \/ Wait \/ View \/ Hang \/ End
Spec == Init /\ [][Next]_vars
Emit == (Kind = "single" \/ n = Steps) => PrintT(ToJson(h))
=============================================================================
