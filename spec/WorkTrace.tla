------------------------------ MODULE WorkTrace ------------------------------
(* Accepts histories of a work handle used by several threads: there is an order of the calls, each between its      *)
(* start and its end, in which the handle behaves as one.  Nccl: completion is an event's, and waiting without a     *)
(* timeout only orders; otherwise completion is told by ok and err.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Nccl
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES tr, i, st, fin, exc, ev, finAt, evAt
vars == <<tr, i, st, fin, exc, ev, finAt, evAt>>
T == Traces[tr]
E == T.ev[i]
Idle == [s |-> "idle", op |-> "", a |-> 0, t |-> 0, r |-> 0]
Init == /\ tr \in 1 .. Len(Traces) /\ i = 1 /\ st = [w \in 1 .. T.n |-> Idle] /\ fin = FALSE /\ exc = 0 /\ ev = FALSE /\ finAt = 0 /\ evAt = 0
More == i <= Len(T.ev)
Called == /\ More /\ E.k = "call" /\ st' = [st EXCEPT ![E.w] = [s |-> "in", op |-> E.op, a |-> E.a, t |-> E.t, r |-> 0]]
          /\ i' = i + 1 /\ UNCHANGED <<tr, fin, exc, ev, finAt, evAt>>
Max(a, b) == IF a > b THEN a ELSE b
\* answers come when there is something to say
Prompt(w) == st[w].op = "wait" /\ ~Nccl => E.t <= Max(st[w].t, finAt) + 5
Returned == /\ More /\ E.k = "ret" /\ st[E.w].s = "over" /\ st[E.w].r = E.r /\ Prompt(E.w)
            /\ st' = [st EXCEPT ![E.w] = Idle] /\ i' = i + 1 /\ UNCHANGED <<tr, fin, exc, ev, finAt, evAt>>
Now == E.t
Over(w, r) == st' = [st EXCEPT ![w].s = "over", ![w].r = r] /\ UNCHANGED <<tr, i>>
B(x) == IF x THEN 1 ELSE 0
Done == fin \/ ev
Quiet(w, r) == Over(w, r) /\ UNCHANGED <<fin, exc, ev, finAt, evAt>>
Fin(w, e, r) == Over(w, r) /\ fin' = TRUE /\ exc' = e /\ finAt' = (IF fin THEN finAt ELSE Now) /\ UNCHANGED <<ev, evAt>>
Lin(w) ==
  /\ More /\ st[w].s = "in"
  /\ CASE st[w].op = "ok" -> (IF fin THEN Quiet(w, 0) ELSE Fin(w, 0, 0))
       [] st[w].op = "err" -> (IF fin THEN Quiet(w, 0) \/ Fin(w, st[w].a, 0) ELSE Fin(w, st[w].a, 0))
       [] st[w].op = "ev" -> Over(w, 0) /\ ev' = TRUE /\ evAt' = Now /\ UNCHANGED <<fin, exc, finAt>>
       [] st[w].op = "done" -> Quiet(w, B(Done))
       [] st[w].op = "succ" -> Quiet(w, B(exc = 0))
       [] st[w].op = "exc" -> Quiet(w, exc)
       [] OTHER ->
          IF exc # 0 THEN Quiet(w, 0)
          ELSE \/ Done /\ Fin(w, 0, 1)
               \/ Nccl /\ st[w].a = 0 /\ Quiet(w, 1)
               \/ /\ Nccl /\ st[w].a > 0 /\ ~fin /\ Now >= st[w].a /\ (ev => evAt >= Now - 2)
                  /\ Fin(w, 99, 0)
Next == Called \/ Returned \/ \E w \in 1 .. T.n : Lin(w)
Spec == Init /\ [][Next]_vars
Report == (~More /\ \A w \in 1 .. T.n : st[w].s = "idle") => PrintT(ToJson([ok |-> tr]))
=============================================================================
