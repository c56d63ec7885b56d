------------------------------ MODULE KVTrace ------------------------------
(* Linearizability and waiting of the key-value stores, judged from recorded histories of calls and returns.  *)
(* Each call takes effect at one instant between its call and its return; blocking reads take effect only     *)
(* while all their keys are present, or give up only after their timeout with some key absent; and nothing     *)
(* that could go on is left waiting for more than the slack of (virtual) time.                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS File, Slack      \* File: no server, always up
Traces == ndJsonDeserialize("traces.ndjson")
Absent == 99999
Empty  == 90000            \* the empty value; counts as 0 when added to
Text   == 100000           \* codes from here on are values that are not numbers
Far    == 2000000000
Blocking == {"get", "wait", "serve"}

VARIABLES t, i, kv, pend, up, downAt, conn, regs, now
vars == <<t, i, kv, pend, up, downAt, conn, regs, now>>

Workers == 1 .. Traces[t].workers
Keys    == 1 .. Traces[t].keys
Idle    == [st |-> "idle", op |-> "", ks |-> {}, v |-> 0, tmo |-> 0, t0 |-> 0, since |-> -1, r |-> 0, dl |-> 0]
More    == i <= Len(Traces[t].ev)
Ev      == Traces[t].ev[i]
Max(a, b) == IF a > b THEN a ELSE b
Range(s)  == {s[k] : k \in 1 .. Len(s)}

Ready(p, m, rg) == CASE p.op = "serve" -> rg >= p.v
                     [] OTHER          -> \A k \in p.ks : m[k] # Absent
Refresh(pd, m, rg) == [w \in DOMAIN pd |->
    IF pd[w].st = "open" /\ pd[w].op \in Blocking
    THEN [pd[w] EXCEPT !.since = IF Ready(pd[w], m, rg) THEN (IF @ = -1 THEN now ELSE @) ELSE -1]
    ELSE pd[w]]

Due(w) == LET p == pend[w] IN
    CASE p.st = "done"                        -> p.dl + Slack
      [] p.st # "open"                        -> Far
      [] p.op = "open"                        -> p.t0 + 15000
      [] p.op = "serve" /\ p.v > 0            -> IF p.since # -1 THEN Max(p.since, p.t0) + 15000
                                                 ELSE IF p.tmo = 0 THEN Far ELSE p.t0 + p.tmo + 15000
      [] p.op = "serve"                       -> p.t0 + 15000
      [] ~conn[w] /\ p.op # "close"           -> p.t0 + Slack
      [] up # "yes" /\ p.op # "close"         -> Max(p.t0, downAt) + Slack
      [] p.op \in Blocking                    -> IF p.since # -1 THEN Max(p.since, p.t0) + Slack
                                                 ELSE IF p.tmo = 0 THEN Far ELSE p.t0 + p.tmo + Slack
      [] OTHER                                -> p.t0 + Slack

Init == /\ t \in 1 .. Len(Traces)
        /\ i = 1 /\ now = 0 /\ regs = 0 /\ downAt = 0
        /\ kv = [k \in Keys |-> Absent]
        /\ pend = [w \in Workers |-> Idle]
        /\ conn = [w \in Workers |-> FALSE]
        /\ up = IF File THEN "yes" ELSE "no"

Tick == /\ More /\ Ev.t > now
        /\ \A w \in Workers : Ev.t <= Due(w)
        /\ now' = Ev.t
        /\ UNCHANGED <<t, i, kv, pend, up, downAt, conn, regs>>

Call == /\ More /\ Ev.t = now /\ Ev.k = "call" /\ pend[Ev.w].st = "idle"
        /\ i' = i + 1
        /\ LET p == [Idle EXCEPT !.st = "open", !.op = Ev.op, !.ks = Range(Ev.ks), !.v = Ev.v, !.tmo = Ev.tmo, !.t0 = now]
               stop == ~File /\ Ev.op = "close" /\ Ev.v = 1
           IN /\ pend' = Refresh([pend EXCEPT ![Ev.w] = p], kv, regs)
              /\ up' = IF stop /\ up = "yes" THEN "closing" ELSE up
              /\ downAt' = IF stop /\ up = "yes" THEN now ELSE downAt
        /\ UNCHANGED <<t, kv, conn, regs, now>>

Done(w, r, m, rg) ==
    /\ pend' = Refresh([pend EXCEPT ![w].st = IF @ = "zomb" THEN "idle" ELSE "done", ![w].r = r, ![w].dl = now], m, rg)
    /\ kv' = m /\ regs' = rg
    /\ UNCHANGED <<t, i, now>>

\* what each call answers when it takes effect now
Num(x) == IF x = Absent \/ x = Empty THEN 0 ELSE x
Failed(op) == CASE op = "get" -> Empty [] op = "add" -> -1 [] op = "num" -> -1 [] OTHER -> 0
Works(w) == conn[w] /\ (up = "yes" \/ up = "closing")
TheKey(p) == CHOOSE k \in p.ks : TRUE

Take(w) ==
    LET p == pend[w] IN
    /\ p.st \in {"open", "zomb"}
    /\ CASE p.op \in {"open", "serve", "close"} -> FALSE
         [] ~Works(w) -> FALSE
         [] p.op = "set" -> Done(w, 0, [kv EXCEPT ![TheKey(p)] = p.v], regs)
         [] p.op = "get" -> kv[TheKey(p)] # Absent /\ Done(w, kv[TheKey(p)], kv, regs)
         [] p.op = "add" -> IF kv[TheKey(p)] >= Text THEN Done(w, -1, kv, regs)
                            ELSE Done(w, Num(kv[TheKey(p)]) + p.v, [kv EXCEPT ![TheKey(p)] = Num(@) + p.v], regs)
         [] p.op = "del" -> Done(w, IF kv[TheKey(p)] # Absent THEN 1 ELSE 0, [kv EXCEPT ![TheKey(p)] = Absent], regs)
         [] p.op = "chk" -> Done(w, IF \A k \in p.ks : kv[k] # Absent THEN 1 ELSE 0, kv, regs)
         [] p.op = "num" -> Done(w, Cardinality({k \in Keys : kv[k] # Absent}), kv, regs)
         [] p.op = "wait" -> (\A k \in p.ks : kv[k] # Absent) /\ Done(w, 0, kv, regs)
    /\ UNCHANGED <<up, downAt, conn>>

\* a blocking read gives up; any call fails once the server is going down or its client never got through
GiveUp(w) ==
    LET p == pend[w] IN
    /\ p.st = "open"
    /\ p.op \notin {"open", "serve", "close"}
    /\ CASE ~conn[w] -> TRUE
         [] up # "yes" -> TRUE
         [] OTHER -> p.op \in Blocking /\ p.tmo > 0 /\ now >= p.t0 + p.tmo /\ \E k \in p.ks : kv[k] = Absent
    /\ Done(w, Failed(p.op), kv, regs)
    /\ UNCHANGED <<up, downAt, conn>>

\* a client gets through to the server, or gives up when there is none
Open(w) ==
    LET p == pend[w] IN
    /\ p.st = "open" /\ p.op = "open"
    /\ CASE File \/ up = "yes" -> conn' = [conn EXCEPT ![w] = TRUE] /\ Done(w, 0, kv, regs + 1)
         [] OTHER -> conn' = [conn EXCEPT ![w] = FALSE] /\ Done(w, 0, kv, regs)
    /\ UNCHANGED <<up, downAt>>
\* the server starts; unless there is one already
Start(w) ==
    LET p == pend[w] IN
    /\ p.st = "open" /\ p.op = "serve" /\ ~conn[w]
    /\ CASE up = "no" -> /\ up' = "yes" /\ conn' = [conn EXCEPT ![w] = TRUE]
                         /\ pend' = Refresh(pend, kv, regs + 1) /\ regs' = regs + 1
                         /\ UNCHANGED <<t, i, kv, now>>
         [] OTHER -> up' = up /\ conn' = conn /\ Done(w, 0, kv, regs)
    /\ UNCHANGED downAt
Serve(w) ==
    LET p == pend[w] IN
    /\ p.st = "open" /\ p.op = "serve" /\ conn[w]
    /\ p.v <= 0 \/ regs >= p.v \/ (p.tmo > 0 /\ now >= p.t0 + p.tmo)
    /\ Done(w, 0, kv, regs)
    /\ UNCHANGED <<up, downAt, conn>>
Close(w) ==
    LET p == pend[w] IN
    /\ p.st = "open" /\ p.op = "close"
    /\ conn' = [conn EXCEPT ![w] = FALSE]
    /\ up' = IF p.v = 1 /\ up = "closing" THEN "down" ELSE up
    /\ Done(w, 0, kv, IF conn[w] /\ p.v # 1 THEN regs - 1 ELSE regs)
    /\ UNCHANGED downAt

Ret == /\ More /\ Ev.t = now /\ Ev.k = "ret"
       /\ pend[Ev.w].st = "done" /\ pend[Ev.w].r = Ev.r
       /\ i' = i + 1
       /\ pend' = [pend EXCEPT ![Ev.w] = Idle]
       /\ UNCHANGED <<t, kv, up, downAt, conn, regs, now>>
Kill == /\ More /\ Ev.t = now /\ Ev.k = "kill"
        /\ i' = i + 1
        /\ pend' = [pend EXCEPT ![Ev.w].st = IF @ \in {"open", "zomb"} THEN "zomb" ELSE "idle"]
        /\ UNCHANGED <<t, kv, up, downAt, conn, regs, now>>
End == /\ More /\ Ev.t = now /\ Ev.k = "end"
       /\ i' = i + 1
       /\ UNCHANGED <<t, kv, pend, up, downAt, conn, regs, now>>

Next == Tick \/ Call \/ Ret \/ Kill \/ End
        \/ \E w \in Workers : Take(w) \/ GiveUp(w) \/ Open(w) \/ Start(w) \/ Serve(w) \/ Close(w)
Spec == Init /\ [][Next]_vars
Report == ~More => PrintT(ToJson([ok |-> t]))
=============================================================================
