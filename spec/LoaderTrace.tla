---------------------------- MODULE LoaderTrace ----------------------------
(* Checks histories recorded from the real loader and samplers against Loader: each line of the file is one history
   (configuration, then events in order); a history is accepted when every event is a step of the specification that the
   events' data agree with. *)
EXTENDS Loader, TLC, Json

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i, seen

H == Traces[t]
E == H.events[i]
More == i <= Len(H.events)
tvars == <<vars, t, i, seen>>

TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ seen = <<>>
         /\ n = H.n /\ b = H.b /\ drop = H.drop /\ kind = H.kind
         /\ order = <<>> /\ its = <<>> /\ log = <<[k |-> "none"]>>

\* making the loader; a user-defined sampler's list is part of the configuration; the loader reports its size.  The order
\* of a shuffling loader is known only from what it hands out, so it is recorded with the event
TMake == /\ E.e = "make"
         /\ CASE kind = "list" -> order' = H.list
              [] kind \in {"natural", "sequential"} -> order' = Natural(n)
              [] OTHER -> IsPerm(E.order, n) /\ order' = E.order
         /\ log' = <<[k |-> "make"]>> /\ UNCHANGED <<n, b, drop, kind, its, seen>>
TSize == /\ E.e = "size" /\ Made /\ E.size = Count /\ E.batch = b /\ E.data = n /\ UNCHANGED <<vars, seen>>
Agrees(x) == /\ x.no = its[x.it]
             /\ LET items == Batch(its[x.it]) IN
                \A f \in 1..3 : /\ x.shape[f] = StackShape(items, f) /\ x.data[f] = Stacked(items, f)
Ev == CASE E.e = "make" -> TMake
        [] E.e = "size" -> TSize
        [] E.e = "begin" -> Begin /\ UNCHANGED seen
        [] E.e = "take" -> E.it \in DOMAIN its /\ its[E.it] < Count /\ Agrees(E) /\ Take(E.it) /\ UNCHANGED seen
        [] E.e = "peek" -> E.it \in DOMAIN its /\ its[E.it] < Count /\ Agrees(E) /\ Peek(E.it) /\ UNCHANGED seen
        [] E.e = "end" -> End(E.it) /\ UNCHANGED seen
        [] OTHER -> FALSE
TNext == More /\ Ev /\ i' = i + 1 /\ UNCHANGED t
TSpec == TInit /\ [][TNext]_tvars
Report == ~More => PrintT(ToJson([ok |-> t]))
=============================================================================
