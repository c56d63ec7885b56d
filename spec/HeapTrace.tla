------------------------------ MODULE HeapTrace ------------------------------
(* What an allocator above another allocator may do, as seen from outside: requests, returns, and the calls it makes to the
   underlying allocator.  Histories recorded from the real caching allocator are checked against this; where blocks are
   placed, how regions are sized and when cached memory is reused is free, except as stated.

   Addresses are recorded as (region, offset); region 0 means: in no region ever obtained.  In concurrent histories a
   request is recorded after it returned and a return before it is made, so that a block is never recorded live while it is
   not. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i, held, live, req, on, last
\* held: region -> [size, for, cached]; live: id -> [r, off, n]
vars == <<t, i, held, live, req, on, last>>
H == Traces[t]
E == H.events[i]
More == i <= Len(H.events)
Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in (DOMAIN f) \ {k} |-> f[x]]
Overlap(a, b) == a.r = b.r /\ a.off < b.off + b.n /\ b.off < a.off + a.n
Used(r) == \E k \in DOMAIN live : live[k].r = r
Sole == ~H.conc

Init == t \in 1..Len(Traces) /\ i = 1 /\ held = <<>> /\ live = <<>> /\ req = -1 /\ on = TRUE /\ last = "none"

Step ==
  CASE E.e = "req" -> req' = E.n /\ UNCHANGED <<held, live, on>>
    [] E.e = "balloc" ->   \* the underlying allocator grants a region
         \* memory cached for a request of this size is reused when nothing else is in use
         /\ ~(Sole /\ on /\ live = <<>> /\ \E r \in DOMAIN held : held[r].cached /\ held[r].for = req)
         /\ E.r \notin DOMAIN held
         /\ held' = Put(held, E.r, [size |-> E.size, for |-> req, cached |-> on])
         /\ UNCHANGED <<live, req, on>>
    [] E.e = "bfail" -> UNCHANGED <<held, live, req, on>>
    [] E.e = "bfree" ->    \* a region is given back: one that is held, once, with nothing in use inside
         /\ E.r \in DOMAIN held /\ ~Used(E.r)
         /\ held' = Drop(held, E.r) /\ UNCHANGED <<live, req, on>>
    [] E.e = "alloc" ->
         LET b == [r |-> E.r, off |-> E.off, n |-> E.n] IN
         /\ b.r \in DOMAIN held /\ b.off >= 0 /\ b.off + b.n <= held[b.r].size
         /\ E.al % 16 = 0
         /\ \A k \in DOMAIN live : ~Overlap(live[k], b)
         /\ Sole => E.n = req
         /\ live' = Put(live, E.id, b) /\ req' = -1 /\ UNCHANGED <<held, on>>
    [] E.e = "null" ->     \* refused: only when the underlying allocator refused, with no unused memory left to give back
         /\ Sole => last = "bfail" /\ (on => \A r \in DOMAIN held : held[r].cached => Used(r))
         /\ req' = -1 /\ UNCHANGED <<held, live, on>>
    [] E.e = "free" -> /\ E.id \in DOMAIN live /\ live' = Drop(live, E.id) /\ UNCHANGED <<held, req, on>>
    [] E.e = "switch" -> on' = E.on /\ UNCHANGED <<held, live, req>>
    [] E.e = "destroyed" -> /\ live = <<>> /\ held = <<>> /\ UNCHANGED <<held, live, req, on>>
    [] OTHER -> FALSE
Next == More /\ Step /\ last' = E.e /\ i' = i + 1 /\ UNCHANGED t
Spec == Init /\ [][Next]_vars
Report == ~More => PrintT(ToJson([ok |-> t]))
=============================================================================
