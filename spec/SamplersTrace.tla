--------------------------- MODULE SamplersTrace ---------------------------
(* Checks histories recorded from real samplers (one per rank, possibly re-created from the same seed) against the
   guarantee of Samplers. *)
EXTENDS Samplers, TLC, Json
Traces == ndJsonDeserialize("traces.ndjson")
VARIABLES t, i, got
H == Traces[t]
E == H.events[i]
More == i <= Len(H.events)
TInit == /\ t \in 1..Len(Traces) /\ i = 1 /\ got = <<>>
         /\ n = H.n /\ R = H.r /\ shuffle = H.shuffle /\ drop = H.drop
         /\ epoch = [r \in 1..R |-> 0] /\ orders = <<>> /\ log = <<>>
\* got: the reads so far, each (rank, epoch, list); the harness numbers the epochs (and seeds) that differ
Known(r, e) == {j \in DOMAIN got : got[j].r = r /\ got[j].ep = e}
TSet == E.e = "set" /\ epoch' = [epoch EXCEPT ![E.r] = E.ep] /\ UNCHANGED got
TRead == /\ E.e = "read" /\ E.size = Len(E.list) /\ E.ep = epoch[E.r]
         /\ \A j \in Known(E.r, E.ep) : got[j].list = E.list
         /\ got' = IF Known(E.r, E.ep) = {} THEN Append(got, [r |-> E.r, ep |-> E.ep, list |-> E.list]) ELSE got
         /\ UNCHANGED epoch
TNext == More /\ (TSet \/ TRead) /\ i' = i + 1 /\ UNCHANGED <<t, n, R, shuffle, drop, orders, log>>
TSpec == TInit /\ [][TNext]_<<vars, t, i, got>>
Eps == {got[j].ep : j \in DOMAIN got}
Whole(e) == \A r \in 1..R : Known(r, e) # {}
ListOf(r, e) == got[CHOOSE j \in Known(r, e) : TRUE].list
\* at the end: every epoch read by all ranks is a partition; the order depends on the epoch exactly when shuffling (asked
\* only of data sets large enough that two independent orders do not coincide by chance)
Final == /\ \A e \in Eps : Whole(e) => Partition([r \in 1..R |-> ListOf(r, e)])
         /\ shuffle /\ Share >= 12 => \A e1, e2 \in Eps : e1 # e2 => \A r \in 1..R :
                 (Known(r, e1) # {} /\ Known(r, e2) # {}) => ListOf(r, e1) # ListOf(r, e2)
         /\ ~shuffle => \A r \in 1..R : Cardinality({got[j].list : j \in {k \in DOMAIN got : got[k].r = r}}) <= 1
Report == ~More => PrintT(ToJson([t |-> t, ok |-> Final]))
=============================================================================
