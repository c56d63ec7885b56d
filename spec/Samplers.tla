------------------------------ MODULE Samplers ------------------------------
(* Samplers shared among ranks.  R ranks each hold a sampler over the same n samples with the same seed; every rank's epoch
   is set on its own, in any order, any number of times.  What a rank reads is a function of its current epoch.  The design
   below (one global order per epoch, padded by wrapping around or cut, dealt out in consecutive blocks) is shown to satisfy
   Partition; the real samplers are held to Partition only, so that dealing the same order out in another way is accepted. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sizes, Ranks, Epochs, MaxLog

VARIABLES n, R, shuffle, drop, epoch, orders, log
vars == <<n, R, shuffle, drop, epoch, orders, log>>

IsPerm(p, k) == Len(p) = k /\ {p[i] : i \in 1..k} = 0..(k - 1)
Natural(k) == [i \in 1..k |-> i - 1]
Perms(k) == {p \in [1..k -> 0..(k - 1)] : IsPerm(p, k)}

Share == IF drop THEN n \div R ELSE (n + R - 1) \div R
Padded(o) == [i \in 1..(Share * R) |-> o[((i - 1) % n) + 1]]
Dealt(o, r) == IF n = 0 THEN <<>> ELSE SubSeq(Padded(o), (r - 1) * Share + 1, r * Share)

\* ------------------------------------------------------------------------------------------------ the guarantee
\* L: the lists of all ranks for one epoch
Times(L, x) == Cardinality({<<r, i>> \in (1..R) \X (1..Share) : L[r][i] = x})
Partition(L) ==
    /\ DOMAIN L = 1..R
    /\ \A r \in 1..R : Len(L[r]) = Share /\ \A i \in 1..Share : L[r][i] \in 0..(n - 1)
    /\ LET all == {L[r][i] : r \in 1..R, i \in 1..Share} IN
       IF drop THEN Cardinality(all) = R * Share      \* none repeated, fewer than R omitted
       ELSE all = 0..(n - 1)                          \* none omitted; R * Share - n < R repeats by construction

\* ------------------------------------------------------------------------------------------------ the design
Init == /\ n \in Sizes /\ R \in Ranks /\ shuffle \in BOOLEAN /\ drop \in BOOLEAN
        /\ epoch = [r \in 1..R |-> 0]
        /\ orders \in [Epochs -> IF shuffle THEN Perms(n) ELSE {Natural(n)}]
        /\ log = <<>>
Set(r, e) == /\ epoch' = [epoch EXCEPT ![r] = e] /\ log' = Append(log, [k |-> "set", r |-> r, ep |-> e])
             /\ UNCHANGED <<n, R, shuffle, drop, orders>>
Read(r) == /\ log' = Append(log, [k |-> "read", r |-> r, ep |-> epoch[r], list |-> Dealt(orders[epoch[r]], r)])
           /\ UNCHANGED <<n, R, shuffle, drop, epoch, orders>>
Next == Len(log) < MaxLog /\ \E r \in 1..R : Read(r) \/ \E e \in Epochs : Set(r, e)
Spec == Init /\ [][Next]_vars

PartitionHolds == \A e \in Epochs : Partition([r \in 1..R |-> Dealt(orders[e], r)])
Reads(r, e) == {i \in DOMAIN log : log[i].k = "read" /\ log[i].r = r /\ log[i].ep = e}
Reproducible == \A r \in 1..R : \A e \in Epochs : Cardinality({log[i].list : i \in Reads(r, e)}) <= 1
\* when every rank has read in an epoch, what they read partitions the data, however the reads were interleaved
Collected == \A e \in Epochs : (\A r \in 1..R : Reads(r, e) # {}) =>
    Partition([r \in 1..R |-> log[CHOOSE i \in Reads(r, e) : TRUE].list])
=============================================================================
