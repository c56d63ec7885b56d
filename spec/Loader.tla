------------------------------- MODULE Loader -------------------------------
(* Mini-batch loading: a data set, a sampler that fixes the order of its samples, and a loader that hands them out in
   batches.  The order is part of the state: natural order, any permutation (shuffling), or any list a user-defined
   sampler gives (repeats and omissions included).  Samples have three fields whose values are determined by the sample's
   number, so that a batch can be checked element by element.  Loaders may be iterated any number of times, in full or in
   part, by several iterators at once. *)
EXTENDS Integers, Sequences, FiniteSets

CONSTANTS Sizes, Batches, MaxLog

\* orders a user-defined sampler may give (a few, for exploring the design)
Lists(k) == {<<>>} \cup (IF k > 0 THEN {<<0>>, <<k - 1, 0, k - 1>>} ELSE {})

VARIABLES n, b, drop, kind, order, its, log

vars == <<n, b, drop, kind, order, its, log>>

Perms(S) == {p \in [1..Cardinality(S) -> S] : \A i, j \in 1..Cardinality(S) : i # j => p[i] # p[j]}
Natural(k) == [i \in 1..k |-> i - 1]
IsPerm(p, k) == Len(p) = k /\ {p[i] : i \in 1..k} = 0..(k - 1)

\* what the loader reports as its size, and what its k-th batch (from 0) contains
Count == IF drop THEN Len(order) \div b ELSE (Len(order) + b - 1) \div b
Min2(x, y) == IF x < y THEN x ELSE y
Batch(k) == SubSeq(order, k * b + 1, Min2((k + 1) * b, Len(order)))

\* the fields of sample i: a 2x3 matrix, a scalar, a vector of 2
Field(i, f) == CASE f = 1 -> [j \in 1..6 |-> 100 * i + j]
                 [] f = 2 -> <<i>>
                 [] f = 3 -> <<0 - i, i * i>>
FieldShape(f) == CASE f = 1 -> <<2, 3>> [] f = 2 -> <<>> [] f = 3 -> <<2>>
Stacked(items, f) ==
    LET w == Len(Field(0, f)) IN
    [k \in 1..(w * Len(items)) |-> Field(items[((k - 1) \div w) + 1], f)[((k - 1) % w) + 1]]
StackShape(items, f) == <<Len(items)>> \o FieldShape(f)

Init == /\ n \in Sizes /\ b \in Batches /\ drop \in BOOLEAN
        /\ kind \in {"natural", "shuffle", "sequential", "random", "list"}
        /\ order = <<>> /\ its = <<>> /\ log = <<[k |-> "none"]>>

\* the loader is made: the order is fixed
Make(o) == /\ log[Len(log)].k = "none"
           /\ CASE kind \in {"natural", "sequential"} -> o = Natural(n)
                [] kind \in {"shuffle", "random"} -> IsPerm(o, n)
                [] OTHER -> o \in Lists(n)
           /\ order' = o /\ log' = <<[k |-> "make"]>> /\ UNCHANGED <<n, b, drop, kind, its>>

Made == log[Len(log)].k # "none"
Begin == /\ Made /\ its' = Append(its, 0) /\ log' = Append(log, [k |-> "begin"]) /\ UNCHANGED <<n, b, drop, kind, order>>
Take(i) == /\ Made /\ i \in DOMAIN its /\ its[i] < Count
           /\ its' = [its EXCEPT ![i] = @ + 1]
           /\ log' = Append(log, [k |-> "take", it |-> i, at |-> its[i], items |-> Batch(its[i])])
           /\ UNCHANGED <<n, b, drop, kind, order>>
\* reading the same batch again without advancing
Peek(i) == /\ Made /\ i \in DOMAIN its /\ its[i] < Count
           /\ log' = Append(log, [k |-> "peek", it |-> i, at |-> its[i], items |-> Batch(its[i])])
           /\ UNCHANGED <<n, b, drop, kind, order, its>>
End(i) == /\ Made /\ i \in DOMAIN its /\ its[i] = Count
          /\ log' = Append(log, [k |-> "end", it |-> i]) /\ UNCHANGED <<n, b, drop, kind, order, its>>

Next == /\ Len(log) < MaxLog
        /\ \/ \E o \in (IF kind \in {"natural", "sequential"} THEN {Natural(n)} ELSE IF kind = "list" THEN Lists(n) ELSE Perms(0..(n - 1))) : Make(o)
           \/ Begin \/ \E i \in DOMAIN its : Take(i) \/ Peek(i) \/ End(i)
Spec == Init /\ [][Next]_vars

\* ------------------------------------------------------------------------------------------------ what must hold
Takes(i) == SelectSeq(log, LAMBDA e : e.k = "take" /\ e.it = i)
RECURSIVE Cat(_)
Cat(s) == IF s = <<>> THEN <<>> ELSE Head(s).items \o Cat(Tail(s))
\* an iterator that has finished has handed out exactly the sampler's samples, in order, less the dropped remainder
ExactlyOnce == Made => \A i \in DOMAIN its : its[i] = Count =>
    Cat(Takes(i)) = SubSeq(order, 1, IF drop THEN (Len(order) \div b) * b ELSE Len(order))
\* every batch but the last is full, none is empty, and a short one occurs only when the remainder is kept
FullBatches == Made => \A k \in 0..(Count - 1) :
    /\ Len(Batch(k)) \in 1..b
    /\ (k < Count - 1 \/ drop) => Len(Batch(k)) = b
Sized == Made => \A i \in DOMAIN its : its[i] <= Count
=============================================================================
