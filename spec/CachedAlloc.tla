----------------------------- MODULE CachedAlloc -----------------------------
(* The caching allocator: memory is obtained from an underlying allocator in regions, cut into blocks on request, merged
   with free neighbours on return, kept in two pools (small and large), and given back when the underlying allocator
   refuses a request.  Caching can be switched off and on at any time; blocks handed out directly meanwhile are regions of
   their own.  Sizes are the real ones. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json

CONSTANTS Sizes, MaxLive, MaxOps, MaxRegions

MinBlock == 512
SmallSize == 1048576
SmallBuffer == 2097152
LargeBuffer == 20971520
MinLarge == 10485760
RoundLarge == 2097152
RegionLimit == 1000000000    \* the underlying allocator refuses more than this

\* held: region -> [size, small, direct]; blocks: set of [r, off, n, st]: st = "free" or the number of the request served
VARIABLES held, blocks, nextr, nextid, on, refuse, log, live

vars == <<held, blocks, nextr, nextid, on, refuse, log, live>>

Round(x) == IF x < MinBlock THEN MinBlock ELSE MinBlock * ((x + MinBlock - 1) \div MinBlock)
Region(x) == IF x <= SmallSize THEN SmallBuffer ELSE IF x < MinLarge THEN LargeBuffer ELSE RoundLarge * ((x + RoundLarge - 1) \div RoundLarge)
Splits(rest, small) == IF small THEN rest >= MinBlock ELSE rest > SmallSize

Put(f, k, v) == [x \in (DOMAIN f) \cup {k} |-> IF x = k THEN v ELSE f[x]]
Free == {b \in blocks : b.st = 0}
In(r) == {b \in blocks : b.r = r}
Idle == {r \in DOMAIN held : ~held[r].direct /\ \A b \in In(r) : b.st = 0}

Init == /\ held = <<>> /\ blocks = {} /\ nextr = 1 /\ nextid = 1 /\ on = TRUE /\ refuse = FALSE /\ log = <<>> /\ live = <<>>

\* serve request `id` for x bytes from free block f
Cut(f, x, id, bs) ==
    LET sz == Round(x)  rest == f.n - sz IN
    (bs \ {f}) \cup (IF Splits(rest, held'[f.r].small)
                     THEN {[r |-> f.r, off |-> f.off, n |-> sz, st |-> id], [r |-> f.r, off |-> f.off + sz, n |-> rest, st |-> 0]}
                     ELSE {[f EXCEPT !.st = id]})

Fits(x) == {b \in Free : b.n >= Round(x) /\ held[b.r].small = (Round(x) <= SmallSize)}
Best(S) == CHOOSE b \in S : \A c \in S : b.n < c.n \/ (b.n = c.n /\ (b.r < c.r \/ (b.r = c.r /\ b.off <= c.off)))
Refuses(x) == refuse \/ x > RegionLimit

Alloc(x) ==
    /\ Len(live) < MaxLive /\ nextr <= MaxRegions
    /\ log' = Append(log, [k |-> "alloc", n |-> x]) /\ nextid' = nextid + 1
    /\ UNCHANGED <<on, refuse>>
    /\ CASE ~on /\ Refuses(x) -> UNCHANGED <<held, blocks, nextr, live>>
         [] ~on /\ ~Refuses(x) ->
              /\ held' = Put(held, nextr, [size |-> x, small |-> FALSE, direct |-> TRUE])
              /\ blocks' = blocks \cup {[r |-> nextr, off |-> 0, n |-> x, st |-> nextid]}
              /\ nextr' = nextr + 1 /\ live' = Append(live, nextid)
         [] on /\ Fits(x) # {} ->
              /\ held' = held /\ blocks' = Cut(Best(Fits(x)), x, nextid, blocks) /\ nextr' = nextr /\ live' = Append(live, nextid)
         [] on /\ Fits(x) = {} /\ ~Refuses(Region(Round(x))) ->
              LET f == [r |-> nextr, off |-> 0, n |-> Region(Round(x)), st |-> 0] IN
              /\ held' = Put(held, nextr, [size |-> f.n, small |-> Round(x) <= SmallSize, direct |-> FALSE])
              /\ blocks' = Cut(f, x, nextid, blocks \cup {f}) /\ nextr' = nextr + 1 /\ live' = Append(live, nextid)
         [] OTHER ->  \* refused: give everything idle back, try again, refused again
              /\ held' = [r \in (DOMAIN held) \ Idle |-> held[r]]
              /\ blocks' = {b \in blocks : b.r \notin Idle} /\ UNCHANGED <<nextr, live>>

\* free neighbours of a returned block (at most one on each side, since free blocks are always merged)
Nbr(b) == {c \in Free : c.r = b.r /\ (c.off + c.n = b.off \/ b.off + b.n = c.off)}
MinOf(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Sum(_)
Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE y \in S : TRUE IN x.n + Sum(S \ {x})
Merge(b) == LET all == {b} \cup Nbr(b) IN
            (blocks \ all) \cup {[r |-> b.r, off |-> MinOf({c.off : c \in all}), n |-> Sum(all), st |-> 0]}
FreeNth(j) ==
    /\ j \in DOMAIN live
    /\ LET b == CHOOSE c \in blocks : c.st = live[j] IN
       IF held[b.r].direct
       THEN /\ held' = [r \in (DOMAIN held) \ {b.r} |-> held[r]] /\ blocks' = blocks \ {b}
       ELSE /\ held' = held /\ blocks' = Merge(b)
    /\ live' = [i \in 1..(Len(live) - 1) |-> IF i < j THEN live[i] ELSE live[i + 1]]
    /\ log' = Append(log, [k |-> "free", n |-> j])
    /\ UNCHANGED <<nextr, nextid, on, refuse>>
Switch == /\ on' = ~on /\ log' = Append(log, [k |-> IF on THEN "off" ELSE "on", n |-> 0]) /\ UNCHANGED <<held, blocks, nextr, nextid, refuse, live>>
Refuse == /\ refuse' = ~refuse /\ log' = Append(log, [k |-> IF refuse THEN "grant" ELSE "refuse", n |-> 0]) /\ UNCHANGED <<held, blocks, nextr, nextid, on, live>>

Next == /\ Len(log) < MaxOps
        /\ \/ \E x \in Sizes : Alloc(x)
           \/ \E j \in DOMAIN live : FreeNth(j)
           \/ Switch \/ Refuse
Spec == Init /\ [][Next]_vars

\* for sampled histories: requests and returns in balance, switches rare
SampleNext ==
    /\ Len(log) < MaxOps
    /\ LET d == RandomElement(1..40) IN
       CASE d = 1 -> Switch
         [] d = 2 -> Refuse
         [] d \in 3..22 \/ live = <<>> -> (LET x == RandomElement(Sizes) IN IF Len(live) < MaxLive /\ nextr <= MaxRegions THEN Alloc(x) ELSE IF live = <<>> THEN Switch ELSE FreeNth(1))
         [] OTHER -> (LET j == RandomElement(DOMAIN live) IN FreeNth(j))
SampleSpec == Init /\ [][SampleNext]_vars

\* ------------------------------------------------------------------------------------------------ what must hold
Overlap(a, b) == a.r = b.r /\ a.off < b.off + b.n /\ b.off < a.off + a.n
Disjoint == \A a, b \in blocks : a # b => ~Overlap(a, b)
Backed == \A b \in blocks : b.r \in DOMAIN held /\ b.off >= 0 /\ b.off + b.n <= held[b.r].size
Covered == \A r \in DOMAIN held : Sum(In(r)) = held[r].size
LargeEnough == \A j \in DOMAIN live : \E b \in blocks : b.st = live[j]
Merged == \A a, b \in Free : a # b /\ a.r = b.r => a.off + a.n # b.off
Emit == Len(log) = MaxOps => PrintT(ToJson([log |-> log]))
=============================================================================
