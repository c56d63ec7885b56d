----------------------------- MODULE FileReader -----------------------------
(* N05, the design: a reader of state files over cells.  Every possible file  *)
(* (any sequence of cell values up to a size) is read; the reader must stop   *)
(* inside the file, accept exactly the images of the model's structure, and   *)
(* touch the model only when it accepts.                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS V,            \* cell values are 0..V
          MaxSize,
          Damaged,      \* how many cells are replaced (1 to 3)
          Model         \* the model: a sequence of [name, dims] (a name is a sequence of cells); data size = product of dims
VARIABLES file, pos, i, heads, seen, targets, bad, pc, copied, maxread
vars == <<file, pos, i, heads, seen, targets, bad, pc, copied, maxread>>
Magic == 1
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Size(k) == Prod(Model[k].dims)
Cells(a, n) == [j \in 1..n |-> file[a + j]]          \* n cells from offset a
\* the images: the header of every state, then the data, in the same order and without gaps
RECURSIVE Heads(_, _, _), HLen(_)
HLen(k) == IF k > Len(Model) THEN 0 ELSE 4 + Len(Model[k].name) + Len(Model[k].dims) + HLen(k + 1)
Heads(p, j, off) == IF j > Len(Model) THEN <<>> ELSE LET k == p[j] IN <<Len(Model[k].name), Len(Model[k].dims), off, Size(k)>> \o Model[k].name \o Model[k].dims \o Heads(p, j + 1, off + Size(k))
RECURSIVE DLen(_)
DLen(k) == IF k > Len(Model) THEN 0 ELSE Size(k) + DLen(k + 1)
Prefix(p) == <<Magic, Len(Model)>> \o Heads(p, 1, 2 + HLen(1))
Orders == {p \in [1..Len(Model) -> 1..Len(Model)] : \A a, b \in 1..Len(Model) : p[a] = p[b] => a = b}
Saved == Prefix([j \in 1..Len(Model) |-> j])
\* a file naming the same states in another order is an image too
IsImage == Len(file) = Len(Saved) + DLen(1) /\ \E p \in Orders : SubSeq(file, 1, Len(Saved)) = Prefix(p)

\* any file at all would be too many: the files are every image with a bounded number of cells replaced, truncated or extended anywhere
Init == /\ \E a, b, c \in 1..Len(Saved), x, y, z \in 0..V, n \in 0..MaxSize :
             LET whole == [Saved EXCEPT ![a] = x, ![b] = y, ![c] = z] \o [j \in 1..DLen(1) |-> 0] \o <<0>>
             IN a <= b /\ b <= c /\ (Damaged = 1 => a = b /\ x = y) /\ (Damaged <= 2 => b = c /\ y = z) /\ n <= Len(whole) /\ file = SubSeq(whole, 1, n)
        /\ pos = 0 /\ i = 0 /\ heads = <<>> /\ seen = {} /\ targets = <<>> /\ bad = FALSE /\ pc = "magic" /\ copied = {} /\ maxread = 0
S == Len(file)
Fail == pc' = "refused" /\ UNCHANGED <<file, pos, i, heads, seen, targets, bad, copied, maxread>>
Max(a, b) == IF a > b THEN a ELSE b
Begin == /\ pc = "magic"
         /\ IF S < 2 THEN Fail
            ELSE IF file[1] # Magic THEN Fail
            ELSE /\ pos' = 2 /\ maxread' = 2 /\ pc' = "head" /\ UNCHANGED <<file, i, heads, seen, targets, bad, copied>>
HeadStep ==
  /\ pc = "head"
  /\ IF i = file[2] THEN pc' = "layout" /\ i' = 1 /\ UNCHANGED <<file, pos, heads, seen, targets, bad, copied, maxread>>
     ELSE IF S - pos < 4 THEN Fail
     ELSE LET nl == file[pos + 1] nd == file[pos + 2] off == file[pos + 3] sz == file[pos + 4]
          IN IF nl > S - pos - 4 THEN Fail
             ELSE IF nd > S - pos - 4 - nl THEN Fail
             ELSE LET name == Cells(pos + 4, nl) dims == Cells(pos + 4 + nl, nd)
                      k == {q \in 1..Len(Model) : Model[q].name = name}
                      m == IF k = {} THEN 0 ELSE CHOOSE q \in k : TRUE
                      good == m # 0 /\ name \notin seen /\ dims = Model[m].dims /\ sz = Size(m)
                  IN /\ seen' = seen \cup {name} /\ pos' = pos + 4 + nl + nd /\ maxread' = Max(maxread, pos + 4 + nl + nd)
                     /\ heads' = Append(heads, [off |-> off, sz |-> sz])
                     /\ bad' = (bad \/ ~good)
                     /\ targets' = IF good THEN Append(targets, [m |-> m, off |-> off]) ELSE targets
                     /\ i' = i + 1 /\ UNCHANGED <<file, pc, copied>>
Layout ==      \* the declared data regions must tile the rest of the file
  /\ pc = "layout"
  /\ IF i > Len(heads) THEN (IF pos # S \/ bad \/ Len(targets) # Len(Model) THEN Fail
                             ELSE pc' = "copy" /\ i' = 1 /\ UNCHANGED <<file, pos, heads, seen, targets, bad, copied, maxread>>)
     ELSE IF heads[i].off # pos \/ heads[i].sz > S - pos THEN Fail
     ELSE pos' = pos + heads[i].sz /\ i' = i + 1 /\ UNCHANGED <<file, heads, seen, targets, bad, pc, copied, maxread>>
Copy ==
  /\ pc = "copy"
  /\ IF i > Len(targets) THEN pc' = "accepted" /\ UNCHANGED <<file, pos, i, heads, seen, targets, bad, copied, maxread>>
     ELSE /\ copied' = copied \cup {targets[i].m} /\ maxread' = Max(maxread, targets[i].off + Size(targets[i].m)) /\ i' = i + 1
          /\ UNCHANGED <<file, pos, heads, seen, targets, bad, pc>>
Next == Begin \/ HeadStep \/ Layout \/ Copy
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

InBounds == maxread <= S
AcceptsImages == pc \in {"accepted", "refused"} => ((pc = "accepted") <=> IsImage)
AllOrNothing == (pc = "refused" => copied = {}) /\ (pc = "accepted" => copied = 1..Len(Model))
Finishes == <>(pc \in {"accepted", "refused"})
=============================================================================
