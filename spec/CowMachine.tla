----------------------------- MODULE CowMachine -----------------------------
(* The copy-on-write design behind V01: tensors are windows (offset, length) *)
(* into shared reference-counted blocks; a write to a window whose block has *)
(* more than one holder first moves the window to a private copy.  TLC       *)
(* checks that this refines independent values: the value of a name changes  *)
(* only when that name is written, and a block is returned exactly when its  *)
(* last holder goes.  (With CopyFirst = FALSE it does not: see V01's run.)   *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Names, MaxBlocks, Size, Vals, CopyFirst
VARIABLES win,     \* name -> [b, off, len], b = 0: not live
          mem,     \* block -> contents (<<>>: returned)
          last     \* name written last (or none)
vars == <<win, mem, last>>
NoName == "-"
Blocks == 1..MaxBlocks
Holders(b) == {n \in Names : win[n].b = b}
Value(n) == IF win[n].b = 0 THEN <<>> ELSE SubSeq(mem[win[n].b], win[n].off + 1, win[n].off + win[n].len)
Free == {b \in Blocks : mem[b] = <<>>}
NewBlock == CHOOSE b \in Free : \A c \in Free : b <= c
Dead == [b |-> 0, off |-> 0, len |-> 0]

Init == win = [n \in Names |-> Dead] /\ mem = [b \in Blocks |-> <<>>] /\ last = NoName
\* blocks without holders are returned
Sweep(w, m) == [b \in Blocks |-> IF \E n \in Names : w[n].b = b THEN m[b] ELSE <<>>]
Create(n, v) == /\ win[n].b = 0 /\ Free # {}
                /\ win' = [win EXCEPT ![n] = [b |-> NewBlock, off |-> 0, len |-> Size]]
                /\ mem' = [mem EXCEPT ![NewBlock] = [i \in 1..Size |-> v]] /\ last' = n
Window(n, p, off, len) == /\ win[n].b = 0 /\ win[p].b # 0 /\ off + len <= win[p].len
                          /\ win' = [win EXCEPT ![n] = [b |-> win[p].b, off |-> win[p].off + off, len |-> len]]
                          /\ UNCHANGED mem /\ last' = n
Write(n, i, v) ==
  /\ win[n].b # 0 /\ i <= win[n].len
  /\ IF CopyFirst /\ Cardinality(Holders(win[n].b)) > 1
     THEN /\ Free # {}
          /\ win' = [win EXCEPT ![n].b = NewBlock]
          /\ mem' = [mem EXCEPT ![NewBlock] = [mem[win[n].b] EXCEPT ![win[n].off + i] = v]]
     ELSE /\ mem' = [mem EXCEPT ![win[n].b][win[n].off + i] = v] /\ UNCHANGED win
  /\ last' = n
Drop(n) == /\ win[n].b # 0 /\ win' = [win EXCEPT ![n] = Dead] /\ mem' = Sweep(win', mem) /\ last' = n
Next == \/ \E n \in Names, v \in Vals : Create(n, v)
        \/ \E n, p \in Names, o \in 0..(Size - 1), l \in 1..Size : Window(n, p, o, l)
        \/ \E n \in Names, i \in 1..Size, v \in Vals : Write(n, i, v)
        \/ \E n \in Names : Drop(n)
Spec == Init /\ [][Next]_vars
Isolation == [][\A n \in Names : n # last' => Value(n)' = Value(n)]_vars
NoLeak == \A b \in Blocks : (mem[b] # <<>>) <=> (Holders(b) # {})
=============================================================================
