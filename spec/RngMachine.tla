----------------------------- MODULE RngMachine -----------------------------
(* V08: one shared random stream.  A draw's outcome is determined by the     *)
(* seed and by the draws made since it was set -- its token -- and by        *)
(* nothing else: not by what ran before the seed was set, not by operations  *)
(* that draw nothing, not by the thread.  Tokens of different draws in one   *)
(* history differ, so outcomes do not repeat.                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS DrawOps, StillOps, Seeds, ProgLen, MaxGarbage
VARIABLES prog, seed, hist, log, pc, garbage, round
vars == <<prog, seed, hist, log, pc, garbage, round>>

None == -1
Init == /\ prog \in [1..ProgLen -> DrawOps] /\ seed = None /\ hist = <<>> /\ log = <<>> /\ pc = 0 /\ garbage = 0 /\ round = 0

\* a step of the log: what is done, and the token of its outcome (none before the first seed)
Tok == [seed |-> seed, pos |-> hist]
DoDraw(op, th) == /\ log' = Append(log, [op |-> op, th |-> th, tok |-> Tok])
                  /\ hist' = Append(hist, op)
Still(op) == /\ log' = Append(log, [op |-> op, th |-> FALSE, tok |-> [seed |-> None - 1, pos |-> <<>>]])
             /\ UNCHANGED hist

\* before each round some unrelated activity may have consumed the stream
Mess(op) == /\ pc = 0 /\ garbage < MaxGarbage /\ DoDraw(op, FALSE) /\ garbage' = garbage + 1
            /\ UNCHANGED <<prog, seed, pc, round>>
SetSeed(s) == /\ pc = 0 /\ seed' = s /\ hist' = <<>> /\ log' = Append(log, [op |-> "seed", th |-> FALSE, tok |-> [seed |-> s, pos |-> <<>>]])
              /\ pc' = 1 /\ garbage' = 0 /\ round' = round + 1 /\ UNCHANGED prog
Step(th) == /\ pc \in 1..ProgLen /\ DoDraw(prog[pc], th) /\ pc' = pc + 1 /\ UNCHANGED <<prog, seed, garbage, round>>
Idle(op) == /\ pc \in 2..ProgLen /\ garbage = 0 /\ round = 2 /\ Still(op) /\ garbage' = 1 /\ UNCHANGED <<prog, seed, pc, round>>
Again == /\ pc = ProgLen + 1 /\ round = 1 /\ pc' = 0 /\ garbage' = 0 /\ UNCHANGED <<prog, seed, hist, log, round>>
Done == pc = ProgLen + 1 /\ round = 2

\* which disturbances accompany a program is fixed by the program, to bound the enumeration
MessOps == {prog[1], prog[ProgLen]}
Next == \/ \E op \in MessOps : Mess(op)
        \/ \E s \in Seeds : SetSeed(s) /\ (round = 1 => s = seed)
        \/ Step(round = 2 /\ pc = 2 /\ prog[1] = prog[2])
        \/ \E op \in StillOps : Idle(op)
        \/ Again
Spec == Init /\ [][Next]_vars

\* the determinism the property asks for: the second round's tokens are the first round's
Draws(r) == LET idx == {i \in 1..Len(log) : log[i].op = "seed"}
                starts == [k \in 1..Cardinality(idx) |-> CHOOSE i \in idx : Cardinality({j \in idx : j <= i}) = k]
                lo == starts[r] hi == IF r < Len(starts) THEN starts[r + 1] - 1 ELSE Len(log)
            IN SelectSeq(SubSeq(log, lo + 1, hi), LAMBDA e : e.op \in DrawOps)
SameTokens == Done => \A k \in 1..ProgLen : Draws(1)[k].tok = Draws(2)[k].tok
Fresh == \A i, j \in 1..Len(log) : (i < j /\ log[i].tok.seed >= 0 /\ log[i].tok = log[j].tok /\ log[i].op \in DrawOps /\ log[j].op \in DrawOps)
            => \E k \in (i + 1)..(j - 1) : log[k].op = "seed"
Emit == Done => PrintT(ToJson([log |-> log]))
=============================================================================
