------------------------------ MODULE Schedules ------------------------------
(* Schedules for the controlled scheduler.                                                                  *)
(*  "seg": worker a runs i steps, then b runs j steps, then a (c) to its end: every placement of up to two    *)
(*         preemptions;  "pri": workers ranked, the running one demoted at given steps;  "rnd": free choices; *)
(*  "stall": thread t, once it has made i steps, lets the others go first (within free choices): every (t, i). *)
EXTENDS Integers, Sequences, TLC, Json, Randomization
CONSTANTS Workers, Steps, Stride, Kind, Len2, Horizon
VARIABLES s, done
vars == <<s, done>>
Grid == {k * Stride : k \in 0 .. Steps \div Stride}
W == 0 .. Workers - 1
Seg(z) == {[kind |-> "seg", l |-> <<a, i, b, j>>] : a \in W, i \in Grid, b \in W, j \in Grid}
Seg3(z) == {[kind |-> "seg", l |-> <<a, i, b, j, c, k>>] : a \in W, i \in Grid, b \in W, j \in Grid, c \in W, k \in Grid}
Stall(z) == {[kind |-> "stall", l |-> <<t, i>>] : t \in W, i \in Grid}
Good(x) == \A k \in 1 .. (Len(x.l) \div 2) - 1 : x.l[2 * k - 1] # x.l[2 * k + 1] /\ x.l[2 * k + 2] > 0
Rnd(z) == [kind |-> "rnd", l |-> [k \in 1 .. Len2 |-> RandomElement(0 .. 9999)]]
Pri(z) == [kind |-> "pri", l |-> [k \in 1 .. 12 |-> RandomElement(0 .. 999)],
        drop |-> [k \in 1 .. Len2 |-> RandomElement(1 .. Horizon)]]
Init == /\ done = FALSE
        /\ CASE Kind = "seg"  -> s \in {x \in Seg(0) : Good(x)}
             [] Kind = "stall" -> s \in Stall(0)
             [] Kind = "seg3" -> s \in {x \in Seg3(0) : Good(x)}
             [] OTHER         -> s = [kind |-> "none", l |-> << >>]
Next == /\ ~done /\ done' = TRUE
        /\ s' = CASE Kind = "rnd" -> Rnd(s) [] Kind = "pri" -> Pri(s)
                  [] Kind = "mix" -> (IF RandomElement(BOOLEAN) THEN Rnd(s) ELSE Pri(s)) [] OTHER -> s
Spec == Init /\ [][Next]_vars
Emit == done => PrintT(ToJson(s))
=============================================================================
