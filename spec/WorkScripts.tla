----------------------------- MODULE WorkScripts -----------------------------
(* What several threads do with one work handle.  It is always finished in the end (at time 30, by the last).        *)
EXTENDS Integers, Sequences, TLC, Json
CONSTANTS Kind, Threads, Length
VARIABLES p, n
Pick(S) == RandomElement(S)
O(o, a) == [o |-> o, a |-> a]
BaseOp(z) == LET x == Pick(1 .. 12) IN
             CASE x <= 2 -> O("ok", 0) [] x <= 4 -> O("err", Pick(1 .. 3)) [] x <= 7 -> O("wait", 0) [] x = 8 -> O("wait", 100000)
               [] x = 9 -> O("done", 0) [] x = 10 -> O("succ", 0) [] x = 11 -> O("exc", 0) [] OTHER -> O("at", Pick({5, 10, 29}))
NcclOp(z) == LET x == Pick(1 .. 12) IN
             CASE x <= 2 -> O("wait", 0) [] x <= 4 -> O("wait", 50) [] x <= 6 -> O("wait", Pick({3, 10, 20}))
               [] x <= 8 -> O("done", 0) [] x = 9 -> O("succ", 0) [] x = 10 -> O("exc", 0) [] OTHER -> O("at", Pick({2, 8, 12, 29, 31}))
Last(z) == IF Kind = "base" THEN <<O("at", 30), O(Pick({"ok", "err"}), 7), O("wait", 0), O("done", 0)>>
           ELSE <<O("at", Pick({0, 1, 10, 30})), O("ev", 0), O("wait", 50), O("done", 0)>>
Init == n = 0 /\ p = [t \in 1 .. Threads |-> << >>]
Next == /\ n <= Length /\ n' = n + 1
        /\ p' = IF n = Length THEN [p EXCEPT ![Threads] = Last(n)]
                ELSE [t \in 1 .. Threads |-> IF t = Threads THEN p[t] ELSE Append(p[t], IF Kind = "base" THEN BaseOp(n) ELSE NcclOp(n))]
Spec == Init /\ [][Next]_<<p, n>>
Emit == n = Length + 1 => PrintT(ToJson(p))
=============================================================================
