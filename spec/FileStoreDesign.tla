--------------------------- MODULE FileStoreDesign ---------------------------
(* The file store at the grain of its system calls: one file per key, a lock, and processes that may die at   *)
(* any call.  Lock: "store" - one lock file beside the keys; "key" - the key's own file is opened (and so      *)
(* created) to be locked; "none".  Rename: a new value is written aside and moved into place.                  *)
(* Only Lock = "store" with Rename keeps all three invariants.                                                 *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Procs, Adds, Lock, Rename, Deaths
VARIABLES file, holder, pc, val, done, seen, deaths, everSet
vars == <<file, holder, pc, val, done, seen, deaths, everSet>>

\* content of the key's file: whole TRUE and a number, or half-written
Absent == [here |-> FALSE, whole |-> TRUE, n |-> 0]
F(n, w) == [here |-> TRUE, whole |-> w, n |-> n]
Kinds == {"add", "get"}

Init == /\ file = Absent /\ holder = 0 /\ deaths = 0 /\ everSet = FALSE
        /\ pc = [p \in Procs |-> "idle"]
        /\ val = [p \in Procs |-> 0]
        /\ done = [p \in Procs |-> 0]
        /\ seen = [p \in Procs |-> [here |-> TRUE, whole |-> TRUE, n |-> 0]]
Go(p, a, b) == pc[p] = a /\ pc' = [pc EXCEPT ![p] = b]
Begin(p) == /\ done[p] < Adds
            /\ IF Lock = "none" \/ holder = 0
               THEN /\ Go(p, "idle", "read")
                    /\ holder' = IF Lock = "none" THEN 0 ELSE p
                    /\ file' = IF Lock = "key" /\ ~file.here THEN F(0, TRUE) ELSE file
               ELSE FALSE
            /\ UNCHANGED <<val, done, seen, deaths, everSet>>
Read(p) == /\ Go(p, "read", "write")
           /\ val' = [val EXCEPT ![p] = file.n + 1]
           /\ UNCHANGED <<file, holder, done, seen, deaths, everSet>>
\* in place: the file is emptied, then filled; aside: only the move touches the key
Write(p) == /\ Go(p, "write", "fill")
            /\ file' = IF Rename THEN file ELSE F(0, FALSE)
            /\ UNCHANGED <<holder, val, done, seen, deaths, everSet>>
Fill(p) == /\ Go(p, "fill", "unlock")
           /\ file' = F(val[p], TRUE)
           /\ everSet' = TRUE
           /\ UNCHANGED <<holder, val, done, seen, deaths>>
Unlock(p) == /\ Go(p, "unlock", "idle")
             /\ holder' = 0
             /\ done' = [done EXCEPT ![p] = @ + 1]
             /\ UNCHANGED <<file, val, seen, deaths, everSet>>
\* a reader: lock, look, unlock (in one step: nothing of it is visible in between but the look)
Look(p) == /\ pc[p] = "idle" /\ (Lock = "none" \/ holder = 0)
           /\ seen' = [seen EXCEPT ![p] = IF file.here THEN file ELSE Absent]
           /\ UNCHANGED <<file, holder, pc, val, done, deaths, everSet>>
\* an existence check takes no lock
Die(p) == /\ deaths < Deaths /\ pc[p] \notin {"idle", "dead"}
          /\ deaths' = deaths + 1
          /\ pc' = [pc EXCEPT ![p] = "dead"]
          /\ holder' = IF holder = p THEN 0 ELSE holder
          /\ UNCHANGED <<file, val, done, seen, everSet>>
Next == \E p \in Procs : Begin(p) \/ Read(p) \/ Write(p) \/ Fill(p) \/ Unlock(p) \/ Look(p) \/ Die(p)
Spec == Init /\ [][Next]_vars

Sum[S \in SUBSET Procs] == IF S = {} THEN 0 ELSE LET p == CHOOSE x \in S : TRUE IN done[p] + Sum[S \ {p}]
NoLostAdd  == (\A p \in Procs : pc[p] = "idle") => file.n = Sum[Procs]
NoPartial  == \A p \in Procs : seen[p].whole
NoPhantom  == file.here => (everSet \/ (holder # 0 /\ Lock # "key"))
=============================================================================
