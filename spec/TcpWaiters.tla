------------------------------ MODULE TcpWaiters ------------------------------
(* The waiting protocol of the store's server at the grain of its critical sections: a waiter that finds a   *)
(* key missing enters its name in the lists of keys and sleeps; a setter wakes the names listed for its key;  *)
(* a woken waiter looks again.  ListenAll: the name is entered for every key, not only the missing ones;      *)
(* EraseOnNotify: a setter empties the list.  Only ListenAll /\ ~EraseOnNotify loses no wake-up.              *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS Keys, Waiters, MaxOps, ListenAll, EraseOnNotify
VARIABLES kv, phase, wants, list, ops
vars == <<kv, phase, wants, list, ops>>

Init == /\ kv = {} /\ ops = 0
        /\ phase = [w \in Waiters |-> "idle"]
        /\ wants = [w \in Waiters |-> {}]
        /\ list = [k \in Keys |-> {}]
Look(w, ks, again) ==
    IF ks \subseteq kv
    THEN /\ phase' = [phase EXCEPT ![w] = "done"]
         /\ list' = [k \in Keys |-> list[k] \ {w}]
    ELSE /\ phase' = [phase EXCEPT ![w] = "asleep"]
         /\ list' = IF again THEN list
                    ELSE [k \in Keys |-> IF k \in (IF ListenAll THEN ks ELSE ks \ kv) THEN list[k] \cup {w} ELSE list[k]]
Wait(w, ks) == /\ phase[w] \in {"idle", "done"} /\ ops < MaxOps /\ ops' = ops + 1
               /\ wants' = [wants EXCEPT ![w] = ks]
               /\ Look(w, ks, FALSE)
               /\ UNCHANGED kv
Wake(w) == /\ phase[w] = "woken" /\ Look(w, wants[w], TRUE) /\ UNCHANGED <<kv, wants, ops>>
Expire(w) == /\ phase[w] \in {"asleep", "woken"} /\ ops < MaxOps /\ ops' = ops + 1
             /\ phase' = [phase EXCEPT ![w] = "done"]
             /\ list' = [k \in Keys |-> list[k] \ {w}]
             /\ UNCHANGED <<kv, wants>>
Set(k) == /\ ops < MaxOps /\ ops' = ops + 1
          /\ kv' = kv \cup {k}
          /\ phase' = [w \in Waiters |-> IF w \in list[k] /\ phase[w] = "asleep" THEN "woken" ELSE phase[w]]
          /\ list' = IF EraseOnNotify THEN [list EXCEPT ![k] = {}] ELSE list
          /\ UNCHANGED wants
Del(k) == /\ ops < MaxOps /\ ops' = ops + 1 /\ k \in kv
          /\ kv' = kv \ {k}
          /\ UNCHANGED <<phase, wants, list>>
Next == \/ \E w \in Waiters : Wake(w) \/ Expire(w) \/ \E ks \in (SUBSET Keys) \ {{}} : Wait(w, ks)
        \/ \E k \in Keys : Set(k) \/ Del(k)
Spec == Init /\ [][Next]_vars
NoLostWakeup == \A w \in Waiters : phase[w] = "asleep" => ~(wants[w] \subseteq kv)
NoStaleName  == \A w \in Waiters : phase[w] \in {"idle", "done"} => \A k \in Keys : w \notin list[k]
=============================================================================
