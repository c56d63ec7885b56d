---------------------------- MODULE ProcessGroups ----------------------------
(* The registry of a process group.  A device type is served by the back end of the back end type it was given last; *)
(* a back end type has one back end object, the first registered for it.  h: what is done and what is to be seen.    *)
(* Objects 1..4 are recording stand-ins, 0 is the one that initialisation made; -1: none.                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Wrapped, Steps
VARIABLES dt, to, def, tmo, nm, ds, bd, pgb, desc, h, n, over
vars == <<dt, to, def, tmo, nm, ds, bd, pgb, desc, h, n, over>>
Types == {1, 7, 8}
Objs == 1 .. 4
Pick(S) == RandomElement(S)
Of(d) == IF dt[d] = -1 THEN -1 ELSE to[dt[d]]
Reg == {d \in {0, 1} : dt[d] # -1}
InUse == {to[y] : y \in Types} \cap Objs
Served == {Of(d) : d \in Reg} \cap Objs
Q == [reg |-> {<<d, Of(d)>> : d \in Reg}, types |-> {<<y, to[y]>> : y \in {z \in Types : to[z] # -1}}, def |-> def,
      tmo |-> tmo, nm |-> nm, ds |-> ds, bd |-> bd, desc |-> desc]
Log(c, a, e) == h' = Append(h, [c |-> c, a |-> a, e |-> e, q |-> Q])
None == [obj |-> -1, ret |-> "", waits |-> 0, objs |-> {}]
Init == /\ dt = [d \in {0, 1} |-> IF Wrapped /\ d = 1 THEN 1 ELSE -1]
        /\ to = [y \in Types |-> IF Wrapped /\ y = 1 THEN 0 ELSE -1]
        /\ def = (IF Wrapped THEN 1 ELSE 0) /\ tmo = [o \in Objs |-> 1800000] /\ nm = [o \in Objs |-> ""] /\ ds = [o \in Objs |-> ""]
        /\ bd = [o \in Objs |-> -1] /\ pgb = -1 /\ desc = "" /\ h = << >> /\ n = 0 /\ over = FALSE
Back(d, y, o) == LET new == to[y] = -1 /\ o # -1 IN
                 /\ dt' = [dt EXCEPT ![d] = y]
                 /\ to' = (IF new THEN [to EXCEPT ![y] = o] ELSE to)
                 /\ bd' = (IF new THEN [bd EXCEPT ![o] = pgb] ELSE bd)
                 /\ UNCHANGED <<def, tmo, nm, ds, pgb, desc, over>>
                 /\ h' = Append(h, [c |-> "back", a |-> <<d, y, o>>, e |-> None, q |-> Q'])
Reg1 == \E d \in {Pick({0, 0, 1})}, y \in {Pick(Types)} :
          \E o \in {IF to[y] = -1 THEN Pick(Objs \cup {-1}) ELSE IF to[y] = 0 THEN -1 ELSE Pick({to[y], -1})} : Back(d, y, o)
Set(c, v) == h' = Append(h, [c |-> c, a |-> <<v>>, e |-> None, q |-> Q'])
Default == \E y \in {Pick(Types)} : def' = y /\ UNCHANGED <<dt, to, tmo, nm, ds, bd, pgb, desc, over>> /\ Set("default", y)
Timeout == \E v \in {Pick({1, 250, 60000})} : tmo' = [o \in Objs |-> IF o \in InUse THEN v ELSE tmo[o]] /\ UNCHANGED <<dt, to, def, nm, ds, bd, pgb, desc, over>> /\ Set("timeout", v)
Name == \E v \in {Pick({"a", "b"})} : nm' = [o \in Objs |-> IF o \in Served THEN v ELSE nm[o]] /\ UNCHANGED <<dt, to, def, tmo, ds, bd, pgb, desc, over>> /\ Set("name", v)
Desc == \E v \in {Pick({"x", "y"})} : ds' = [o \in Objs |-> IF o \in Served THEN v ELSE ds[o]] /\ desc' = v /\ UNCHANGED <<dt, to, def, tmo, nm, bd, pgb, over>> /\ Set("desc", v)
Bound == \E v \in {Pick({-1, 0, 3})} : pgb' = v /\ UNCHANGED <<dt, to, def, tmo, nm, ds, bd, desc, over>> /\ Set("bound", v)
Same == UNCHANGED <<dt, to, def, tmo, nm, ds, bd, pgb, desc, over>>
All == \E c \in {Pick({"abort", "shutdown"})} : Log(c, << >>, [None EXCEPT !.objs = InUse]) /\ Same
Release == /\ n > Steps \div 2 /\ to' = [y \in Types |-> -1] /\ UNCHANGED <<dt, def, tmo, nm, ds, bd, pgb, desc, over>>
           /\ h' = Append(h, [c |-> "release", a |-> << >>, e |-> None, q |-> Q'])
Kinds == {"broadcast", "allReduce", "reduce", "allGather", "reduceScatter", "send", "recv"}
Coll == /\ Of(0) >= 1
        /\ \E c \in {Pick(Kinds)}, direct \in {IF Wrapped THEN Pick({0, 0, 1}) ELSE 1}, a \in {Pick(0 .. 3)}, b \in {Pick(1 .. 5)}, k \in {Pick(1 .. 4)}, z \in {Pick({0, 0, 0, 1})} :
             Log("coll", <<direct, c, a, b, k, z>>, [None EXCEPT !.obj = Of(0), !.ret = IF z = 1 THEN "null" ELSE "same"])
        /\ Same
Barrier == /\ \E direct \in {IF Wrapped THEN Pick({0, 1}) ELSE 1}, k \in {Pick(0 .. 3)}, z \in {Pick({0, 0, 1})}, a \in {Pick({-1, 0, 1})} :
                LET o == IF direct = 1 /\ a >= 0 THEN Of(a) ELSE IF def \in Types THEN to[def] ELSE -1
                    asy == direct = 1 \/ a = 0 IN
                /\ o >= 1
                /\ Log("barrier", <<direct, "barrier", a, k, 1, z>>,
                       [None EXCEPT !.obj = o, !.ret = IF z = 1 \/ ~asy THEN "null" ELSE "same", !.waits = IF z = 0 /\ ~asy THEN 1 ELSE 0])
           /\ Same
Destroy == /\ Wrapped /\ n > Steps - 2 /\ over' = TRUE /\ Log("destroy", << >>, [None EXCEPT !.objs = InUse])
           /\ UNCHANGED <<dt, to, def, tmo, nm, ds, bd, pgb, desc>>
Next == /\ n < Steps /\ ~over /\ n' = n + 1
        /\ \/ Reg1 \/ Reg1 \/ Default \/ Timeout \/ Name \/ Desc \/ Bound \/ All \/ Release \/ Coll \/ Barrier \/ Destroy
Spec == Init /\ [][Next]_vars
\* a device that has a type whose back end is known is served by it and by no other
Routed == \A d \in Reg : to[dt[d]] # -1 => Of(d) = to[dt[d]]
Emit == (n = Steps \/ over) => PrintT(ToJson(h))
=============================================================================
