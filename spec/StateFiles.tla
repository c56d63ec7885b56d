----------------------------- MODULE StateFiles -----------------------------
(* N04: two models and one file.  A model is a function from state names to   *)
(* (shape, type, content); saving copies the function into the file; loading  *)
(* accepts or refuses as the strictness asks and changes only states that are *)
(* in both -- all of them or none.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Names, Shapes, Types, Acts, MaxLog, MaxStates, Pairs
VARIABLES A, B, file, log, n
vars == <<A, B, file, log, n>>

\* variations of a structure: what may be wrong with a file
St(s, t) == [s |-> s, t |-> t]
Structs == UNION {[d -> {St(s, t) : s \in Shapes, t \in Types}] : d \in {x \in SUBSET Names : Cardinality(x) <= MaxStates}}
Drop(f) == {[x \in DOMAIN f \ {y} |-> f[x]] : y \in DOMAIN f}
Grow(f) == {[x \in DOMAIN f \cup {y} |-> IF x = y THEN CHOOSE e \in {St(s, t) : s \in Shapes, t \in Types} : TRUE ELSE f[x]] : y \in Names \ DOMAIN f}
Rename(f) == {[x \in (DOMAIN f \ {y}) \cup {z} |-> IF x = z THEN f[y] ELSE f[x]] : y \in DOMAIN f, z \in Names \ DOMAIN f}
Reshape(f) == {[f EXCEPT ![y].s = s] : y \in DOMAIN f, s \in Shapes}
Retype(f) == {[f EXCEPT ![y].t = t] : y \in DOMAIN f, t \in Types}
Variants(f) == {f} \cup Drop(f) \cup Grow(f) \cup Rename(f) \cup Reshape(f) \cup Retype(f)

None == [c |-> "none"]
Fill(f, m) == [x \in DOMAIN f |-> [s |-> f[x].s, t |-> f[x].t, c |-> m \o ToString(n)]]
See(a, b) == [A |-> a, B |-> b]
Entry(k, m, strict, ok, a, b) == [k |-> k, m |-> m, strict |-> strict, ok |-> ok, see |-> See(a, b)]
Init == /\ n = 0 /\ file = <<>> /\ log = <<>>
        /\ \E p \in Pairs : /\ A = Fill(p[1], "a") /\ B = Fill(p[2], "b")
Of(m) == IF m = "A" THEN A ELSE B
Put(m, f) == IF m = "A" THEN A' = f /\ UNCHANGED B ELSE B' = f /\ UNCHANGED A
Save(m) == /\ file' = <<Of(m)>> /\ log' = Append(log, Entry("save", m, FALSE, TRUE, A, B)) /\ UNCHANGED <<A, B, n>>
\* saving where no file can be made reports failure
SaveBad(m) == /\ "bad" \in Acts /\ log' = Append(log, Entry("savebad", m, FALSE, FALSE, A, B)) /\ UNCHANGED <<A, B, file, n>>
Match(f, m) == \A x \in DOMAIN f \cap DOMAIN m : f[x].s = m[x].s /\ f[x].t = m[x].t
Accepts(f, m, strict) == Match(f, m) /\ (strict => DOMAIN f = DOMAIN m)
Load(m, strict) ==
  LET f == IF file = <<>> THEN None ELSE file[1]
      ok == file # <<>> /\ Accepts(f, Of(m), strict)
      new == IF ok THEN [x \in DOMAIN Of(m) |-> IF x \in DOMAIN f THEN f[x] ELSE Of(m)[x]] ELSE Of(m)
  IN /\ Put(m, new) /\ UNCHANGED <<file, n>>
     /\ log' = Append(log, Entry("load", m, strict, ok, A', B'))
Scribble(m) == /\ n < 2 /\ n' = n + 1
               /\ Put(m, [x \in DOMAIN Of(m) |-> [Of(m)[x] EXCEPT !.c = m \o "x" \o ToString(n)]]) /\ UNCHANGED file
               /\ log' = Append(log, Entry("scribble", m, FALSE, TRUE, A', B'))
Next == /\ Len(log) < MaxLog
        /\ \E m \in {"A", "B"} : \/ Save(m) \/ SaveBad(m) \/ \E s \in BOOLEAN : Load(m, s)
                                 \/ Scribble(m)
Spec == Init /\ [][Next]_vars

\* a strict load that succeeds leaves the model exactly as the saved one
RoundTrip == [][\A m \in {"A", "B"} : (log' # log /\ log'[Len(log')].k = "load" /\ log'[Len(log')].m = m /\ log'[Len(log')].strict /\ log'[Len(log')].ok)
                   => (IF m = "A" THEN A' ELSE B') = file[1]]_vars
\* structure never changes, and a refused load changes nothing
Keeps == [][DOMAIN A' = DOMAIN A /\ DOMAIN B' = DOMAIN B /\ ((log' # log /\ ~log'[Len(log')].ok) => (A' = A /\ B' = B))]_vars
Fill0(m, f) == [x \in DOMAIN f |-> [s |-> f[x].s, t |-> f[x].t, c |-> m \o "0"]]
Emit == Len(log) = MaxLog => PrintT(ToJson([a |-> See(Fill0("a", A), Fill0("b", B)), log |-> log]))
=============================================================================
