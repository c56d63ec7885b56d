----------------------------- MODULE FileDamage -----------------------------
(* N05, the cases: where the fields of a saved file lie, and what may happen  *)
(* to them.  A file with any header cell other than the image's is no image   *)
(* of the model (FileReader), so it must be refused.                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json
CONSTANTS Structure,    \* sequence of [name |-> length of the name, dims |-> <<..>>, size |-> bytes per element]
          Pairs         \* also damage two fields at once
VARIABLES case
RECURSIVE Prod(_)
Prod(s) == IF s = <<>> THEN 1 ELSE Head(s) * Prod(Tail(s))
Bytes(k) == Prod(Structure[k].dims) * Structure[k].size
N == Len(Structure)
Fixed == 40
EntryLen(k) == Fixed + Structure[k].name + 8 * Len(Structure[k].dims)
RECURSIVE SumTo(_, _)
SumTo(F(_), k) == IF k = 0 THEN 0 ELSE F(k) + SumTo(F, k - 1)
EntryAt(k) == 24 + SumTo(EntryLen, k - 1)
DataStart == 24 + SumTo(EntryLen, N)
DataAt(k) == DataStart + SumTo(Bytes, k - 1)
FileSize == DataStart + SumTo(Bytes, N)
F(what, off, len) == [what |-> what, off |-> off, len |-> len]
Fields == {F("magic", 0, 8), F("version", 8, 8), F("count", 16, 8)}
          \cup UNION {{F("nameLength", EntryAt(k), 8), F("ndim", EntryAt(k) + 8, 8), F("dtype", EntryAt(k) + 16, 8), F("dataOffset", EntryAt(k) + 24, 8), F("dataSize", EntryAt(k) + 32, 8)} : k \in 1..N}
          \cup UNION {{F("dim", EntryAt(k) + Fixed + Structure[k].name + 8 * (j - 1), 8) : j \in 1..Len(Structure[k].dims)} : k \in 1..N}
Names == {F("name", EntryAt(k) + Fixed, Structure[k].name) : k \in {q \in 1..N : Structure[q].name > 0}}
Values == {"zero", "one", "plus1", "minus1", "double", "max", "min63", "plus32", "plus40", "size", "size+1", "negsmall", "neg8"}
Edit(f, v) == [f |-> f, v |-> v]
Case(k, at, edits, outcome) == [k |-> k, at |-> at, edits |-> edits, outcome |-> outcome]
\* outcomes: refuse; accept; any (but refusing leaves the model alone).  An edit that happens to write the old value is dropped by the runner.
Cases == {Case("cut", n, <<>>, "refuse") : n \in 0..(FileSize - 1)}
         \cup {Case("edit", 0, <<Edit(f, v)>>, "refuse") : f \in Fields, v \in Values}
         \cup {Case("byte", b, <<Edit(f, "flip")>>, "refuse") : f \in Fields, b \in 0..7}
         \cup {Case("byte", b, <<Edit(f, "flip")>>, "renamed") : f \in Names, b \in 0..2}
         \cup {Case("data", n, <<>>, "accept") : n \in DataStart..(FileSize - 1)}
         \cup {Case("more", n, <<>>, "any") : n \in {1, 7, 8, 4096}}
         \cup {Case("copy", 0, <<Edit(f, "from"), Edit(g, "from")>>, "refuse") : f \in Fields, g \in IF Pairs THEN Fields ELSE {}}
         \cup {Case("edit", 0, <<Edit(f, v), Edit(g, w)>>, "refuse") : f \in Fields, g \in IF Pairs THEN Fields ELSE {}, v \in {"plus1", "max", "double", "zero"}, w \in {"minus1", "plus1", "min63"}}
         \cup {Case("swap", k, <<>>, "accept") : k \in {}}
         \cup {Case("whole", 0, <<>>, "accept"), Case("missing", 0, <<>>, "refuse"), Case("directory", 0, <<>>, "refuse"), Case("empty", 0, <<>>, "refuse")}
Init == case \in Cases
Next == UNCHANGED case
FieldsDisjoint == \A f, g \in Fields \cup Names : f = g \/ f.off + f.len <= g.off \/ g.off + g.len <= f.off
Covered == SumTo(LAMBDA k : EntryLen(k), N) + 24 = DataStart
InHeader == \A f \in Fields \cup Names : f.off + f.len <= DataStart
Emit == PrintT(ToJson([case |-> case, size |-> FileSize, data |-> DataStart]))
=============================================================================
