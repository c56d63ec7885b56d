--------------------------- MODULE TensorMachine ---------------------------
(* V01: a machine of named tensors.  A tensor is a value; deriving makes a   *)
(* new value, modifying replaces the value of the named tensor, and nothing  *)
(* else in the machine moves.  Whether the implementation shares memory      *)
(* between the names is invisible at this level (CowMachine shows a design   *)
(* that shares memory and refines this machine).                             *)
EXTENDS TensorOps, Json
CONSTANTS Regs,       \* sequence of register names
          Shapes,     \* shapes of created tensors
          Len0,       \* steps of a history
          Derives, Mutations,   \* operation families enabled
          Arith,      \* the element type has arithmetic
          Extras      \* larger set of arguments
VARIABLES val, log, fresh, done
vars == <<val, log, fresh, done>>

RegSet == Range(Regs)
None == [s |-> <<>>, d |-> <<>>]           \* no scalar has an empty value, so this is no tensor
Live == {r \in RegSet : val[r] # None}
Free == {r \in RegSet : val[r] = None}
V(r) == val[r]

\* an operation applied: name, result register, operands (registers or literals), integer lists, floats, piece of a list result
Lit(dt, t) == [dt |-> dt, t |-> t]
Op(name, ins, il, fl, pick) == [op |-> name, ins |-> ins, il |-> il, fl |-> fl, pick |-> pick, lits |-> <<>>]
OpL(name, ins, il, fl, lits) == [op |-> name, ins |-> ins, il |-> il, fl |-> fl, pick |-> -1, lits |-> lits]

Init == val = [r \in RegSet |-> None] /\ log = <<>> /\ fresh = 0 /\ done = FALSE

Bound(t) == \A k \in 1..Len(t.d) : AbsI(t.d[k]) <= 1000
Small(t) == Len(t.d) <= 24 /\ Len(t.s) <= 4
Do(r, v, o) == /\ val' = [val EXCEPT ![r] = v]
               /\ log' = Append(log, [o |-> o, out |-> r, vals |-> [q \in RegSet |-> val'[q]]])
               /\ fresh' = fresh + 1 /\ done' = FALSE

Ramp0(sh) == [s |-> sh, d |-> [k \in 1..Prod(sh) |-> ((fresh * 17 + k) % 50) + 1]]
Create(r, sh) == Do(r, Ramp0(sh), [OpL("create", <<>>, <<>>, <<>>, <<Lit("v", Ramp0(sh))>>) EXCEPT !.pick = 0])
Drop(r) == Do(r, None, Op("drop", <<>>, <<>>, <<>>, 0))

(* results that are new tensors: <<operation, value>> *)
D(name, r, il, v) == <<Op(name, <<r>>, il, <<>>, -1), v>>
DP(name, r, il, k, v) == <<Op(name, <<r>>, il, <<>>, k), v>>
ShapeDerives(r) ==
  LET t == V(r) n == Rank(t) IN
  {D("clone", r, <<>>, t), D("reshape", r, <<<<-1>>>>, Reshape(t, <<-1>>)), D("view", r, <<<<1>> \o t.s>>, Reshape(t, <<1>> \o t.s)),
   D("reshape", r, <<t.s>>, t), D("squeeze", r, <<<<>>>>, Squeeze(t, <<>>)), D("unsqueeze", r, <<<<0>>>>, Unsqueeze(t, 0)), D("unsqueeze", r, <<<<-1>>>>, Unsqueeze(t, -1))}
  \cup (IF n >= 1 THEN {D("flatten", r, <<<<0, -1>>>>, Flatten(t, 0, -1)), D("unflatten", r, <<<<0>>, <<1, -1>>>>, Unflatten(t, 0, <<1, -1>>))} ELSE {})
MoveDerives(r) ==
  LET t == V(r) n == Rank(t) IN
  {D("permuteAll", r, <<>>, PermuteAll(t))}
  \cup (IF n >= 1 THEN {D("transpose", r, <<<<0, n - 1>>>>, Transpose(t, 0, n - 1)), D("concat", r, <<<<0>>>>, t)} ELSE {})
  \cup (IF n >= 1 /\ t.s[1] = 1 THEN {D("expand", r, <<<<2>> \o Tail(t.s)>>, Expand(t, <<2>> \o Tail(t.s))), D("expand", r, <<t.s>>, t)} ELSE {})
SliceDerives(r) ==
  LET t == V(r) n == Rank(t) IN
  IF n = 0 THEN {} ELSE
  {D("narrow", r, <<<<0, p[1], p[2]>>>>, Narrow(t, 0, p[1], p[2])) : p \in {q \in (0..(t.s[1] - 1)) \X (1..t.s[1]) : q[1] + q[2] <= t.s[1] /\ (Extras \/ q[2] \in {1, t.s[1]})}}
  \cup {DP("split", r, <<<<1, 0>>>>, k - 1, Split(t, 1, 0)[k]) : k \in IF Extras THEN 1..t.s[1] ELSE {t.s[1]}}
  \cup {DP("chunk", r, <<<<2, 0>>>>, 0, Chunk(t, 2, 0)[1])}
  \cup (IF n >= 2 THEN {D("index", r, <<<<i>>>>, Index(t, <<i>>)) : i \in {0, t.s[1] - 1}} \cup {D("narrow", r, <<<<1, t.s[2] - 1, 1>>>>, Narrow(t, 1, t.s[2] - 1, 1))} ELSE {})
PairDerives(r) ==
  {<<Op("add", <<r, q>>, <<>>, <<>>, -1), Map2(V(r), V(q), LAMBDA a, b : a + b)>> : q \in {x \in Live : Arith /\ V(x).s = V(r).s}}
  \cup {<<Op("maximum", <<r, q>>, <<>>, <<>>, -1), Map2(V(r), V(q), LAMBDA a, b : MaxI(a, b))>> : q \in {x \in Live : Arith /\ V(x).s = V(r).s}}
  \cup {<<Op("concat", <<r, q>>, <<<<0>>>>, <<>>, -1), Concat(<<V(r), V(q)>>, 0)>> : q \in {x \in Live : V(x).s = V(r).s /\ V(x).s # <<>>}}
  \cup {<<Op("neg", <<r>>, <<>>, <<>>, -1), Map1(V(r), LAMBDA a : -a)>> : q \in {x \in {r} : Arith}}
DerivesOf(r) == (IF "shape" \in Derives THEN ShapeDerives(r) ELSE {}) \cup (IF "move" \in Derives THEN MoveDerives(r) ELSE {})
                \cup (IF "slice" \in Derives THEN SliceDerives(r) ELSE {}) \cup (IF "pair" \in Derives THEN PairDerives(r) ELSE {})

(* modifications of register r: <<operation, new value>> *)
MaskOf(t) == [s |-> t.s, d |-> [k \in 1..Len(t.d) |-> (k + fresh) % 2]]
NewVal == ((fresh * 7) % 40) + 60
M(name, r, il, fl, v) == <<Op(name, <<r>>, il, fl, -1), v>>
FillMuts(r) ==
  LET t == V(r) IN
  {M("fill_", r, <<>>, <<NewVal>>, Map1(t, LAMBDA x : NewVal)), M("fillZero_", r, <<>>, <<>>, Map1(t, LAMBDA x : 0)), M("fillOne_", r, <<>>, <<>>, Map1(t, LAMBDA x : 1)),
   <<OpL("fillMasked_", <<r, "L1">>, <<>>, <<NewVal>>, <<Lit("b", MaskOf(t))>>), Mk(t.s, LAMBDA ix : IF At(MaskOf(t), ix) = 1 THEN NewVal ELSE At(t, ix))>>}
  \cup (IF Arith THEN {M("fillBernoulli_", r, <<>>, <<1>>, Map1(t, LAMBDA x : 1)), M("fillUniform_", r, <<>>, <<3, 3>>, Map1(t, LAMBDA x : 3))} ELSE {})
ArithMuts(r) ==
  LET t == V(r) peers == {x \in Live : V(x).s = t.s} sc == Scalar(NewVal) IN
  IF ~Arith THEN {} ELSE
  UNION {{<<Op(nm, <<r, q>>, <<>>, IF nm = "addI" THEN <<1>> ELSE <<>>, -1), Map2(t, V(q), LAMBDA a, b : a + b)>> : nm \in {"add_", "addI"}}
         \cup {<<Op("sub_", <<r, q>>, <<>>, <<>>, -1), Map2(t, V(q), LAMBDA a, b : a - b)>>} : q \in peers}
  \cup {<<OpL("mulI", <<r, "L1">>, <<>>, <<>>, <<Lit("v", Scalar(2))>>), Map1(t, LAMBDA a : 2 * a)>>,
        <<OpL("clampMax_", <<r, "L1">>, <<>>, <<>>, <<Lit("v", Scalar(9))>>), Map1(t, LAMBDA a : MinI(a, 9))>>,
        M("neg_", r, <<>>, <<>>, Map1(t, LAMBDA a : -a)), M("abs_", r, <<>>, <<>>, Map1(t, LAMBDA a : AbsI(a)))}
OutMuts(r) ==    \* r is the output argument
  LET t == V(r) peers == {x \in Live : V(x).s = t.s} IN
  IF ~Arith THEN {} ELSE
  UNION {{<<[Op("addOut", <<q, p>>, <<>>, <<1>>, -2) EXCEPT !.pick = -2], Map2(V(q), V(p), LAMBDA a, b : a + b)>> : p \in peers}
         \cup {<<Op("negOut", <<q>>, <<>>, <<>>, -2), Map1(V(q), LAMBDA a : -a)>>,
               <<Op("maximumOut", <<q, r>>, <<>>, <<>>, -2), Map2(V(q), t, LAMBDA a, b : MaxI(a, b))>>,
               <<[OpL("fillMaskedOut", <<q, "L1">>, <<>>, <<NewVal>>, <<Lit("b", MaskOf(t))>>) EXCEPT !.pick = -2], Mk(t.s, LAMBDA ix : IF At(MaskOf(t), ix) = 1 THEN NewVal ELSE At(V(q), ix))>>} : q \in peers}
IndexMuts(r) ==
  LET t == V(r) n == Rank(t) IN
  IF n = 0 THEN {} ELSE
  LET i == fresh % t.s[1]
      src == [s |-> Tail(t.s), d |-> [k \in 1..Prod(Tail(t.s)) |-> NewVal + k]]
      ixs == [s |-> Replace(t.s, 1, 1), d |-> [k \in 1..Prod(Replace(t.s, 1, 1)) |-> (k + fresh) % t.s[1]]]
      sv == [s |-> ixs.s, d |-> [k \in 1..Len(ixs.d) |-> NewVal - k]]
      rows == [s |-> <<1>>, d |-> <<i>>]
  IN {<<OpL("indexPut_", <<r, "L1">>, <<<<i>>>>, <<>>, <<Lit("v", src)>>), IndexPut(t, <<i>>, src)>>,
      <<OpL("indexPut_", <<r, "L1">>, <<<<i>>>>, <<>>, <<Lit("v", Scalar(NewVal))>>), IndexPut(t, <<i>>, Scalar(NewVal))>>,
      <<OpL("scatter_", <<r, "L1", "L2">>, <<<<0>>>>, <<>>, <<Lit("i64", ixs), Lit("v", sv)>>), Scatter(t, 0, ixs, sv)>>,
      <<OpL("indexPutAdvance_", <<r, "L1", "L2">>, <<>>, <<>>, <<Lit("v", Scalar(NewVal)), Lit("i64", rows)>>), IndexPutAdvance(t, <<rows>>, Scalar(NewVal))>>}
CopyMuts(r) == {<<Op("copy_", <<r, q>>, <<>>, <<>>, -1), V(q)>> : q \in {x \in Live : x # r /\ V(x).s = V(r).s}}
ShapeMuts(r) ==
  LET t == V(r) n == Rank(t) IN
  {M("reshape_", r, <<<<-1>>>>, <<>>, Reshape(t, <<-1>>)), M("squeeze_", r, <<<<>>>>, <<>>, Squeeze(t, <<>>)), M("unsqueeze_", r, <<<<0>>>>, <<>>, Unsqueeze(t, 0)),
   M("permuteAll_", r, <<>>, <<>>, PermuteAll(t))}
  \cup (IF n >= 1 THEN {M("flatten_", r, <<<<0, -1>>>>, <<>>, Flatten(t, 0, -1)), M("transpose_", r, <<<<0, n - 1>>>>, <<>>, Transpose(t, 0, n - 1)),
                        M("unflatten_", r, <<<<0>>, <<1, -1>>>>, <<>>, Unflatten(t, 0, <<1, -1>>))} ELSE {})
MutsOf(r) == (IF "fill" \in Mutations THEN FillMuts(r) ELSE {}) \cup (IF "arith" \in Mutations THEN ArithMuts(r) ELSE {}) \cup (IF "out" \in Mutations THEN OutMuts(r) ELSE {})
             \cup (IF "index" \in Mutations THEN IndexMuts(r) ELSE {}) \cup (IF "copy" \in Mutations THEN CopyMuts(r) ELSE {}) \cup (IF "reshape" \in Mutations THEN ShapeMuts(r) ELSE {})

FirstFree == Regs[Min({i \in 1..Len(Regs) : Regs[i] \in Free})]
DeriveStep == /\ Free # {}
              /\ \E r \in Live : \E dv \in DerivesOf(r) : Small(dv[2]) /\ Bound(dv[2]) /\ Do(FirstFree, dv[2], dv[1])
MutateStep == \E r \in Live : \E m \in MutsOf(r) : Small(m[2]) /\ Bound(m[2]) /\ Do(r, m[2], m[1])
CreateStep == Free # {} /\ \E sh \in Shapes : Create(FirstFree, sh)
DropStep == \E r \in Live : Cardinality(Live) >= 2 /\ Drop(r)

CONSTANT Plan     \* sequence of "c" | "d" | "m" | "x"; empty: free histories of Len0 steps
Full == Len(log) = (IF Plan = <<>> THEN Len0 ELSE Len(Plan))
FreeStep == IF Len(log) = 0 THEN CreateStep ELSE (CreateStep \/ DeriveStep \/ MutateStep \/ DropStep)
PlanStep == CASE Plan[Len(log) + 1] = "c" -> CreateStep
              [] Plan[Len(log) + 1] = "d" -> DeriveStep
              [] Plan[Len(log) + 1] = "m" -> MutateStep
              [] OTHER -> DropStep
Finish == Full /\ ~done /\ done' = TRUE /\ UNCHANGED <<val, log, fresh>>
Next == \/ ~Full /\ (IF Plan = <<>> THEN FreeStep ELSE PlanStep)
        \/ Finish

(* properties *)
TypeOK == \A r \in Live : WellFormed(V(r))
\* every step changes at most the register it names
Isolated == \A i \in 2..Len(log) : \A r \in RegSet : r # log[i].out => log[i].vals[r] = log[i - 1].vals[r]
Emit == done => PrintT(ToJson([steps |-> log]))
=============================================================================
