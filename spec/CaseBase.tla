------------------------------ MODULE CaseBase ------------------------------
(* A "call" state machine: the environment picks an operation with operands  *)
(* and arguments (Init chooses the operand shape, Choose the call); the      *)
(* system answers with the tensors the operation means.  Every answered call *)
(* is printed; the runner performs it on the real library and compares.      *)
EXTENDS TensorOps, Json

\* ramp with distinct positive elements
Ramp(sh, base) == [s |-> sh, d |-> [k \in 1..Prod(sh) |-> base + k]]
\* pseudo-random small values, repeating and of both signs
Noise(sh, seed, mod) ==
  [s |-> sh, d |-> [k \in 1..Prod(sh) |-> ((k * 7919 + seed * 104729 + k * k * 31) % mod) - (mod \div 2)]]

\* all shapes of the given ranks over the extents, bounded in size
ShapesOf(ranks, ext, maxn) == {s \in UNION {[1..r -> ext] : r \in ranks} : Prod(s) <= maxn}

Call(op, ins, dts, il, exp) == [op |-> op, ins |-> ins, dts |-> dts, il |-> il, fl |-> <<>>, kind |-> "t", exp |-> exp, tol |-> 0]
CallL(op, ins, dts, il, exp) == [Call(op, ins, dts, il, exp) EXCEPT !.kind = "list"]
CallI(op, ins, dts, il, exp) == [Call(op, ins, dts, il, exp) EXCEPT !.kind = "inplace"]
B01(b) == IF b THEN 1 ELSE 0
=============================================================================
