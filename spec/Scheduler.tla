------------------------------ MODULE Scheduler ------------------------------
(* O03: a step schedule over an optimiser.  The decay points are the positive *)
(* multiples of the period.  The machine walks from epoch to epoch, one unit  *)
(* at a time, decaying at each point it passes (and undoing it when it walks  *)
(* back); the property is that only the ends of the walk matter.              *)
EXTENDS Terms, TLC, Json
CONSTANTS Periods, Starts, Jumps, MaxLog
VARIABLES period, start, epoch, decays, log
vars == <<period, start, epoch, decays, log>>

Point(e) == e > 0 /\ (e % period) = 0
RECURSIVE Walk(_, _)
Walk(from, to) == IF from = to THEN 0
                  ELSE IF from < to THEN (IF Point(from + 1) THEN 1 ELSE 0) + Walk(from + 1, to)
                  ELSE Walk(from - 1, to) - (IF Point(from) THEN 1 ELSE 0)
Entry(k, e, d) == [k |-> k, epoch |-> e, decays |-> d]
\* constructing the schedule makes the first move; the rate in force then is the rate of the epoch before
Init == \E p \in Periods, s \in Starts :
          /\ period = p /\ start = s /\ epoch = s + 1
          /\ decays = (IF (s + 1) > 0 /\ ((s + 1) % p) = 0 THEN 1 ELSE 0)
          /\ log = <<Entry("make", s + 1, IF (s + 1) > 0 /\ ((s + 1) % p) = 0 THEN 1 ELSE 0)>>
Move(k, e) == /\ Len(log) < MaxLog /\ epoch' = e /\ decays' = decays + Walk(epoch, e) /\ log' = Append(log, Entry(k, e, decays'))
              /\ UNCHANGED <<period, start>>
Tick == Move("step", epoch + 1)
Jump(e) == Move("jump", e)
OptStep == /\ Len(log) < MaxLog /\ log[Len(log)].k # "opt" /\ log' = Append(log, Entry("opt", epoch, decays)) /\ UNCHANGED <<period, start, epoch, decays>>
Next == Tick \/ (\E e \in Jumps : Jump(e)) \/ OptStep
Spec == Init /\ [][Next]_vars

Passed(e) == IF e <= 0 THEN 0 ELSE e \div period
\* the number of decays is a function of where the schedule started and where it is
ClosedForm == decays = Passed(epoch) - Passed(start)
NoDecayAtZero == (start = -1 /\ epoch = 0) => decays = 0
Emit == Len(log) = MaxLog => PrintT(ToJson([period |-> period, start |-> start, log |-> log]))
=============================================================================
