------------------------------- MODULE MCRun -------------------------------
(* Breadth-first exploration of any specification given as a step function: *)
(* DoStep(s, op) = [s |-> next state, r |-> what is answered].  Every state *)
(* prints how it was reached, which operations leave it as it is and which  *)
(* change it.  StepProp is asserted of every step.                          *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils, SequencesExt

CONSTANTS Prelude, Ops(_), Depth, DoStep(_, _), Empty, StepProp(_, _, _), StateProp(_)
VARIABLES s, hist

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt
RECURSIVE RunAll(_, _)
RunAll(st, ops) == IF ops = << >> THEN st ELSE RunAll(DoStep(st, Head(ops)).s, Tail(ops))

Init == s = RunAll(Empty, Prelude) /\ hist = << >> /\ PrintT(<<"PRE", ToJson(Prelude)>>)
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops(s) : LET x == DoStep(s, op) IN
             /\ Assert(StepProp(s, op, x), <<"step", op, x.r>>)
             /\ x.s # s /\ s' = x.s /\ hist' = Append(hist, op)
View == s
StateOk == StateProp(s)
(* printed once for every state *)
Emit == Len(hist) < Depth =>
  LET all == TLCEval(Ops(s))
      stay == TLCEval({ op \in all : DoStep(s, op).s = s }) IN
  PrintT(<<"BEH", ToJson([h |-> hist, stay |-> SetToSeq(stay), move |-> SetToSeq(all \ stay)])>>)
============================================================================
