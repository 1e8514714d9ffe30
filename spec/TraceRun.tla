------------------------------ MODULE TraceRun ------------------------------
(* Validates recorded traces against any specification given as a step      *)
(* function.  Every line of the file is one trace: a sequence of            *)
(* <<op, observation>>.                                                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

CONSTANTS DoStep(_, _), Empty, Match(_, _, _), StateProp(_)
Traces == ndJsonDeserialize(IOEnv.TRACE)
VARIABLES tr, l, s

Init == tr \in DOMAIN Traces /\ l = 1 /\ s = Empty
Next ==
  /\ l <= Len(Traces[tr])
  /\ LET op == Traces[tr][l][1] obs == Traces[tr][l][2] x == DoStep(s, op)
     IN  IF Match(op, obs, x.r)
         THEN /\ l' = l + 1 /\ s' = x.s /\ tr' = tr
              /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>))
         ELSE /\ PrintT(<<"REJECT", tr, l, ToString(x.r)>>) /\ FALSE
Inv == StateProp(s)
=============================================================================
