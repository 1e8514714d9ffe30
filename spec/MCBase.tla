------------------------------ MODULE MCBase ------------------------------
(* Shared by the bounded models: shorthand for statements, and the run.     *)
EXTENDS Explore, IOUtils

CONSTANTS Prelude, Ops(_), Depth

EnvInt(name, dflt) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE dflt

I(n) == <<"i", n>>
S(x) == <<"s", x>>
P(k) == <<"?", k>>
N == <<"n">>
C(t, c) == <<"c", t, c>>
Cmp(op, c, o) == <<"cmp", op, c, o>>
ColDef(n, t, sz, nn) == [n |-> n, t |-> t, sz |-> sz, nn |-> nn, loc |-> FALSE, tmp |-> FALSE]
Tmp(c) == [c EXCEPT !.tmp = TRUE]
Sql(h, a) == <<"sql", h, a, << >>>>
SqlP(h, a, p) == <<"sql", h, a, p>>
OpenNew == <<"open", "A", "p1.msi", "create", "">>

Init == s = RunAll(EmptySys, Prelude) /\ hist = << >> /\ PrintT(<<"PRE", ToJson(Prelude)>>)
Next == /\ Len(hist) < Depth
        /\ \E op \in Ops(s) : LET x == Step(s, op) IN
             /\ Assert(StepOk(s, op, x), <<"step", op, x.r>>)
             /\ x.s # s /\ s' = x.s /\ hist' = Append(hist, op)
View == s
(* printed once for every state *)
Emit == Len(hist) < Depth =>
  LET stay == { op \in Ops(s) : Step(s, op).s = s } IN
  PrintT(<<"BEH", ToJson([h |-> hist, stay |-> SetToSeq(stay), move |-> SetToSeq(Ops(s) \ stay)])>>)
===========================================================================
