------------------------------ MODULE DbTrace ------------------------------
(* Validates traces recorded from libmsi against MsiSys.  Every line of the *)
(* file is one trace: a sequence of <<op, observation>>.  A step whose      *)
(* observation is not what the specification prescribes ends its trace with *)
(* a REJECT line; a trace that runs to its end prints ACCEPT.               *)
EXTENDS MsiSys, SqlText, Json, IOUtils

(* <<"text", h, text, params>>: a statement as it was written *)
Meant(op) == IF op[1] = "text" THEN <<"sql", op[2], Parse(op[3]), op[4]>> ELSE op

Traces == ndJsonDeserialize(IOEnv.TRACE)

VARIABLES tr, l, s, seen

Count(seq, x) == Cardinality({ i \in DOMAIN seq : seq[i] = x })

(* rows as a list against  row -> multiplicity *)
RowsMatch(obs, exp) ==
  /\ { obs[i] : i \in DOMAIN obs } = DOMAIN exp
  /\ \A o \in DOMAIN exp : Count(obs, o) = exp[o]

(* ORDER BY: the projected order columns that hold integers never decrease. *)
IntOr(v) == IF IsNull(v) THEN Minus31 ELSE v[2]
RECURSIVE LexLe(_, _, _, _)
LexLe(a, b, ks, j) ==
  IF j > Len(ks) THEN TRUE
  ELSE LET x == a[ks[j]] y == b[ks[j]] IN
       IF {x[1], y[1]} \intersect {"s", "b"} # {} THEN TRUE
       ELSE IF IntOr(x) # IntOr(y) THEN IntOr(x) < IntOr(y)
       ELSE LexLe(a, b, ks, j + 1)
OrderKeys(db, ast) ==
  LET env == EnvOf(db, ast[4]) sel == SelCols(env, ast[3])
      at(c) == { k \in DOMAIN sel : sel[k] = Where2(env, c) }
      keys == [ j \in DOMAIN ast[6] |-> IF at(ast[6][j]) = {} THEN 0 ELSE Min(at(ast[6][j])) ]
      upto == CHOOSE n \in 0..Len(keys) :
                /\ \A j \in 1..n : keys[j] > 0
                /\ n < Len(keys) => keys[n + 1] = 0
  IN  SubSeq(keys, 1, upto)
Ordered(db, ast, rows) ==
  ast[6] = << >> \/
  LET ks == OrderKeys(db, ast) IN
  \A i \in 1..(Len(rows) - 1) : LexLe(rows[i], rows[i + 1], ks, 1)

(* the same for a set of rows *)
SetMatch(obs, exp) == Len(obs) = Cardinality(exp) /\ { obs[i] : i \in DOMAIN obs } = exp

TabMatch(o, e) == /\ o.cols = e.cols /\ o.pk = e.pk /\ o.per = e.per
                  /\ SetMatch(o.rows, e.rows)
SnapMatch(o, e) ==
  /\ { o.tabs[i].name : i \in DOMAIN o.tabs } = DOMAIN e.tabs
  /\ Len(o.tabs) = Cardinality(DOMAIN e.tabs)
  /\ \A i \in DOMAIN o.tabs : TabMatch(o.tabs[i], e.tabs[o.tabs[i].name])
  /\ SetMatch(o.cat, e.cat)
  /\ SetMatch(o.str, { <<n, e.str[n]>> : n \in DOMAIN e.str })

QueryOf(st, op) == IF op[1] = "run" THEN [h |-> st.qs[op[2]].h, ast |-> st.qs[op[2]].ast]
                   ELSE [h |-> op[2], ast |-> op[3]]

Match(st, op, obs, r) ==
  CASE r[1] = "ok"   -> obs[1] = "ok"
    [] r[1] \in {"fail", "conflict"} -> obs[1] = "fail"
    [] r[1] = "rows" -> /\ obs[1] = "rows" /\ obs[2] = r[2].types
                        /\ RowsMatch(obs[3], r[2].rows)
                        /\ LET q == QueryOf(st, op) IN Ordered(st.sess[q.h].db, q.ast, obs[3])
    [] r[1] = "snap" -> obs[1] = "snap" /\ SnapMatch(obs[2], r[2])
    [] r[1] = "absent" -> obs[1] = "absent"
    [] r[1] = "text" -> obs = r
    [] r[1] = "idt" -> obs[1] = "idt" /\ obs[2] = r[2] /\ SetMatch(obs[3], r[3])
                       /\ (\A f \in r[4] : \E i \in DOMAIN obs[4] : obs[4][i] = f)
                       /\ \A i \in DOMAIN obs[4] : << op[3], obs[4][i][1] >> \in DOMAIN st.dir \/ obs[4][i] \in r[4]
    [] r[1] = "version" -> /\ (obs[1] = "sha") = r[3]
                           /\ (r[3] /\ <<op[2], r[2]>> \in DOMAIN seen) => seen[<<op[2], r[2]>>] = obs[2]

(* What to show for a step that is refused. *)
Explain(st, op, obs, r) ==
  IF r[1] = "snap" /\ obs[1] = "snap"
  THEN LET o == obs[2] e == r[2]
           names == { o.tabs[i].name : i \in DOMAIN o.tabs }
           bad == { i \in DOMAIN o.tabs : o.tabs[i].name \in DOMAIN e.tabs /\ ~TabMatch(o.tabs[i], e.tabs[o.tabs[i].name]) }
           exps == { <<n, e.str[n]>> : n \in DOMAIN e.str }
       IN  [ missingtables |-> DOMAIN e.tabs \ names, extratables |-> names \ DOMAIN e.tabs,
             wrong |-> { LET t == o.tabs[i] x == e.tabs[t.name]
                             obsrows == { t.rows[k] : k \in DOMAIN t.rows } IN
                         << t.name,
                            IF t.cols = x.cols /\ t.pk = x.pk /\ t.per = x.per THEN "columns agree"
                            ELSE ToString(<<t.cols, t.pk, t.per, "expected", x.cols, x.pk, x.per>>),
                            "rows missing", x.rows \ obsrows, "rows extra", obsrows \ x.rows,
                            "count", Len(t.rows), Cardinality(x.rows) >> : i \in bad },
             cat |-> << "missing", e.cat \ { o.cat[i] : i \in DOMAIN o.cat }, "extra", { o.cat[i] : i \in DOMAIN o.cat } \ e.cat >>,
             str |-> << "missing", exps \ { o.str[i] : i \in DOMAIN o.str }, "extra", { o.str[i] : i \in DOMAIN o.str } \ exps >> ]
  ELSE IF r[1] = "version" THEN <<r, seen>>
  ELSE r

See(op, obs, r) ==
  IF r[1] = "version" /\ r[3] /\ obs[1] = "sha" THEN Put(seen, <<op[2], r[2]>>, obs[2]) ELSE seen

Init == /\ tr \in DOMAIN Traces /\ l = 1 /\ s = EmptySys /\ seen = EmptyFn

Next ==
  /\ l <= Len(Traces[tr])
  /\ LET op == TLCEval(Meant(Traces[tr][l][1])) obs == Traces[tr][l][2] x == TLCEval(Step(s, op))
     IN  IF Match(s, op, obs, x.r)
         THEN /\ l' = l + 1 /\ s' = x.s /\ seen' = See(op, obs, x.r) /\ tr' = tr
              /\ (l = Len(Traces[tr]) => PrintT(<<"ACCEPT", tr>>))
         ELSE /\ PrintT(<<"REJECT", tr, l, ToString(Explain(s, op, obs, x.r))>>) /\ FALSE

Inv == FilesOk(s) /\ SessOk(s)
============================================================================
