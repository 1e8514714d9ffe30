------------------------------ MODULE Explore ------------------------------
(* Breadth-first exploration of MsiSys over a finite set of operations.     *)
(* A model extends this module, and defines                                 *)
(*    Prelude   operations that lead to the state to start from             *)
(*    Ops(s)    the operations to try in a state                            *)
(*    Depth     how many of them in a row                                   *)
(* Every state reached prints how it was reached, the operations that leave *)
(* it as it is and those that change it; each becomes a test of libmsi.     *)
EXTENDS MsiSys, Json, SequencesExt

VARIABLES s, hist

RECURSIVE RunAll(_, _)
RunAll(st, ops) == IF ops = << >> THEN st ELSE RunAll(Step(st, Head(ops)).s, Tail(ops))

(* ------------------------------------------------ what every step must do *)
Touches(op) == IF op[1] \in {"open", "close", "commit", "sql", "import", "cp", "fcommit", "kcommit", "merge", "apply"} THEN {op[2]} ELSE IF op[1] = "exim" THEN {op[4]} ELSE {}

(* A refused operation changes nothing; a session only changes itself;      *)
(* files change only when something is committed or an uncommitted output   *)
(* file is dropped.                                                         *)
Refused(st, op, x)  == x.r[1] = "fail" => x.s = st
Isolated(st, op, x) ==
  op[1] \notin {"exit", "kcommit"} =>
  /\ \A h \in DOMAIN st.sess \ Touches(op) : h \in DOMAIN x.s.sess /\ x.s.sess[h] = st.sess[h]
FilesKept(st, op, x) ==
  /\ op[1] \notin {"commit", "fcommit", "kcommit", "close", "open"} => x.s.files = st.files
  /\ op[1] \in {"fcommit", "kcommit"} => x.s.files \in { st.files, DoCommit(st, op).s.files }
  /\ op[1] = "fcommit" => (x.r[1] = "fail" <=> op[3] = "fail")
  /\ (op[1] = "fcommit" /\ op[3] = "ok") => x.s = DoCommit(st, op).s
  /\ op[1] = "commit" =>
       LET e == st.sess[op[2]] IN
       IF e.mode = "ro" \/ x.r[1] = "fail" THEN x.s.files = st.files
       ELSE /\ \A p \in DOMAIN st.files \ {Target(e)} : p \in DOMAIN x.s.files /\ x.s.files[p] = st.files[p]
            /\ x.s.files[Target(e)] = Stored(e.db)
  /\ op[1] = "close" =>
       \A p \in DOMAIN st.files : p = st.sess[op[2]].out \/ (p \in DOMAIN x.s.files /\ x.s.files[p] = st.files[p])
  /\ op[1] = "open" => x.s.files = st.files

(* The relational effect of a statement, said once more and differently.    *)
RowValues(db, t) == { r.v : r \in db.tabs[t].rows }
Relational(st, op, x) ==
  (op[1] = "sql" /\ x.r[1] = "ok" /\ op[3][1] \in {"insert", "update", "delete"} /\ op[3][2] \in DOMAIN st.sess[op[2]].db.tabs) =>
  LET t == op[3][2]
      before == RowValues(st.sess[op[2]].db, t)
      after == RowValues(x.s.sess[op[2]].db, t)
  IN  /\ \A u \in DOMAIN st.sess[op[2]].db.tabs \ {t} : x.s.sess[op[2]].db.tabs[u] = st.sess[op[2]].db.tabs[u]
      /\ op[3][1] = "insert" => /\ before \subseteq after
                                /\ Cardinality(after) = Cardinality(before) + 1
      /\ op[3][1] = "update" => /\ Cardinality(after) = Cardinality(before)
                                /\ { KeyOf(st.sess[op[2]].db.tabs[t].cols, v) : v \in after }
                                     = { KeyOf(st.sess[op[2]].db.tabs[t].cols, v) : v \in before }
      /\ op[3][1] = "delete" => after \subseteq before

(* What merging must do, said once more and differently: no row is lost or    *)
(* altered, and after a merge without conflicts every row of the source is     *)
(* there.                                                                     *)
Merged(st, op, x) ==
  op[1] = "merge" =>
  LET a == st.sess[op[2]].db b == st.sess[op[3]].db c == x.s.sess[op[2]].db
      ts == { t \in DOMAIN b.tabs : ~b.tabs[t].tmp }
      starts(v, w) == Len(w) <= Len(v) /\ SubSeq(v, 1, Len(w)) = w
      has(t) == t \in DOMAIN c.tabs /\ \A w \in ShownRows(b, t) : \E v \in ShownRows(c, t) : starts(v, w)
  IN  /\ \A t \in DOMAIN a.tabs : t \in DOMAIN c.tabs /\ a.tabs[t].rows \subseteq c.tabs[t].rows /\ a.tabs[t].cols = c.tabs[t].cols
      /\ \A t \in DOMAIN c.tabs : t \in DOMAIN a.tabs \/ t \in ts \/ t = op[4]
      /\ \A n \in DOMAIN a.str : n \in DOMAIN c.str /\ a.str[n] = c.str[n]
      /\ x.r[1] = "ok" => \A t \in ts : has(t)
      /\ x.r[1] = "conflict" => \A t \in ts : has(t) \/ (c.tabs[t] = a.tabs[t] /\ (op[4] # "" => \E r \in c.tabs[op[4]].rows : r.v[1] = <<"s", t>>))
      /\ \A t \in ts \intersect DOMAIN c.tabs : \A v \in ShownRows(c, t) :
            (t \in DOMAIN a.tabs /\ v \in ShownRows(a, t)) \/ \E w \in ShownRows(b, t) : starts(v, w)

StepOk(st, op, x) == /\ Refused(st, op, x) /\ Isolated(st, op, x) /\ FilesKept(st, op, x) /\ Relational(st, op, x) /\ Merged(st, op, x)
SysOk == FilesOk(s) /\ SessOk(s)
============================================================================
