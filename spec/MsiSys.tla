------------------------------ MODULE MsiSys ------------------------------
(* Files on disk and the sessions (opened databases) that work on them.     *)
(*   s.files : path -> stored database                                      *)
(*   s.sess  : handle -> [path, out, mode, db, fresh]                       *)
(*   s.qs    : query name -> [h, ast]                                       *)
(*   s.tick  : path -> how often a session replaced that file               *)
(*   s.dir   : <<table, name>> -> bytes, the files that exports left         *)
(* Step(s, op) gives the next state and what the caller must see.           *)
EXTENDS Idt

EmptySys == [files |-> EmptyFn, sess |-> EmptyFn, qs |-> EmptyFn, tick |-> EmptyFn, dir |-> EmptyFn]

Tick(s, p) == IF p \in DOMAIN s.tick THEN s.tick[p] ELSE 0
SRes(s, r) == [s |-> s, r |-> r]

(* <<"open", h, path, mode, out>>   mode: "ro", "rw", "create"; out "" = none *)
DoOpen(s, op) ==
  LET h == op[2] p == op[3] mode == op[4] out == op[5] IN
  IF mode # "create" /\ p \notin DOMAIN s.files THEN SRes(s, Fail("open"))
  ELSE SRes([s EXCEPT !.sess = Put(@, h,
              [path |-> p, out |-> IF mode = "ro" THEN "" ELSE out, mode |-> mode,
               db |-> IF mode = "create" THEN EmptyDb ELSE s.files[p]])], Done)

WithoutFile(s, p) == [s EXCEPT !.files = Del(@, p), !.tick = Put(@, p, Tick(s, p) + 1)]

(* An output path that was asked for and never committed is removed. *)
DropSession(s, h) ==
  LET e == s.sess[h]
      s1 == [s EXCEPT !.sess = Del(@, h),
                      !.qs = [ q \in { x \in DOMAIN @ : @[x].h # h } |-> @[q] ]]
  IN  IF e.out # "" /\ e.out \in DOMAIN s.files THEN WithoutFile(s1, e.out) ELSE s1

DoClose(s, op) ==
  IF op[2] \notin DOMAIN s.sess THEN SRes(s, Fail("handle")) ELSE SRes(DropSession(s, op[2]), Done)

(* the process dies: nothing is cleaned up, nothing is stored *)
DoExit(s) == SRes([s EXCEPT !.sess = EmptyFn, !.qs = EmptyFn], Done)

Target(e) == IF e.out # "" THEN e.out ELSE e.path

DoCommit(s, op) ==
  LET h == op[2] e == s.sess[h] IN
  IF e.mode = "ro" THEN SRes(s, Done)
  ELSE IF ~Storable(e.db) THEN SRes(s, Fail("code page"))
  ELSE SRes([s EXCEPT !.files = Put(@, Target(e), Stored(e.db)),
                      !.tick  = Put(@, Target(e), Tick(s, Target(e)) + 1),
                      !.sess[h] = [@ EXCEPT !.path = Target(e), !.out = "", !.db = Stored(@)]], Done)

(* A commit that something happens to.  <<"fcommit", h, "ok" or "fail">>: a   *)
(* file operation fails; the commit stores all of the new state, or says    *)
(* that it did not and changes nothing.  <<"kcommit", h, "new" or "old">>:    *)
(* the process dies in it; the file holds one state or the other.           *)
DoFcommit(s, op) == IF op[3] = "ok" THEN DoCommit(s, op) ELSE SRes(s, Fail("file"))
DoKcommit(s, op) == DoExit(IF op[3] = "new" THEN DoCommit(s, op).s ELSE s)

(* <<"sql", h, ast, params>> *)
(* does the statement store bytes in a stream? *)
WritesStream(db, ast, par, params) ==
  Exec([db EXCEPT !.str = EmptyFn], ast, par, params).db.str # EmptyFn

RunSql(s, h, ast, par) ==
  LET e == s.sess[h]
      params == IF Len(par) = 0 THEN "none" ELSE "some"
      x == Exec(e.db, ast, par, params)
  IN  IF e.mode = "ro" /\ x.r = Done /\ ast[1] \in {"insert", "update"} /\ WritesStream(e.db, ast, par, params)
      THEN SRes(s, Fail("readonly"))
      ELSE SRes([s EXCEPT !.sess[h].db = x.db], x.r)

DoPrep(s, op) == SRes([s EXCEPT !.qs = Put(@, op[2], [h |-> op[3], ast |-> op[4]])], Done)
DoRun(s, op)  == RunSql(s, s.qs[op[2]].h, s.qs[op[2]].ast, op[3])
DoQfree(s, op) == SRes([s EXCEPT !.qs = Del(@, op[2])], Done)

(* ---- whole-state observations ---- *)
BagOf(rows) == rows
TableView(db, t) ==
  LET tab == db.tabs[t] IN
  [ cols |-> [ k \in DOMAIN tab.cols |-> << tab.cols[k].n, TypeName(tab.cols[k])[1], TypeName(tab.cols[k])[2] >> ],
    pk   |-> IF tab.tmp THEN << >>      \* keys are read from the catalogue
             ELSE [ k \in 1..Cardinality(KeyCols(tab.cols)) |-> tab.cols[k].n ],
    per  |-> ~tab.tmp,
    rows |-> { [ k \in DOMAIN tab.cols |-> Show(db, t, tab.cols, r.v, k) ] : r \in tab.rows } ]
Snap(db) ==
  [ tabs |-> [ t \in DOMAIN db.tabs |-> TableView(db, t) ],
    cat  |-> { << r.v[1][2], r.v[2][2], r.v[3][2], r.v[4][2] >> : r \in CatalogueRows(db) },
    str  |-> db.str,
    si   |-> db.si ]

(* <<"snap", h>>: everything a session can see.  <<"disk", path>>: what a    *)
(* fresh reader finds in the file ("absent" when there is none).            *)
DoSnap(s, op) == SRes(s, <<"snap", Snap(s.sess[op[2]].db)>>)
DoDisk(s, op) == SRes(s, IF op[2] \in DOMAIN s.files THEN <<"snap", Snap(s.files[op[2]])>> ELSE <<"absent">>)
DoHash(s, op) == SRes(s, <<"version", Tick(s, op[2]), op[2] \in DOMAIN s.files>>)

(* summary information of a session's database, for D04 and D11             *)
DoSetSi(s, op) == SRes([s EXCEPT !.sess[op[2]].db.si = op[3]], Done)

(* <<"export", h, table>>  <<"import", h, text>>  <<"put", table, name, hex>>  *)
DoExport(s, op) ==
  LET db == s.sess[op[2]].db t == op[3] IN
  IF t \notin DOMAIN db.tabs THEN SRes(s, Fail("table"))
  ELSE LET files == IdtFiles(db, t) IN
       SRes([s EXCEPT !.dir = files @@ @],
            <<"idt", IdtHead(db.tabs[t], t), IdtLines(db.tabs[t], t), { << n[2], files[n] >> : n \in DOMAIN files }>>)
DoImport(s, op) ==
  LET x == TLCEval(IdtImport(s.sess[op[2]].db, s.dir, op[3])) IN
  SRes([s EXCEPT !.sess[op[2]].db = x.db], x.r)

(* <<"exim", h, table, h2>>: a table exported from one session and imported  *)
(* in another, which has no such table or one of the same definition        *)
DoExim(s, op) ==
  LET a == s.sess[op[2]].db b == s.sess[op[4]].db t == op[3] IN
  IF t \notin DOMAIN a.tabs THEN SRes(s, Fail("table"))
  ELSE LET tab == a.tabs[t]
           shown == { [ k \in DOMAIN tab.cols |-> Show(a, t, tab.cols, r.v, k) ] : r \in tab.rows }
           files == IdtFiles(a, t)
           cols == [ k \in DOMAIN tab.cols |-> [tab.cols[k] EXCEPT !.late = FALSE, !.sz = IF @ = -1 THEN 1 ELSE @] ]
           s1 == [s EXCEPT !.dir = files @@ @]
           names(x) == { x[k].n : k \in DOMAIN x }
       IN  IF t \in DOMAIN b.tabs /\ (Len(b.tabs[t].cols) # Len(cols) \/ names(b.tabs[t].cols) # names(cols)) THEN SRes(s1, Fail("columns"))
           ELSE IF \E v \in shown : ~RowOk(cols, v) THEN SRes(s1, Fail("row"))
           ELSE SRes([s1 EXCEPT !.sess[op[4]].db =
                 [@ EXCEPT !.tabs = Put(@, t, [cols |-> IF t \in DOMAIN b.tabs THEN b.tabs[t].cols ELSE cols,
                                                rows |-> { Perm(MarkRow(v)) : v \in shown }, tmp |-> FALSE,
                                                hold |-> IF t \in DOMAIN b.tabs THEN b.tabs[t].hold ELSE 1]),
                           !.str = [ n \in { m[2] : m \in DOMAIN files } |-> files[<<t, n>>] ] @@ @]], Done)
(* <<"merge", h, g, errors>>: the tables of session g are merged into those  *)
(* of session h.  Tables that h does not have are created; of the others, the *)
(* definitions must agree, and then a row with new keys is added and one that *)
(* h has already is passed over.  A table with rows whose keys h has with     *)
(* other values stays as it is, and their number goes in the table "errors".  *)
ShownRows(db, t) ==
  LET tab == db.tabs[t] IN { [ k \in DOMAIN tab.cols |-> Show(db, t, tab.cols, r.v, k) ] : r \in tab.rows }
MergeTypes(a, b) == LET x == TypeName(a) y == TypeName(b) IN
  x = y \/ {x[1], y[1]} = {"l", "s"} \/ {x[1], y[1]} = {"L", "S"} \/ (x[1] = y[1] /\ x[1] \in {"l", "s", "L", "S"})
PkNames(tab) == IF tab.tmp THEN << >> ELSE [ k \in 1..Cardinality(KeyCols(tab.cols)) |-> tab.cols[k].n ]
Mergeable(a, b) ==      \* table a of the database takes the rows of table b
  /\ Len(a.cols) >= Len(b.cols)
  /\ \A k \in DOMAIN b.cols : a.cols[k].n = b.cols[k].n /\ MergeTypes(a.cols[k], b.cols[k])
  /\ \A k \in DOMAIN a.cols : k > Len(b.cols) => ~a.cols[k].nn
  /\ PkNames(a) = PkNames(b)
(* rows of b whose keys a has; those of them that differ *)
MetRows(a, b, t) == LET cols == b.tabs[t].cols IN
  { v \in ShownRows(b, t) : \E r \in a.tabs[t].rows : \A k \in KeyCols(cols) : r.v[k] = Mark(v[k]) }
Conflicts(a, b, t) ==
  IF t \notin DOMAIN a.tabs THEN {} ELSE MetRows(a, b, t) \ ShownRows(a, t)
MergedTable(a, b, t) ==
  LET cols == IF t \in DOMAIN a.tabs THEN a.tabs[t].cols ELSE b.tabs[t].cols
      a1 == IF t \in DOMAIN a.tabs THEN a
            ELSE Exec(a, <<"create", t, [ k \in DOMAIN cols |->
                   [n |-> cols[k].n, t |-> cols[k].t, sz |-> IF cols[k].sz = -1 THEN 1 ELSE cols[k].sz,
                    nn |-> cols[k].nn, loc |-> cols[k].loc, tmp |-> FALSE] ], PkNames(b.tabs[t]), FALSE>>, << >>, "none").db
      rows == IF t \in DOMAIN a.tabs THEN ShownRows(b, t) \ MetRows(a, b, t) ELSE ShownRows(b, t)
      wide(v) == [ k \in DOMAIN cols |-> IF k \in DOMAIN v THEN v[k] ELSE Null ]
  IN  FoldLeft(LAMBDA d, v : InsertOne(d, t, wide(v), FALSE).db, a1, SetToSeq(rows))
DoMerge(s, op) ==
  LET a == s.sess[op[2]].db b == s.sess[op[3]].db err == op[4]
      ts == { t \in DOMAIN b.tabs : ~b.tabs[t].tmp }
      bad == { t \in ts : Conflicts(a, b, t) # {} }
      errcols == << [n |-> "Table", t |-> "str", sz |-> 255, nn |-> TRUE, loc |-> FALSE, tmp |-> FALSE],
                    [n |-> "NumRowMergeConflicts", t |-> "int2", sz |-> 2, nn |-> TRUE, loc |-> FALSE, tmp |-> FALSE] >>
      good == FoldLeft(LAMBDA d, t : MergedTable(d, b, t), a, SetToSeq(ts \ bad))
      errd == IF err = "" \/ bad = {} THEN good
              ELSE FoldLeft(LAMBDA d, t : InsertOne(d, err, << <<"s", t>>, <<"i", Cardinality(Conflicts(a, b, t))>> >>, FALSE).db,
                            IF err \in DOMAIN good.tabs THEN good
                            ELSE Exec(good, <<"create", err, errcols, <<"Table">>, FALSE>>, << >>, "none").db, SetToSeq(bad))
  IN  IF ts # DOMAIN b.tabs \/ \E t \in ts \intersect DOMAIN a.tabs : ~Mergeable(a.tabs[t], b.tabs[t]) THEN SRes(s, Fail("definitions"))
      ELSE IF bad = {} THEN SRes([s EXCEPT !.sess[op[2]].db = good], Done)
      ELSE SRes([s EXCEPT !.sess[op[2]].db = errd], <<"conflict">>)

(* <<"apply", h, news, adds, changes, drops>>: a transform.  news: new tables  *)
(* << t, cols, number of keys >>, keys first; adds: columns added to tables    *)
(* << t, column, number >>; changes: rows << t, cols, keys, what, which, row >> *)
(* where "add" gives all values of a row, which becomes the row with its keys; *)
(* "set" those of the columns in which, of the row with its keys (which is  *)
(* added if it is not there); "del" removes                                   *)
(* the row with its keys, if there is one; drops: tables << t, columns >>.      *)
ApplyRow(db, c) ==
  LET t == c[1] tab == db.tabs[t] what == c[4] v == c[6]
      ks == KeyCols(tab.cols)
      hit == { r \in tab.rows : \A k \in ks : r.v[k] = v[k] }
      which == IF what = "add" THEN DOMAIN tab.cols ELSE { k \in DOMAIN tab.cols : \E i \in DOMAIN c[5] : c[5][i] = k } \ ks
      given == [ k \in DOMAIN tab.cols |-> IF k \in DOMAIN v /\ k \in which \union ks THEN v[k] ELSE Null ]
  IN  IF what = "del" THEN [db EXCEPT !.tabs[t].rows = @ \ hit]
      ELSE IF hit = {} THEN InsertOne(db, t, given, FALSE).db
      ELSE LET r == CHOOSE x \in hit : TRUE
               new == [ k \in DOMAIN tab.cols |-> IF k \in which THEN given[k] ELSE r.v[k] ]
           IN  IF ~RowOkIn(tab.cols, new, which) THEN db ELSE
               [db EXCEPT !.tabs[t].rows = (@ \ hit) \union { [v |-> MarkRow(new), t |-> r.t] },
                          !.str = StoreBin(@, t, tab.cols, new, which, 1)]
ApplyNew(db, n) ==
  [db EXCEPT !.tabs = Put(@, n[1], [cols |-> [ k \in DOMAIN n[2] |-> n[2][k] @@ [key |-> k <= n[3], late |-> FALSE] ],
                                    rows |-> {}, tmp |-> FALSE, hold |-> 0])]
DoApply(s, op) ==
  LET db == s.sess[op[2]].db
      made == FoldLeft(ApplyNew, db, op[3])
      wide == FoldLeft(LAMBDA d, a : Exec(d, <<"addcol", a[1], a[2]>>, << >>, "none").db, made, op[4])
      rows == FoldLeft(ApplyRow, wide, op[5])
      less == FoldLeft(LAMBDA d, x : [d EXCEPT !.tabs = Del(@, x[1])], rows, op[6])
  IN  SRes([s EXCEPT !.sess[op[2]].db = less], Done)

(* <<"cp", h, page>>  <<"getcp", h>>: the code page, through its text archive *)
DoCp(s, op) == IF op[3] \notin CodePages THEN SRes(s, Fail("code page"))
               ELSE SRes([s EXCEPT !.sess[op[2]].db.cp = op[3]], Done)
DoGetCp(s, op) == SRes(s, <<"text", "\r\n\r\n" \o ToString(s.sess[op[2]].db.cp) \o "\t_ForceCodepage\r\n">>)
DoPut(s, op) == SRes([s EXCEPT !.dir = Put(@, << op[2], op[3] >>, op[4])], Done)

Step(s, op) ==
  CASE op[1] = "open"   -> DoOpen(s, op)
    [] op[1] = "close"  -> DoClose(s, op)
    [] op[1] = "exit"   -> DoExit(s)
    [] op[1] = "commit" -> DoCommit(s, op)
    [] op[1] = "fcommit" -> DoFcommit(s, op)
    [] op[1] = "kcommit" -> DoKcommit(s, op)
    [] op[1] = "sql"    -> RunSql(s, op[2], op[3], op[4])
    [] op[1] = "prep"   -> DoPrep(s, op)
    [] op[1] = "run"    -> DoRun(s, op)
    [] op[1] = "qfree"  -> DoQfree(s, op)
    [] op[1] = "snap"   -> DoSnap(s, op)
    [] op[1] = "disk"   -> DoDisk(s, op)
    [] op[1] = "hash"   -> DoHash(s, op)
    [] op[1] = "export" -> DoExport(s, op)
    [] op[1] = "import" -> DoImport(s, op)
    [] op[1] = "exim"   -> DoExim(s, op)
    [] op[1] = "merge"  -> DoMerge(s, op)
    [] op[1] = "apply"  -> DoApply(s, op)
    [] op[1] = "badmst" -> SRes(s, Fail("transform"))
    [] op[1] = "cp"     -> DoCp(s, op)
    [] op[1] = "getcp"  -> DoGetCp(s, op)
    [] op[1] = "put"    -> DoPut(s, op)

FilesOk(s) == \A p \in DOMAIN s.files : DbOk(s.files[p])
                 /\ \A t \in DOMAIN s.files[p].tabs : ~s.files[p].tabs[t].tmp
                        /\ \A r \in s.files[p].tabs[t].rows : ~r.t
SessOk(s) == \A h \in DOMAIN s.sess : DbOk(s.sess[h].db)
===========================================================================
