------------------------------ MODULE MsiTool ------------------------------
(* The command line tools that make and show packages: msibuild, msiinfo,    *)
(* msidump and msidiff.                                                      *)
(*   t.files : path -> stored database (with its summary information in si)  *)
(*   t.made  : how many packages msibuild made; their codes are all different *)
EXTENDS MsiSys, SqlText

Su == INSTANCE MsiSum
ToolEmpty == [files |-> EmptyFn, made |-> 0]
TRes(t, r) == [s |-> t, r |-> r]

(* ----------------------------------------------------------- SQL scripts *)
(* A script is split into statements at semicolons and before the words that *)
(* begin a statement, outside of quotes; blank statements are passed over.   *)
Starters == {"ALTER", "CREATE", "DELETE", "DROP", "INSERT", "SELECT", "UPDATE"}
Script(text) ==
  LET blank(c) == c \in Blank
      flush(x) == [x EXCEPT !.out = IF x.any THEN Append(@, x.stmt) ELSE @, !.stmt = "", !.any = FALSE]
      add(x, c) == [x EXCEPT !.stmt = @ \o c, !.any = @ \/ ~blank(c)]
      (* a word ends *)
      word(x) == IF x.mode # "w" THEN x
                 ELSE LET y == IF x.any /\ Upcase(x.w) \in Starters THEN flush(x) ELSE x
                      IN  [y EXCEPT !.stmt = @ \o x.w, !.any = TRUE, !.w = "", !.mode = ""]
      out(x, c) == CASE c = ";" -> flush(x)
                     [] c \in {"'", "`"} -> [add(x, c) EXCEPT !.mode = c]
                     [] IdStart(c) -> [x EXCEPT !.mode = "w", !.w = c]
                     [] OTHER -> add(x, c)
      feed(x, c) == CASE x.mode \in {"'", "`"} -> [add(x, c) EXCEPT !.mode = IF c = @ THEN "" ELSE @]
                      [] x.mode = "w" -> IF IdChar(c) THEN [x EXCEPT !.w = @ \o c] ELSE out(word(x), c)
                      [] OTHER -> out(x, c)
  IN  flush(word(FoldLeft(feed, [mode |-> "", w |-> "", stmt |-> "", any |-> FALSE, out |-> << >>], IdtChars(text)))).out

(* --------------------------------------------------------------- msibuild *)
NewSi(n) == (2 :> <<"s", "Installation Database">>) @@ (5 :> <<"s", "Installer, MSI">>) @@ (7 :> <<"s", ";1033">>)
            @@ (9 :> <<"s", "{fresh " \o ToString(n) \o "}">>) @@ (14 :> <<"i", 200>>) @@ (15 :> <<"i", 0>>) @@ (16 :> <<"i", 0>>)
            @@ (18 :> <<"s", "libmsi msibuild">>)
SetSi(si, vals) == LET at == <<3, 4, 7, 9>> IN [ p \in { at[k] : k \in DOMAIN vals } |-> <<"s", vals[CHOOSE k \in DOMAIN vals : at[k] = p]>> ] @@ si

ImportText(db, dir, text) ==
  LET name == IdtLine(IdtSplit(text), 3)[1] IN
  IF name = "_SummaryInformation"
  THEN LET x == Su!SumImport(db.si, text) IN IF x[1] = "bad" THEN Res(db, Fail("summary")) ELSE Res([db EXCEPT !.si = x[2]], Done)
  ELSE IdtImport(db, dir, text)

(* <<"s", values>>  <<"i", texts, files>>  <<"q", scripts>>  <<"a", stream, bytes or "missing">> *)
BuildStep(x, st) ==
  LET try(y) == IF y.r[1] = "fail" THEN [db |-> y.db, ok |-> FALSE] ELSE [db |-> y.db, ok |-> TRUE]
      dir == [ k \in { << st[3][i][1], st[3][i][2] >> : i \in DOMAIN st[3] } |->
                 (CHOOSE f \in { st[3][i] : i \in DOMAIN st[3] } : << f[1], f[2] >> = k)[3] ]
      stmts == FoldLeft(LAMBDA a, sc : a \o Script(sc), << >>, st[2])
  IN
  IF ~x.ok THEN x
  ELSE CASE st[1] = "s" -> [x EXCEPT !.db.si = SetSi(@, st[2])]
         [] st[1] = "i" -> FoldLeft(LAMBDA y, text : IF ~y.ok THEN y ELSE try(ImportText(y.db, dir, text)), x, st[2])
         [] st[1] = "q" -> FoldLeft(LAMBDA y, sql : IF ~y.ok THEN y ELSE try(Exec(y.db, TLCEval(Parse(sql)), << >>, "none")), x, stmts)
         [] st[1] = "a" -> IF st[3] = "missing" THEN [x EXCEPT !.ok = FALSE]
                           ELSE try(Exec(x.db, <<"insert", "_Streams", <<"Name", "Data">>, << <<"?", 1>>, <<"?", 2>> >>, FALSE>>,
                                         << <<"s", st[2]>>, <<"b", st[3]>> >>, "some"))
         [] OTHER -> [x EXCEPT !.ok = FALSE]            \* no such option

DoBuild(t, op) ==
  LET p == op[2]
      new == p \notin DOMAIN t.files
      base == IF new THEN [EmptyDb EXCEPT !.si = NewSi(t.made + 1)] ELSE t.files[p]
      t1 == IF new THEN [t EXCEPT !.files = Put(@, p, base), !.made = @ + 1] ELSE t
      x == TLCEval(FoldLeft(BuildStep, [db |-> base, ok |-> TRUE], op[3]))
  IN  IF op[3] = << >> THEN TRes(t, Fail("usage"))
      ELSE IF x.ok /\ Storable(x.db) THEN TRes([t1 EXCEPT !.files[p] = Stored(x.db)], Done)
      ELSE TRes(t1, Fail("step"))

(* ---------------------------------------------------------------- msiinfo *)
SumName == <<"", "Title", "Subject", "Author", "Keywords", "Comments", "Template", "Last author", "Revision number (UUID)", "Edittime",
             "Last printed", "Created", "Last saved", "Version", "Source", "Restrict", "", "Application", "Security">>
HexDigit(d) == SubSeq("0123456789abcdef", d + 1, d + 1)
RECURSIVE HexOf(_)
HexOf(n) == IF n < 16 THEN HexDigit(n) ELSE HexOf(n \div 16) \o HexDigit(n % 16)
Hex(n) ==          \* of the 32 bits of an integer
  IF n >= 0 THEN HexOf(n)
  ELSE LET m == n + 2147483647 + 1 top == m \div 268435456 rest == HexOf(m % 268435456)
       IN  HexDigit(top + 8) \o FoldLeft(LAMBDA a, i : IF Len(a) >= 7 THEN a ELSE "0" \o a, rest, <<1, 2, 3, 4, 5, 6, 7>>)
WeekDays == <<"Mon", "Tue", "Wed", "Thu", "Fri", "Sat", "Sun">>
Months == <<"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec">>
CTime(ft) ==       \* 1601-01-01 was a Monday
  LET x == IdtSplitTime(ft) c == IdtCivil(x[1]) IN
  WeekDays[(x[1] % 7) + 1] \o " " \o Months[c[2]] \o (IF c[3] < 10 THEN "  " ELSE " ") \o ToString(c[3]) \o " " \o IdtPad(x[2] \div 3600, 2)
  \o ":" \o IdtPad((x[2] \div 60) % 60, 2) \o ":" \o IdtPad(x[2] % 60, 2) \o " " \o ToString(c[1])
SumLine(p, v) ==
  SumName[p] \o ": " \o (CASE v[1] = "i" -> ToString(v[2]) \o " (" \o Hex(v[2]) \o ")" [] v[1] = "s" -> v[2] [] v[1] = "t" -> CTime(v[2])) \o "\n"
SumLines(si) == FoldLeft(LAMBDA a, p : IF p \in DOMAIN si /\ SumName[p] # "" THEN a \o SumLine(p, si[p]) ELSE a, "", [ i \in 1..19 |-> i ])

StreamNames(db) == DOMAIN db.str \union (IF db.si = EmptyFn THEN {} ELSE {"{summary}"})
IdtOf(db, t) == << IdtHead(db.tabs[t], t), IdtLines(db.tabs[t], t) >>
SumIdt(db) == << Su!SumHead, { ToString(p) \o "\t" \o Su!SumText(db.si[p]) : p \in DOMAIN db.si } >>
CpIdt(db) == << <<"", "", ToString(db.cp) \o "\t_ForceCodepage">>, {} >>
Archive(db, t) == CASE t = "_SummaryInformation" -> SumIdt(db) [] t = "_ForceCodepage" -> CpIdt(db) [] OTHER -> IdtOf(db, t)
Archives(db) == DOMAIN db.tabs \union {"_SummaryInformation", "_ForceCodepage"}
FilesOf(db, t) == IF t \in DOMAIN db.tabs THEN LET f == IdtFiles(db, t) IN { << n[1], n[2], f[n] >> : n \in DOMAIN f } ELSE {}
AllFiles(db) == UNION { FilesOf(db, t) : t \in DOMAIN db.tabs }

(* SQL that makes a table and its rows again, fed to msibuild.  Binary values *)
(* and strings with quotes cannot be written in it.                          *)
CopyCols(tab) == [ k \in DOMAIN tab.cols |-> [n |-> tab.cols[k].n, t |-> tab.cols[k].t, sz |-> IF tab.cols[k].sz = -1 THEN 1 ELSE tab.cols[k].sz,
                                              nn |-> tab.cols[k].nn, loc |-> tab.cols[k].loc, tmp |-> FALSE] ]
CopyTable(from, to, t) ==
  LET tab == from.tabs[t]
      keys == [ k \in 1..Cardinality(KeyCols(tab.cols)) |-> tab.cols[k].n ]
      made == Exec(to, <<"create", t, CopyCols(tab), keys, FALSE>>, << >>, "none")
  IN  IF made.r[1] = "fail" THEN made
      ELSE FoldLeft(LAMBDA y, v : IF y.r[1] = "fail" THEN y ELSE InsertOne(y.db, t, v, FALSE), made, SetToSeq(ShownRows(from, t)))
(* what SQL cannot write, and the empty row, which INSERT has no form for *)
SqlCan(tab) ==
  /\ \A k \in DOMAIN tab.cols : tab.cols[k].t # "bin" /\ ~tab.cols[k].tmp
  /\ \A r \in tab.rows : /\ \E k \in DOMAIN r.v : r.v[k] # <<"n">>
                         /\ \A k \in DOMAIN r.v : r.v[k][1] = "s" => \A i \in 1..Len(r.v[k][2]) : SubSeq(r.v[k][2], i, i) \notin {"'", "\r"}
DoCopySql(t, op) ==
  LET p == op[2] q == op[4] t1 == DoBuild(t, <<"build", q, << <<"q", << "" >>>> >>>>).s
      x == CopyTable(t.files[p], t1.files[q], op[3])
  IN  IF p \notin DOMAIN t.files \/ op[3] \notin DOMAIN t.files[p].tabs THEN TRes(t, Fail("table"))
      ELSE IF x.r[1] = "fail" THEN TRes(t1, x.r) ELSE TRes([t1 EXCEPT !.files[q] = Stored(x.db)], Done)

(* ---------------------------------------------------------------- msidiff *)
LinesOf(db, t) == IF t \notin Archives(db) THEN {} ELSE LET a == Archive(db, t) IN { a[1][i] : i \in DOMAIN a[1] } \union a[2]
DiffTables(a, b) ==
  LET ts == { t \in Archives(a) \union Archives(b) : LinesOf(a, t) # LinesOf(b, t) \/ (t \in Archives(a) \ Archives(b)) \/ (t \in Archives(b) \ Archives(a)) }
      (* a file that is not there counts as an empty one *)
      fa == { f \in AllFiles(a) : f[3] # "" } fb == { f \in AllFiles(b) : f[3] # "" }
  IN  << { << t, LinesOf(a, t) \ LinesOf(b, t), LinesOf(b, t) \ LinesOf(a, t) >> : t \in ts },
         { << f[1], f[2] >> : f \in ((fa \ fb) \union (fb \ fa)) } >>

ToolStep(t, op) ==
  LET p == op[2]
      at(r) == TRes(t, IF p \notin DOMAIN t.files THEN Fail("file") ELSE r)
      db == t.files[p]
  IN
  CASE op[1] = "build"   -> DoBuild(t, op)
    [] op[1] = "copysql" -> DoCopySql(t, op)
    [] op[1] = "disk"    -> TRes(t, IF p \in DOMAIN t.files THEN <<"snap", Snap(db)>> ELSE <<"absent">>)
    [] op[1] = "tables"  -> at(<<"names", Archives(db)>>)
    [] op[1] = "streams" -> at(<<"names", StreamNames(db)>>)
    [] op[1] = "stream"  -> at(IF op[3] \in DOMAIN db.str THEN <<"bytes", db.str[op[3]]>> ELSE Fail("stream"))
    [] op[1] = "suminfo" -> at(<<"text", SumLines(db.si)>>)
    [] op[1] = "export"  -> at(IF op[3] \in Archives(db) THEN <<"idt", Archive(db, op[3]), FilesOf(db, op[3])>> ELSE Fail("table"))
    [] op[1] = "dump"    -> at(<<"dump", IF op[3] # "s" THEN { <<a>> \o Archive(db, a) : a \in Archives(db) } ELSE {},
                                IF op[3] # "s" THEN AllFiles(db) ELSE {},
                                IF op[3] \in {"s", "ts"} THEN { << n, IF n \in DOMAIN db.str THEN db.str[n] ELSE "" >> : n \in StreamNames(db) } ELSE {}>>)
    [] op[1] = "diff"    -> IF {p, op[3]} \subseteq DOMAIN t.files THEN TRes(t, <<"diff">> \o DiffTables(t.files[p], t.files[op[3]])) ELSE TRes(t, Fail("file"))

SetOf(q) == { q[i] : i \in DOMAIN q }
ListIs(obs, exp) == Len(obs) = Cardinality(exp) /\ SetOf(obs) = exp
SnapIs(o, e) ==
  /\ { o.tabs[i].name : i \in DOMAIN o.tabs } = DOMAIN e.tabs
  /\ \A i \in DOMAIN o.tabs : LET a == o.tabs[i] b == e.tabs[a.name] IN a.cols = b.cols /\ a.pk = b.pk /\ a.per = b.per /\ ListIs(a.rows, b.rows)
  /\ ListIs(o.cat, e.cat)
  /\ ListIs(o.str, { <<n, e.str[n]>> : n \in DOMAIN e.str })
  /\ ListIs(o.si, { <<p, e.si[p]>> : p \in DOMAIN e.si })
IdtIs(o, e) == o[1] = e[1] /\ ListIs(o[2], e[2])
ToolMatch(op, obs, r) ==
  obs[1] = r[1] /\
  CASE r[1] \in {"ok", "fail", "absent"} -> TRUE
    [] r[1] = "snap"  -> SnapIs(obs[2], r[2])
    [] r[1] = "names" -> ListIs(obs[2], r[2])
    [] r[1] \in {"bytes", "text"} -> obs[2] = r[2]
    [] r[1] = "idt"   -> IdtIs(obs[2], r[2]) /\ ListIs(obs[3], r[3])
    [] r[1] = "dump"  -> /\ Len(obs[2]) = Cardinality(r[2])
                         /\ \A i \in DOMAIN obs[2] : \E a \in r[2] : a[1] = obs[2][i][1] /\ IdtIs(<<obs[2][i][2], obs[2][i][3]>>, <<a[2], a[3]>>)
                         /\ ListIs(obs[3], r[3]) /\ ListIs(obs[4], r[4])
    [] r[1] = "diff"  -> /\ Len(obs[2]) = Cardinality(r[2])
                         /\ { << obs[2][i][1], SetOf(obs[2][i][2]), SetOf(obs[2][i][3]) >> : i \in DOMAIN obs[2] } = r[2]
                         /\ ListIs(obs[3], r[3])

ToolOk(t) == \A p \in DOMAIN t.files : DbOk(t.files[p])
(* what a step must do, said differently: an operation that fails leaves all  *)
(* packages as they were, unless it made a new one, and one that only looks   *)
(* changes nothing                                                            *)
ToolStepOk(t, op, x) ==
  /\ \A p \in DOMAIN t.files : p \in DOMAIN x.s.files /\ ((x.r[1] = "fail" \/ op[1] \notin {"build", "copysql"}) => x.s.files[p] = t.files[p])
  /\ op[1] = "build" => \A p \in DOMAIN t.files \ {op[2]} : x.s.files[p] = t.files[p]
  /\ op[1] = "diff" /\ x.r[1] = "diff" => (x.r[2] = {} /\ x.r[3] = {} <=>
       (Snap(t.files[op[2]]).tabs = Snap(t.files[op[3]]).tabs /\ t.files[op[2]].si = t.files[op[3]].si /\ t.files[op[2]].cp = t.files[op[3]].cp
        /\ AllFiles(t.files[op[2]]) = AllFiles(t.files[op[3]])))
=============================================================================
