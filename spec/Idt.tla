-------------------------------- MODULE Idt --------------------------------
(* Text archives: the lines that exporting a table writes, and what         *)
(* importing a text does to a database.                                     *)
(*   column names          separated by tabs                                *)
(*   column types          letter (l/L s/S i/I v/V; capital: may be NULL)    *)
(*                         and size                                         *)
(*   table name and keys                                                    *)
(*   one line per row; "" is NULL; tab, CR and LF inside a value are the     *)
(*   characters 0x10, 0x11 and 0x19, written ~ ^ | here; a binary cell is    *)
(*   the name of a file in the directory named like the table               *)
EXTENDS MsiDb, IdtText

(* ---------------------------------------------------------------- export *)
IdtCell(t, cols, v, k) ==
  CASE IsNull(v[k]) -> ""
    [] cols[k].t = "bin" -> IdtMap(IdtEsc, StreamName(t, cols, v))
    [] OTHER -> IdtMap(IdtEsc, ValText(v[k]))
IdtRow(t, cols, v) == IdtJoin([ k \in DOMAIN cols |-> IdtCell(t, cols, v, k) ])
IdtHead(tab, t) ==
  << IdtJoin([ k \in DOMAIN tab.cols |-> tab.cols[k].n ]),
     IdtJoin([ k \in DOMAIN tab.cols |-> LET ty == TypeName(tab.cols[k]) IN ty[1] \o ToString(ty[2]) ]),
     IdtJoin(<< t >> \o [ k \in 1..Cardinality(KeyCols(tab.cols)) |-> tab.cols[k].n ]) >>
IdtLines(tab, t) == { IdtRow(t, tab.cols, r.v) : r \in tab.rows }
(* the files written beside it: << table, name >> -> bytes *)
IdtFiles(db, t) ==
  LET tab == db.tabs[t]
      cells == { << r.v, k >> : r \in tab.rows, k \in { j \in DOMAIN tab.cols : tab.cols[j].t = "bin" } }
      names == { StreamName(t, tab.cols, c[1]) : c \in { x \in cells : x[1][x[2]] = <<"b">> } }
  IN  [ n \in { << t, m >> : m \in names } |-> db.str[n[2]] ]

(* ---------------------------------------------------------------- import *)
IdtSmall(t) == IdtDigits(t) /\ Len(t) <= 4
(* the column that a name and a type stand for *)
IdtTypeOk(ty) ==
  Len(ty) > 0 /\
  LET l == ChAt(ty, 1) n == SubSeq(ty, 2, Len(ty)) IN
  CASE l \in {"s", "S", "l", "L"} -> IdtSmall(n) /\ IdtNum(n) <= 255
    [] l \in {"i", "I"} -> IdtSmall(n) /\ IdtNum(n) \in {0, 1, 2, 4}
    [] l \in {"v", "V"} -> TRUE
    [] OTHER -> FALSE
IdtColumn(name, ty) ==
  LET l == ChAt(ty, 1) n == IdtNum(SubSeq(ty, 2, Len(ty)))
      t == CASE l \in {"s", "S", "l", "L"} -> "str" [] l \in {"v", "V"} -> "bin" [] n = 4 -> "int4" [] OTHER -> "int2"
  IN  [n |-> name, t |-> t, sz |-> CASE t = "str" -> n [] t = "bin" -> 0 [] t = "int4" -> 4 [] OTHER -> 2,
       nn |-> l \in {"s", "l", "i", "v"}, loc |-> l \in {"l", "L"}, tmp |-> FALSE]

(* what a cell means: a value, or <<"bad">> *)
IdtValue(dir, t, ty, c) ==
  LET l == ChAt(ty, 1) IN
  CASE c = "" -> Null
    [] l \in {"s", "S", "l", "L"} -> <<"s", c>>
    [] l \in {"i", "I"} -> IF IdtIntOk(c) THEN <<"i", DecimalOf(c)>> ELSE <<"bad">>
    [] OTHER -> IF << t, c >> \in DOMAIN dir THEN <<"b", dir[<< t, c >>]>> ELSE <<"bad">>

(* rows enter one by one; one that is refused undoes the import *)
IdtAdd(db, t, rows) ==
  FoldLeft(LAMBDA x, v : IF x.r # Done THEN x ELSE InsertOne(x.db, t, v, FALSE), Res(db, Done), rows)

IdtImport(db, dir, text) ==
  LET ls == TLCEval(IdtSplit(text))
      names == IdtLine(ls, 1)  types == IdtLine(ls, 2)  labels == IdtLine(ls, 3)
      rows == SubSeq(ls, 4, Len(ls))
      t == labels[1]
      keys == SubSeq(labels, 2, Len(labels))
  IN
  IF Len(names) # Len(types) \/ \E i \in DOMAIN rows : Len(rows[i]) # Len(names) THEN Res(db, Fail("shape"))
  ELSE
  LET new == ~HasTable(db, t)
      made == IF ~new THEN Res(db, Done)
              ELSE IF keys = << >> \/ \E k \in DOMAIN types : ~IdtTypeOk(types[k]) THEN Res(db, Fail("definition"))
              ELSE IF \E k \in DOMAIN names : names[k] = "" THEN Res(db, Fail("definition"))
              ELSE Exec(db, <<"create", t, [ k \in DOMAIN names |-> IdtColumn(names[k], types[k]) ], keys, FALSE>>, << >>, "none")
  IN
  IF made.r # Done THEN Res(db, Fail("create"))
  ELSE IF t \notin DOMAIN made.db.tabs THEN Res(db, Fail("system table"))
  ELSE
  LET cols == made.db.tabs[t].cols
      pos(k) == ColNo([ j \in DOMAIN names |-> [n |-> names[j]] ], cols[k].n)
      vals == TLCEval([ i \in DOMAIN rows |-> [ k \in DOMAIN names |-> IdtValue(dir, t, types[k], rows[i][k]) ] ])
      cell(i, k) == Coerce(cols[k], vals[i][pos(k)])
  IN
  IF Len(cols) # Len(names) \/ \E k \in DOMAIN cols : pos(k) = 0 THEN Res(db, Fail("columns"))
  ELSE IF \E i \in DOMAIN vals : \E k \in DOMAIN names : vals[i][k] = <<"bad">> THEN Res(db, Fail("cell"))
  ELSE LET x == IdtAdd([made.db EXCEPT !.tabs[t].rows = {}], t,
                       [ i \in DOMAIN rows |-> [ k \in DOMAIN cols |-> cell(i, k) ] ])
       IN  IF x.r = Done THEN x ELSE Res(db, Fail("row"))
=============================================================================
