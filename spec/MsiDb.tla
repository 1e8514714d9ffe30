------------------------------ MODULE MsiDb ------------------------------
(* The database behind libmsi: tables, schema catalogue, streams and the    *)
(* meaning of every SQL statement.  Purely functional: Exec(db, ast, par)   *)
(* gives the next database and the result.  It is used in three places:     *)
(*   MC_*      bounded models that TLC explores exhaustively,               *)
(*   GenDb     the same models, printing behaviours to replay on libmsi,    *)
(*   DbTrace   validation of traces recorded from libmsi.                   *)
(*                                                                          *)
(* Values    <<"i",n>>  <<"s",str>>  <<"n">>  <<"b",hex>>                   *)
(* Column    [n: name, t: "int2"|"int4"|"str"|"bin", sz: Nat,               *)
(*            nn: not null, loc: localizable, key: BOOLEAN, tmp: temporary, *)
(*            late: added when there were rows, which then hold NULL in it] *)
(* Row       [v: Seq(Value), t: BOOLEAN]   t: temporary row                 *)
(* Table     [cols: Seq(Column), rows: SUBSET Row, tmp: BOOLEAN,            *)
(*            hold: Nat]                                                    *)
(* Db        [tabs: name -> Table, str: stream name -> hex,                 *)
(*            si: property number -> Value, cp: code page of the strings]   *)
EXTENDS DecText, Functions, SequencesExt, FiniteSetsExt

Null == <<"n">>
IsNull(v) == v[1] = "n"
Fail(why) == <<"fail", why>>
Done == <<"ok">>
MaxCols == 32

EmptyFn == [x \in {} |-> x]
EmptyDb == [tabs |-> EmptyFn, str |-> EmptyFn, si |-> EmptyFn, cp |-> 0]

Put(f, k, v) == (k :> v) @@ f
Del(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

(* ------------------------------------------------------- built-in tables *)
System == {"_Tables", "_Columns", "_Streams", "_Storages"}

Col(n, t, sz, nn, key) ==
  [n |-> n, t |-> t, sz |-> sz, nn |-> nn, loc |-> FALSE, key |-> key, tmp |-> FALSE, late |-> FALSE]

TablesCols  == << Col("Name", "str", 64, TRUE, TRUE) >>
ColumnsCols == << Col("Table", "str", 64, TRUE, TRUE), Col("Number", "int2", 2, TRUE, TRUE),
                  Col("Name", "str", 64, TRUE, FALSE), Col("Type", "int2", 2, TRUE, FALSE) >>
StreamsCols == << Col("Name", "str", 62, TRUE, TRUE), Col("Data", "bin", 0, FALSE, FALSE) >>

(* The number that stands for a column's definition in the catalogue. *)
ColBits(c) ==
  (CASE c.t = "int2" -> 1282 [] c.t = "int4" -> 260
     [] c.t = "bin" -> 2304
     [] c.t = "str" -> IF c.sz = -1 THEN 2305 ELSE 3328 + c.sz)
  + (IF c.key THEN 8192 ELSE 0) + (IF c.nn THEN 0 ELSE 4096)
  + (IF c.loc THEN 512 ELSE 0) + (IF c.tmp THEN 16384 ELSE 0)

(* The letter and size that column information reports. *)
TypeName(c) ==
  LET low == CASE c.t = "bin" -> IF c.tmp THEN "g" ELSE "v"
               [] c.t = "str" -> IF c.loc THEN "l" ELSE IF c.tmp THEN "g" ELSE "s"
               [] OTHER -> IF c.tmp THEN "j" ELSE "i"
      up  == CASE low = "v" -> "V" [] low = "l" -> "L" [] low = "g" -> "G" [] low = "s" -> "S"
               [] low = "j" -> "J" [] low = "i" -> "I"
      size == CASE c.t = "int2" -> 2 [] c.t = "int4" -> 4 [] c.t = "bin" -> 0
                [] OTHER -> IF c.sz = -1 THEN 1 ELSE c.sz
  IN  << IF c.nn THEN low ELSE up, size >>

Pseudo(cols, rows) == [cols |-> cols, rows |-> rows, tmp |-> FALSE, hold |-> 0]
Perm(v) == [v |-> v, t |-> FALSE]

HasTable(db, t) == t \in DOMAIN db.tabs \/ t \in {"_Tables", "_Columns", "_Streams"}

CatalogueRows(db) ==
  UNION { { Perm(<< <<"s", t>>, <<"i", k>>, <<"s", db.tabs[t].cols[k].n>>,
                    <<"i", ColBits(db.tabs[t].cols[k])>> >>)
            : k \in DOMAIN db.tabs[t].cols } : t \in { u \in DOMAIN db.tabs : ~db.tabs[u].tmp } }

Table(db, t) ==
  CASE t \in DOMAIN db.tabs -> db.tabs[t]
    [] t = "_Tables"  -> Pseudo(TablesCols, { Perm(<< <<"s", n>> >>) : n \in DOMAIN db.tabs })
    [] t = "_Columns" -> Pseudo(ColumnsCols, CatalogueRows(db))
    [] t = "_Streams" -> Pseudo(StreamsCols,
                           { Perm(<< <<"s", n>>, <<"b", db.str[n]>> >>) : n \in DOMAIN db.str })

ColNo(cols, name) == CHOOSE k \in 0..Len(cols) :
   IF \E j \in DOMAIN cols : cols[j].n = name
   THEN k > 0 /\ cols[k].n = name /\ \A j \in 1..(k-1) : cols[j].n # name
   ELSE k = 0

KeyCols(cols) == { k \in DOMAIN cols : cols[k].key }
KeyOf(cols, v) == [ k \in KeyCols(cols) |-> v[k] ]

(* -------------------------------------------------------------- operands *)
(* <<"i",n>> <<"s",str>> literals, <<"?",k>> the k-th parameter.  A missing *)
(* parameter reads as NULL.                                                 *)
Operand(o, par) ==
  IF o[1] # "?" THEN o
  ELSE IF o[2] \in DOMAIN par THEN par[o[2]] ELSE Null

(* What a supplied value becomes in a column; "bad" when it cannot be held. *)
Coerce(c, v) ==
  CASE c.t = "bin" -> IF v[1] \in {"b", "n"} THEN v ELSE Null
    [] c.t = "str" -> IF v = <<"s", "">> THEN Null
                      ELSE IF v[1] = "s" THEN v ELSE Null
    [] v = <<"s", "">> -> Null
    [] v[1] = "s" /\ TextIsInt(v[2]) -> <<"i", DecimalOf(v[2])>>
    [] OTHER -> v

InRange(c, v) ==
  CASE c.t = "int2" -> IsNull(v) \/ (v[1] = "i" /\ v[2] >= -32767 /\ v[2] <= 32767)
    [] c.t = "int4" -> IsNull(v) \/ v[1] = "i"
    [] OTHER -> TRUE

RowOkIn(cols, v, which) ==
  \A k \in which :
     /\ InRange(cols[k], v[k])
     /\ (cols[k].nn /\ cols[k].t # "bin") => ~IsNull(v[k])

RowOk(cols, v) == RowOkIn(cols, v, DOMAIN cols)

(* Name of the stream that holds a binary cell. *)
ValText(v) == IF v[1] = "n" THEN "" ELSE IF v[1] = "i" THEN ToString(v[2]) ELSE v[2]
RECURSIVE KeyText(_, _, _)
KeyText(cols, v, k) ==
  IF k > Len(cols) THEN ""
  ELSE (IF cols[k].key THEN "." \o ValText(v[k]) ELSE "") \o KeyText(cols, v, k + 1)
StreamName(t, cols, v) == t \o KeyText(cols, v, 1)

(* Storages hold names of at most 31 units; letters, digits, "." and "_"    *)
(* are packed two to a unit, and a table's own stream has one unit more.    *)
Packed == {"0","1","2","3","4","5","6","7","8","9",".","_",
  "A","B","C","D","E","F","G","H","I","J","K","L","M","N","O","P","Q","R","S","T","U","V","W","X","Y","Z",
  "a","b","c","d","e","f","g","h","i","j","k","l","m","n","o","p","q","r","s","t","u","v","w","x","y","z"}
RECURSIVE Units(_, _)
Units(s, i) ==
  IF i > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i) \in Packed /\ i < Len(s) /\ SubSeq(s, i + 1, i + 1) \in Packed
       THEN 1 + Units(s, i + 2)
  ELSE 1 + Units(s, i + 1)
StreamFits(n) == Len(n) <= 31 \/ (Len(n) <= 62 /\ Units(n, 1) <= 31)
TableFits(n)  == Len(n) <= 30 \/ (Len(n) <= 60 /\ Units(n, 1) <= 30)

(* Streams that storing these cells would need. *)
BinNames(t, cols, v, which) ==
  { StreamName(t, cols, v) : k \in { j \in which : cols[j].t = "bin" /\ v[j][1] = "b" } }
BinFits(str, t, cols, v, which) ==
  \A n \in BinNames(t, cols, v, which) : n \in DOMAIN str \/ StreamFits(n)

(* Streams written when binary cells with bytes are stored in a row. *)
RECURSIVE StoreBin(_, _, _, _, _, _)
StoreBin(str, t, cols, v, which, k) ==
  IF k > Len(cols) THEN str
  ELSE StoreBin(IF cols[k].t = "bin" /\ k \in which /\ v[k][1] = "b"
                THEN Put(str, StreamName(t, cols, v), v[k][2]) ELSE str,
                t, cols, v, which, k + 1)

(* A binary cell in memory only says "there is a stream"; its bytes are read *)
(* from the stream of that name.                                            *)
Mark(v) == IF v[1] = "b" THEN <<"b">> ELSE v
MarkRow(v) == [ k \in DOMAIN v |-> Mark(v[k]) ]
Show(db, t, cols, v, k) ==
  IF cols[k].t = "bin" /\ v[k] = <<"b">>
  THEN LET n == StreamName(t, cols, v)
       IN  IF n \in DOMAIN db.str THEN <<"b", db.str[n]>> ELSE Null
  ELSE v[k]

(* ------------------------------------------------------------- conditions *)
(* <<"true">> <<"and",a,b>> <<"or",a,b>> <<"cmp",op,col,operand|col>>       *)
(* <<"null",col>> <<"notnull",col>>;  col = <<"c", table, column>> with      *)
(* table "" when the statement does not name it.                            *)
(* env: Seq of [t, cols, v]                                                 *)
Minus31 == -2147483647 - 1
Where2(env, c) ==       \* << position in env, column >> or <<0,0>>
  LET cand == { p \in DOMAIN env : (c[2] = "" \/ env[p].t = c[2]) /\ ColNo(env[p].cols, c[3]) > 0 }
  IN  IF cand = {} THEN <<0, 0>>
      ELSE LET p == CHOOSE q \in cand : \A r \in cand : q <= r
           IN  <<p, ColNo(env[p].cols, c[3])>>

ColOf(env, c) == LET w == Where2(env, c) IN env[w[1]].cols[w[2]]
CellOf(env, c) == LET w == Where2(env, c) IN env[w[1]].v[w[2]]

IntVal(env, o, par) ==
  IF o[1] = "c"
  THEN LET v == CellOf(env, o) IN
       IF IsNull(v) THEN (IF ColOf(env, o).t = "int2" THEN -32768 ELSE Minus31) ELSE v[2]
  ELSE LET v == Operand(o, par) IN IF IsNull(v) THEN Minus31 ELSE v[2]

StrVal(env, o, par) ==
  LET v == IF o[1] = "c" THEN CellOf(env, o) ELSE Operand(o, par)
  IN  IF IsNull(v) THEN "" ELSE v[2]

Compare(op, a, b) ==
  CASE op = "=" -> a = b [] op = "<>" -> a # b [] op = "<" -> a < b
    [] op = ">" -> a > b [] op = "<=" -> a <= b [] op = ">=" -> a >= b

RECURSIVE Holds(_, _, _)
Holds(env, c, par) ==
  CASE c[1] = "true" -> TRUE
    [] c[1] = "and" -> Holds(env, c[2], par) /\ Holds(env, c[3], par)
    [] c[1] = "or"  -> Holds(env, c[2], par) \/ Holds(env, c[3], par)
    [] c[1] = "null" -> IsNull(CellOf(env, c[2]))
    [] c[1] = "notnull" -> ~IsNull(CellOf(env, c[2]))
    [] c[1] = "cmp" ->
         IF ColOf(env, c[3]).t = "str"
         THEN LET a == StrVal(env, c[3], par) b == StrVal(env, c[4], par)
              IN  IF c[2] = "=" THEN a = b ELSE a # b
         ELSE Compare(c[2], IntVal(env, c[3], par), IntVal(env, c[4], par))

(* Is the condition well formed over these columns? *)
KindOf(env, o) ==
  CASE o[1] = "c" -> (IF ColOf(env, o).t = "str" THEN "s" ELSE IF ColOf(env, o).t = "bin" THEN "b" ELSE "i")
    [] o[1] = "?" -> "?"
    [] OTHER -> o[1]
RECURSIVE CondOk(_, _)
CondOk(env, c) ==
  CASE c[1] = "true" -> TRUE
    [] c[1] \in {"and", "or"} -> CondOk(env, c[2]) /\ CondOk(env, c[3])
    [] c[1] \in {"null", "notnull"} -> Where2(env, c[2]) # <<0, 0>>
    [] c[1] = "cmp" ->
         /\ Where2(env, c[3]) # <<0, 0>>
         /\ c[4][1] = "c" => Where2(env, c[4]) # <<0, 0>>
         /\ LET a == KindOf(env, c[3]) b == KindOf(env, c[4])
            IN  /\ (a = "s" /\ b \in {"s", "?"}) \/ (a = "i" /\ b \in {"i", "?"})
                /\ a = "s" => c[2] \in {"=", "<>"}

(* ----------------------------------------------------------------- select *)
EnvOf(db, ts) == [ p \in DOMAIN ts |-> [t |-> ts[p], cols |-> Table(db, ts[p]).cols, v |-> << >>] ]

(* all choices of one row per table *)
RECURSIVE Combos(_, _, _)
Combos(db, ts, p) ==
  IF p > Len(ts) THEN { << >> }
  ELSE { << r >> \o rest : r \in Table(db, ts[p]).rows, rest \in Combos(db, ts, p + 1) }

BindEnv(env, combo) == [ p \in DOMAIN env |-> [env[p] EXCEPT !.v = combo[p].v] ]

(* q = <<"select", distinct, cols, tables, cond, order>>                    *)
(* cols: << <<"*">> >> or sequence of <<"c", table, column>>                      *)
AllCols(env) == FlattenSeq([ p \in DOMAIN env |->
                   [ k \in DOMAIN env[p].cols |-> <<p, k>> ] ])
SelCols(env, cols) ==
  IF cols = << <<"*">> >> THEN AllCols(env) ELSE [ k \in DOMAIN cols |-> Where2(env, cols[k]) ]

SelectOk(db, q) ==
  /\ q[4] # << >>
  /\ \A p \in DOMAIN q[4] : HasTable(db, q[4][p])
  /\ LET env == EnvOf(db, q[4]) IN
     /\ q[3] = << <<"*">> >> \/ \A k \in DOMAIN q[3] : Where2(env, q[3][k]) # <<0, 0>>
     /\ CondOk(env, q[5])
     /\ \A k \in DOMAIN q[6] : Where2(env, q[6][k]) # <<0, 0>>

SelTypes(env, sel) == [ k \in DOMAIN sel |-> TypeName(env[sel[k][1]].cols[sel[k][2]])[1] ]

Project(db, env, sel) ==
  [ k \in DOMAIN sel |-> LET e == env[sel[k][1]] IN Show(db, e.t, e.cols, e.v, sel[k][2]) ]

(* The answer: rows as a function  projected row -> how many times.         *)
Answer(db, q, par) ==
  LET env  == TLCEval(EnvOf(db, q[4]))
      sel  == TLCEval(SelCols(env, q[3]))
      hits == TLCEval({ c \in Combos(db, q[4], 1) : Holds(BindEnv(env, c), q[5], par) })
      proj == TLCEval([ c \in hits |-> Project(db, BindEnv(env, c), sel) ])
  IN  [ types |-> SelTypes(env, sel),
        rows  |-> [ o \in { proj[c] : c \in hits } |-> IF q[2] THEN 1
                    ELSE Cardinality({ c \in hits : proj[c] = o }) ] ]

(* -------------------------------------------------------------- statements *)
Res(db, r) == [db |-> db, r |-> r]

InsertOne(db, t, v, temp) ==
  LET tab == db.tabs[t]
      row == [v |-> MarkRow(v), t |-> temp \/ tab.tmp]
  IN  IF ~RowOk(tab.cols, v) \/ \E r \in tab.rows : KeyOf(tab.cols, r.v) = KeyOf(tab.cols, row.v)
      THEN Res(db, Fail("constraint"))
      ELSE IF ~BinFits(db.str, t, tab.cols, v, DOMAIN tab.cols) THEN Res(db, Fail("stream name"))
      ELSE Res([db EXCEPT !.tabs[t].rows = @ \union {row},
                          !.str = StoreBin(@, t, tab.cols, v, DOMAIN tab.cols, 1)], Done)

(* <<"insert", table, columns, values, temporary>> *)
DoInsert(db, s, par, params) ==
  IF ~HasTable(db, s[2]) THEN Res(db, Fail("table"))
  ELSE LET tab == Table(db, s[2])
           nums == [ k \in DOMAIN s[3] |-> ColNo(tab.cols, s[3][k]) ]
           vals == [ k \in DOMAIN s[4] |-> Operand(s[4][k], par) ]
           cell(j) == LET ks == { k \in DOMAIN nums : nums[k] = j }
                      IN  IF ks = {} THEN Null
                          ELSE Coerce(tab.cols[j], vals[CHOOSE k \in ks : TRUE])
           v == [ j \in DOMAIN tab.cols |-> cell(j) ]
       IN  IF Len(s[3]) # Len(s[4]) \/ \E k \in DOMAIN nums : nums[k] = 0
           THEN Res(db, Fail("columns"))
           ELSE IF params = "none" /\ \E k \in DOMAIN s[4] : s[4][k][1] = "?"
           THEN Res(db, Fail("parameters"))
           ELSE IF s[2] = "_Streams"
           THEN IF IsNull(v[1]) \/ v[2][1] # "b" \/ ~(v[1][2] \in DOMAIN db.str \/ StreamFits(v[1][2]))
                THEN Res(db, Fail("stream"))
                ELSE Res([db EXCEPT !.str = Put(@, v[1][2], v[2][2])], Done)
           ELSE IF s[2] \in System THEN Res(db, Fail("system"))
           ELSE InsertOne(db, s[2], v, s[5])

(* <<"update", table, << <<column, operand>> >>, cond>> *)
DoUpdate(db, s, par) ==
  IF ~HasTable(db, s[2]) THEN Res(db, Fail("table"))
  ELSE LET tab == Table(db, s[2])
           env == EnvOf(db, << s[2] >>)
           nums == [ k \in DOMAIN s[3] |-> ColNo(tab.cols, s[3][k][1]) ]
           hits == { r \in tab.rows : Holds(<< [env[1] EXCEPT !.v = r.v] >>, s[4], par) }
           set(j) == { k \in DOMAIN nums : nums[k] = j }
           new(v) == [ j \in DOMAIN v |->
                        IF set(j) = {} THEN v[j]
                        ELSE Coerce(tab.cols[j], Operand(s[3][CHOOSE k \in set(j) : TRUE][2], par)) ]
           which == { nums[k] : k \in DOMAIN nums }
           RECURSIVE Bins(_, _)
           Bins(str, rs) == IF rs = {} THEN str
                            ELSE LET r == CHOOSE x \in rs : TRUE
                                 IN  Bins(StoreBin(str, s[2], tab.cols, new(r.v), which, 1), rs \ {r})
       IN  IF (\E k \in DOMAIN nums : nums[k] = 0) \/ ~CondOk(env, s[4]) THEN Res(db, Fail("columns"))
           ELSE IF s[2] \in System THEN Res(db, Fail("system"))
           ELSE IF hits = {} THEN Res(db, Done)
           ELSE IF \E j \in which : tab.cols[j].key THEN Res(db, Fail("key"))
           ELSE IF \E r \in hits : ~RowOkIn(tab.cols, new(r.v), which) THEN Res(db, Fail("constraint"))
           ELSE IF \E r \in hits : ~BinFits(db.str, s[2], tab.cols, new(r.v), which) THEN Res(db, Fail("stream name"))
           ELSE Res([db EXCEPT !.tabs[s[2]].rows = (@ \ hits) \union
                                  { [v |-> MarkRow(new(r.v)), t |-> r.t] : r \in hits },
                               !.str = Bins(@, hits)], Done)

(* <<"delete", table, cond>> *)
DoDelete(db, s, par) ==
  IF ~HasTable(db, s[2]) THEN Res(db, Fail("table"))
  ELSE LET env == EnvOf(db, << s[2] >>)
           hits == { r \in Table(db, s[2]).rows : Holds(<< [env[1] EXCEPT !.v = r.v] >>, s[3], par) }
       IN  IF ~CondOk(env, s[3]) THEN Res(db, Fail("columns"))
           ELSE IF s[2] = "_Streams"
           THEN LET gone == { r.v[1][2] : r \in hits }
                IN  Res([db EXCEPT !.str = [ n \in DOMAIN @ \ gone |-> @[n] ]], Done)
           ELSE IF s[2] \in System THEN Res(db, Fail("system"))
           ELSE Res([db EXCEPT !.tabs[s[2]].rows = @ \ hits], Done)

(* Primary key columns move to the front, each trading places.              *)
RECURSIVE KeysFirst(_, _, _)
KeysFirst(cols, keys, p) ==
  IF p > Len(keys) THEN cols
  ELSE LET k == ColNo(cols, keys[p])
           c2 == [ j \in DOMAIN cols |->
                    IF j = p THEN [cols[k] EXCEPT !.key = TRUE]
                    ELSE IF j = k THEN cols[p] ELSE cols[j] ]
       IN  KeysFirst(c2, keys, p + 1)

(* <<"create", table, columns, keys, hold>> *)
DoCreate(db, s) ==
  LET names == [ k \in DOMAIN s[3] |-> s[3][k].n ]
      known == \A p \in DOMAIN s[4] : \E k \in DOMAIN names : names[k] = s[4][p]
      cols == KeysFirst([ k \in DOMAIN s[3] |-> s[3][k] @@ [key |-> FALSE, late |-> FALSE] ], s[4], 1)
      tmp  == \A k \in DOMAIN s[3] : s[3][k].tmp
  IN  IF s[4] = << >> \/ ~known \/ Len(s[3]) > MaxCols
         \/ ~TableFits(s[2])
         \/ (\E j, k \in DOMAIN names : j # k /\ names[j] = names[k])
         \/ (\E j, k \in DOMAIN s[4] : j # k /\ s[4][j] = s[4][k])
      THEN Res(db, Fail("definition"))
      ELSE IF ~tmp /\ \E k \in DOMAIN cols : cols[k].key /\ cols[k].tmp
      THEN Res(db, Fail("definition"))
      ELSE IF tmp /\ ~s[5] THEN Res(db, Done)     \* gone at once
      ELSE IF s[2] \in DOMAIN db.tabs \union System THEN Res(db, Fail("exists"))
      ELSE Res([db EXCEPT !.tabs = Put(@, s[2],
                 [cols |-> cols, rows |-> {}, tmp |-> tmp, hold |-> 1])], Done)

(* <<"addcol", table, column>> *)
DoAddCol(db, s) ==
  IF s[2] \in System \/ s[2] \notin DOMAIN db.tabs THEN Res(db, Fail("table"))
  ELSE LET tab == db.tabs[s[2]] IN
       IF tab.tmp \/ ColNo(tab.cols, s[3].n) > 0 \/ Len(tab.cols) >= MaxCols
       THEN Res(db, Fail("column"))
       ELSE Res([db EXCEPT !.tabs[s[2]] =
              [@ EXCEPT !.cols = Append(@, s[3] @@ [key |-> FALSE, late |-> tab.rows # {}]),
                        !.rows = { [r EXCEPT !.v = Append(@, Null)] : r \in @ }]], Done)

(* <<"hold", table>>  <<"free", table>>  <<"drop", table>> *)
DoHold(db, s) ==
  IF s[2] \notin DOMAIN db.tabs THEN Res(db, Fail("table"))
  ELSE Res([db EXCEPT !.tabs[s[2]].hold = @ + 1], Done)
DoFree(db, s) ==
  IF s[2] \notin DOMAIN db.tabs THEN Res(db, Fail("table"))
  ELSE IF db.tabs[s[2]].tmp /\ db.tabs[s[2]].hold = 1
  THEN Res([db EXCEPT !.tabs = Del(@, s[2])], Done)
  ELSE Res([db EXCEPT !.tabs[s[2]].hold = @ - 1], Done)
DoDrop(db, s) ==
  IF s[2] \notin DOMAIN db.tabs THEN Res(db, Fail("table"))
  ELSE Res([db EXCEPT !.tabs = Del(@, s[2])], Done)

(* par: sequence of values; params: "none" when no record was given at all  *)
Exec(db, s, par, params) ==
  CASE s[1] = "insert" -> DoInsert(db, s, par, params)
    [] s[1] = "update" -> DoUpdate(db, s, par)
    [] s[1] = "delete" -> DoDelete(db, s, par)
    [] s[1] = "create" -> DoCreate(db, s)
    [] s[1] = "addcol" -> DoAddCol(db, s)
    [] s[1] = "hold"   -> DoHold(db, s)
    [] s[1] = "free"   -> DoFree(db, s)
    [] s[1] = "drop"   -> DoDrop(db, s)
    [] s[1] = "bad"    -> Res(db, Fail("syntax"))   \* text outside the grammar
    [] s[1] = "select" -> IF SelectOk(db, s) THEN Res(db, <<"rows", Answer(db, s, par)>>)
                          ELSE Res(db, Fail("select"))

(* what a commit stores *)
Stored(db) ==
  [ tabs |-> [ t \in { u \in DOMAIN db.tabs : ~db.tabs[u].tmp } |->
                 [db.tabs[t] EXCEPT !.rows = { r \in @ : ~r.t }, !.hold = 0] ],
    str |-> db.str, si |-> db.si, cp |-> db.cp ]

(* Strings are stored in the database's code page (0: the system's, 1252    *)
(* here); what it cannot represent cannot be committed.                     *)
AsciiText == " !\"#$%&'()*+,-./0123456789:;<=>?@ABCDEFGHIJKLMNOPQRSTUVWXYZ[\\]^_`abcdefghijklmnopqrstuvwxyz{|}~\t\n\r\f"
AsciiS == { SubSeq(AsciiText, i, i) : i \in 1..Len(AsciiText) }
PagesOf == [ c \in {"é", "ü", "ß", "ï", "Ä", "ö", "©"} |-> {0, 1252, 850} ]
           @@ ("€" :> {0, 1252}) @@ [ c \in {"日", "本", "語"} |-> {932} ] @@ ("Ж" :> {1251, 932})
CodePages == {0, 437, 850, 932, 1250, 1251, 1252, 20127, 28591, 65001}
CharFits(cp, c) == c \in AsciiS \/ (c \in DOMAIN PagesOf /\ cp \in PagesOf[c])
TextFits(cp, t) == cp = 65001 \/ \A i \in 1..Len(t) : CharFits(cp, SubSeq(t, i, i))
StoredTexts(db) ==
  UNION { {t} \union { db.tabs[t].cols[k].n : k \in DOMAIN db.tabs[t].cols }
          \union { x[2] : x \in { v \in UNION { { r.v[k] : k \in DOMAIN r.v } : r \in db.tabs[t].rows } : v[1] = "s" } } : t \in DOMAIN db.tabs }
Storable(db) == db.cp = 65001 \/ \A t \in StoredTexts(Stored(db)) : TextFits(db.cp, t)

(* -------------------------------------------------- what always holds (D02) *)
KeysUnique(db) == \A t \in DOMAIN db.tabs : \A r, q \in db.tabs[t].rows :
   KeyOf(db.tabs[t].cols, r.v) = KeyOf(db.tabs[t].cols, q.v) => r = q
NullsHeld(db) == \A t \in DOMAIN db.tabs : \A r \in db.tabs[t].rows :
   RowOkIn(db.tabs[t].cols, r.v, { k \in DOMAIN r.v : ~db.tabs[t].cols[k].late })
SchemaOk(db) == \A t \in DOMAIN db.tabs :
   LET c == db.tabs[t].cols IN
   /\ Len(c) \in 1..MaxCols
   /\ KeyCols(c) # {} /\ KeyCols(c) = 1..Cardinality(KeyCols(c))
   /\ \A j, k \in DOMAIN c : c[j].n = c[k].n => j = k
   /\ \A r \in db.tabs[t].rows : Len(r.v) = Len(c)
   /\ t \notin System
TempOk(db) == \A t \in DOMAIN db.tabs : db.tabs[t].tmp =>
   /\ db.tabs[t].hold >= 1
   /\ \A r \in db.tabs[t].rows : r.t
CatalogueOk(db) ==
   /\ { r.v[1][2] : r \in Table(db, "_Tables").rows } = DOMAIN db.tabs
   /\ \A t \in DOMAIN db.tabs : ~db.tabs[t].tmp =>
        { <<r.v[2][2], r.v[3][2]>> : r \in { x \in Table(db, "_Columns").rows : x.v[1][2] = t } }
          = { <<k, db.tabs[t].cols[k].n>> : k \in DOMAIN db.tabs[t].cols }
DbOk(db) == KeysUnique(db) /\ NullsHeld(db) /\ SchemaOk(db) /\ TempOk(db) /\ CatalogueOk(db)
==========================================================================
