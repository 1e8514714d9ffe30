------------------------------ MODULE SqlText ------------------------------
(* From the text of a statement to its meaning: Parse(text) is one of the   *)
(* statements of MsiDb, or <<"bad">> for text outside the grammar.          *)
(*   characters -> Tokens(text) -> recursive descent -> statement           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Lower == "abcdefghijklmnopqrstuvwxyz"
Upper == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
Nums  == "0123456789"
CharsOf(s) == { SubSeq(s, i, i) : i \in 1..Len(s) }
LowerS == CharsOf(Lower)   UpperS == CharsOf(Upper)   DigitS == CharsOf(Nums)
UpOf == [ c \in LowerS |-> LET i == CHOOSE j \in 1..26 : SubSeq(Lower, j, j) = c IN SubSeq(Upper, i, i) ]
DigitVal == [ c \in DigitS |-> (CHOOSE j \in 1..10 : SubSeq(Nums, j, j) = c) - 1 ]
Upcase(w) == FoldLeft(LAMBDA a, c : a \o (IF c \in LowerS THEN UpOf[c] ELSE c), "", [ i \in 1..Len(w) |-> SubSeq(w, i, i) ])

Blank == {" ", "\t", "\n", "\f"}
Single == {"-", "(", ")", "*", "=", "?", ","}
OtherAscii == CharsOf("!\"#$%&'()*+,-./:;<=>?@[\\]^_`{|}~") \union Blank \union {"\r"}
IdChar(c) == c \in LowerS \/ c \in UpperS \/ c \in DigitS \/ c \in {"_", "-"} \/ c \notin OtherAscii
IdStart(c) == IdChar(c) /\ c \notin DigitS /\ c # "-"

Keywords == {"ADD","ALTER","AND","BY","CHAR","CHARACTER","CREATE","DELETE","DISTINCT","DROP","FREE","FROM","HOLD",
  "INSERT","INT","INTEGER","INTO","IS","KEY","LIKE","LOCALIZABLE","LONG","LONGCHAR","NOT","NULL","OBJECT","OR","ORDER",
  "PRIMARY","SELECT","SET","SHORT","TABLE","TEMPORARY","UPDATE","VALUES","WHERE"}
Canon(w) == CASE w = "INTEGER" -> "INT" [] w = "CHARACTER" -> "CHAR" [] OTHER -> w

At(t, i) == IF i > Len(t) THEN "" ELSE SubSeq(t, i, i)
RECURSIVE Until(_, _, _)        \* position of the next c from i, 0 if none
Until(t, i, c) == IF i > Len(t) THEN 0 ELSE IF SubSeq(t, i, i) = c THEN i ELSE Until(t, i + 1, c)

(* Tokens are <<kind, text>>, numbers <<"int", n>>; <<"ill", "">> is in no   *)
(* grammar.  One pass over the characters: mode, text so far, tokens.       *)
Z(out) == [mode |-> "", b |-> "", n |-> 0, out |-> out]
St(mode, b, n, out) == [mode |-> mode, b |-> b, n |-> n, out |-> out]
Ill == <<"ill", "">>
Word(w) == LET u == Upcase(w) IN IF u \in Keywords THEN <<"kw", Canon(u)>> ELSE <<"id", w>>
(* a number that fits 31 bits, else -1 *)
Digit(n, c) == LET d == DigitVal[c] IN
  IF n = -1 \/ n > 214748364 \/ (n = 214748364 /\ d > 7) THEN -1 ELSE 10 * n + d
Number(n) == IF n = -1 THEN Ill ELSE <<"int", n>>

Start(out, c) ==
  CASE c \in Blank -> Z(out)
    [] c \in DigitS -> St("num", "", DigitVal[c], out)
    [] c \in Single -> Z(Append(out, <<"p", c>>))
    [] c \in {"'", "`", "<", ">", "!", "."} -> St(c, "", 0, out)
    [] c = "[" -> St("[", "[", 0, out)
    [] IdStart(c) -> St("id", c, 0, out)
    [] OTHER -> Z(Append(out, Ill))
Feed(x, c) ==
  CASE x.mode = "" -> Start(x.out, c)
    [] x.mode = "id" ->
         IF IdChar(c) THEN [x EXCEPT !.b = @ \o c]
         ELSE LET w == Word(x.b) out == Append(x.out, w)
              IN  IF w[1] = "id" /\ c = "`" THEN Z(out) ELSE Start(out, c)
    [] x.mode = "num" -> IF c \in DigitS THEN [x EXCEPT !.n = Digit(@, c)] ELSE Start(Append(x.out, Number(x.n)), c)
    [] x.mode \in {"'", "`"} -> IF c = x.mode THEN Z(Append(x.out, <<IF c = "'" THEN "str" ELSE "id", x.b>>))
                               ELSE [x EXCEPT !.b = @ \o c]
    [] x.mode = "[" -> IF c = "]" THEN Z(Append(x.out, <<"id", x.b \o c>>)) ELSE [x EXCEPT !.b = @ \o c]
    [] x.mode = "<" -> IF c \in {"=", ">"} THEN Z(Append(x.out, <<"p", "<" \o c>>)) ELSE Start(Append(x.out, <<"p", "<">>), c)
    [] x.mode = ">" -> IF c = "=" THEN Z(Append(x.out, <<"p", ">=">>)) ELSE Start(Append(x.out, <<"p", ">">>), c)
    [] x.mode = "!" -> IF c = "=" THEN Z(Append(x.out, <<"p", "<>">>)) ELSE Z(Append(x.out, Ill))
    [] x.mode = "." -> IF c \in DigitS THEN Z(Append(x.out, Ill)) ELSE Start(Append(x.out, <<"p", ".">>), c)
End(x) ==
  CASE x.mode = "" -> x.out
    [] x.mode = "id" -> Append(x.out, Word(x.b))
    [] x.mode = "num" -> Append(x.out, Number(x.n))
    [] x.mode = "[" -> Append(x.out, <<"id", x.b>>)
    [] x.mode \in {"<", ">", "."} -> Append(x.out, <<"p", x.mode>>)
    [] OTHER -> Append(x.out, Ill)
Tokens(t) == End(FoldLeft(Feed, Z(<< >>), [ i \in 1..Len(t) |-> SubSeq(t, i, i) ]))

(* --------------------------------------------------------------- grammar *)
(* Every rule R(ts, i, q): parse from token i with q question marks seen    *)
(* before; [ok, v: what it means, i: next token, q].                        *)
Ok(v, i, q) == [ok |-> TRUE, v |-> v, i |-> i, q |-> q]
No == [ok |-> FALSE, v |-> << >>, i |-> 0, q |-> 0]
T(ts, i) == IF i > Len(ts) THEN <<"end", "">> ELSE ts[i]
Is(ts, i, k, v) == T(ts, i)[1] = k /\ T(ts, i)[2] = v
Kw(ts, i, v) == Is(ts, i, "kw", v)
P(ts, i, v)  == Is(ts, i, "p", v)
IsId(ts, i) == T(ts, i)[1] = "id"

(* [-]int | 'text' | ? *)
Const(ts, i, q) ==
  LET t == T(ts, i) IN
  CASE t[1] = "int" -> Ok(<<"i", t[2]>>, i + 1, q)
    [] t[1] = "str" -> Ok(<<"s", t[2]>>, i + 1, q)
    [] P(ts, i, "-") /\ T(ts, i + 1)[1] = "int" -> Ok(<<"i", 0 - T(ts, i + 1)[2]>>, i + 2, q)
    [] P(ts, i, "?") -> Ok(<<"?", q + 1>>, i + 1, q + 1)
    [] OTHER -> No
Column(ts, i, q) ==
  IF ~IsId(ts, i) THEN No
  ELSE IF P(ts, i + 1, ".") THEN (IF IsId(ts, i + 2) THEN Ok(<<"c", ts[i][2], ts[i + 2][2]>>, i + 3, q) ELSE No)
  ELSE Ok(<<"c", "", ts[i][2]>>, i + 1, q)
SelColumn(ts, i, q) == IF T(ts, i)[1] = "str" THEN Ok(<<"c", "", ts[i][2]>>, i + 1, q) ELSE Column(ts, i, q)
Name(ts, i, q) == IF IsId(ts, i) THEN Ok(ts[i][2], i + 1, q) ELSE No

RECURSIVE List(_, _, _, _, _)   \* Item { , Item }
List(Item(_, _, _), ts, i, q, acc) ==
  LET x == Item(ts, i, q) IN
  IF ~x.ok THEN No
  ELSE IF P(ts, x.i, ",") THEN List(Item, ts, x.i + 1, x.q, Append(acc, x.v))
  ELSE Ok(Append(acc, x.v), x.i, x.q)
(* a list of columns, or a star alone *)
Cols(Item(_, _, _), ts, i, q) ==
  IF P(ts, i, "*") THEN Ok(<< <<"*">> >>, i + 1, q) ELSE List(Item, ts, i, q, << >>)

(* names of columns without a star; a qualifying table name is of no effect *)
Names(ts, i, q) ==
  LET x == List(Column, ts, i, q, << >>) IN IF x.ok THEN Ok([ k \in DOMAIN x.v |-> x.v[k][3] ], x.i, x.q) ELSE No

(* conditions: OR of ANDs of comparisons, left to right *)
RECURSIVE Expr(_, _, _), AndTail(_, _), OrTail(_, _), Prim(_, _, _)
Prim(ts, i, q) ==
  IF P(ts, i, "(")
  THEN LET x == Expr(ts, i + 1, q) IN IF x.ok /\ P(ts, x.i, ")") THEN Ok(x.v, x.i + 1, x.q) ELSE No
  ELSE LET c == Column(ts, i, q) IN
       IF ~c.ok THEN No
       ELSE IF Kw(ts, c.i, "IS")
       THEN IF Kw(ts, c.i + 1, "NULL") THEN Ok(<<"null", c.v>>, c.i + 2, q)
            ELSE IF Kw(ts, c.i + 1, "NOT") /\ Kw(ts, c.i + 2, "NULL") THEN Ok(<<"notnull", c.v>>, c.i + 3, q)
            ELSE No
       ELSE IF T(ts, c.i)[1] = "p" /\ ts[c.i][2] \in {"=", "<>", "<", ">", "<=", ">="}
       THEN LET v == IF IsId(ts, c.i + 1) THEN Column(ts, c.i + 1, q) ELSE Const(ts, c.i + 1, q)
            IN  IF v.ok THEN Ok(<<"cmp", ts[c.i][2], c.v, v.v>>, v.i, v.q) ELSE No
       ELSE No
AndTail(ts, l) ==
  IF ~l.ok \/ ~Kw(ts, l.i, "AND") THEN l
  ELSE LET r == Prim(ts, l.i + 1, l.q) IN IF r.ok THEN AndTail(ts, Ok(<<"and", l.v, r.v>>, r.i, r.q)) ELSE No
OrTail(ts, l) ==
  IF ~l.ok \/ ~Kw(ts, l.i, "OR") THEN l
  ELSE LET r == AndTail(ts, Prim(ts, l.i + 1, l.q)) IN IF r.ok THEN OrTail(ts, Ok(<<"or", l.v, r.v>>, r.i, r.q)) ELSE No
Expr(ts, i, q) == OrTail(ts, AndTail(ts, Prim(ts, i, q)))

Where(ts, i, q) == IF Kw(ts, i, "WHERE") THEN Expr(ts, i + 1, q) ELSE Ok(<<"true">>, i, q)

(* name type [NOT NULL] [LOCALIZABLE | TEMPORARY] *)
ColDef(ts, i, q) ==
  LET n == Column(ts, i, q) IN
  IF ~n.ok \/ T(ts, n.i)[1] # "kw" THEN No
  ELSE LET w == ts[n.i][2]
           counted == w = "CHAR" /\ P(ts, n.i + 1, "(")
           typed == w \in {"CHAR", "LONGCHAR", "SHORT", "INT", "LONG", "OBJECT"}
           sized == T(ts, n.i + 2)[1] = "int" /\ ts[n.i + 2][2] <= 255 /\ P(ts, n.i + 3, ")")
           j == IF counted THEN n.i + 4 ELSE n.i + 1
           nn == Kw(ts, j, "NOT") /\ Kw(ts, j + 1, "NULL")
           m == IF nn THEN j + 2 ELSE j
           loc == Kw(ts, m, "LOCALIZABLE")
           tmp == Kw(ts, m, "TEMPORARY")
       IN  IF ~typed \/ (counted /\ ~sized) THEN No
           ELSE Ok([ n |-> n.v[3],
                     t |-> CASE w \in {"CHAR", "LONGCHAR"} -> "str" [] w \in {"SHORT", "INT"} -> "int2"
                             [] w = "LONG" -> "int4" [] w = "OBJECT" -> "bin",
                     sz |-> CASE w = "CHAR" -> (IF counted THEN ts[n.i + 2][2] ELSE -1)
                              [] w \in {"SHORT", "INT"} -> 2 [] w = "LONG" -> 4 [] OTHER -> 0,
                     nn |-> nn, loc |-> loc, tmp |-> tmp ], IF loc \/ tmp THEN m + 1 ELSE m, q)

Finish(x, ts) == IF x.ok /\ x.i = Len(ts) + 1 THEN x.v ELSE <<"bad">>

Select(ts) ==
  LET dis == Kw(ts, 2, "DISTINCT")
      c == Cols(SelColumn, ts, IF dis THEN 3 ELSE 2, 0)
  IN  IF ~c.ok \/ ~Kw(ts, c.i, "FROM") THEN No
      ELSE LET f == List(Name, ts, c.i + 1, c.q, << >>) IN
           IF ~f.ok THEN No
           ELSE LET w == Where(ts, f.i, f.q) IN
                IF ~w.ok THEN No
                ELSE IF ~Kw(ts, w.i, "ORDER") THEN Ok(<<"select", dis, c.v, f.v, w.v, << >>>>, w.i, w.q)
                ELSE IF ~Kw(ts, w.i + 1, "BY") THEN No
                ELSE LET o == Cols(Column, ts, w.i + 2, w.q) IN
                     IF ~o.ok THEN No
                     ELSE Ok(<<"select", dis, c.v, f.v, w.v, IF o.v = << <<"*">> >> THEN << >> ELSE o.v>>, o.i, o.q)
Insert(ts) ==
  IF ~(Kw(ts, 2, "INTO") /\ IsId(ts, 3) /\ P(ts, 4, "(")) THEN No
  ELSE LET c == Names(ts, 5, 0) IN
       IF ~(c.ok /\ P(ts, c.i, ")") /\ Kw(ts, c.i + 1, "VALUES") /\ P(ts, c.i + 2, "(")) THEN No
       ELSE LET v == List(Const, ts, c.i + 3, 0, << >>) IN
            IF ~(v.ok /\ P(ts, v.i, ")")) THEN No
            ELSE LET tmp == Kw(ts, v.i + 1, "TEMPORARY")
                 IN  Ok(<<"insert", ts[3][2], c.v, v.v, tmp>>, IF tmp THEN v.i + 2 ELSE v.i + 1, v.q)
Assign(ts, i, q) ==
  LET c == Column(ts, i, q) IN
  IF ~c.ok \/ ~P(ts, c.i, "=") THEN No
  ELSE LET v == Const(ts, c.i + 1, q) IN IF v.ok THEN Ok(<<c.v[3], v.v>>, v.i, v.q) ELSE No
Update(ts) ==
  IF ~(IsId(ts, 2) /\ Kw(ts, 3, "SET")) THEN No
  ELSE LET a == List(Assign, ts, 4, 0, << >>) IN
       IF ~a.ok THEN No
       ELSE LET w == Where(ts, a.i, a.q) IN IF w.ok THEN Ok(<<"update", ts[2][2], a.v, w.v>>, w.i, w.q) ELSE No
Delete(ts) ==
  IF ~(Kw(ts, 2, "FROM") /\ IsId(ts, 3)) THEN No
  ELSE LET w == Where(ts, 4, 0) IN IF w.ok THEN Ok(<<"delete", ts[3][2], w.v>>, w.i, w.q) ELSE No
Create(ts) ==
  IF ~(Kw(ts, 2, "TABLE") /\ IsId(ts, 3) /\ P(ts, 4, "(")) THEN No
  ELSE LET c == List(ColDef, ts, 5, 0, << >>) IN
       IF ~(c.ok /\ Kw(ts, c.i, "PRIMARY") /\ Kw(ts, c.i + 1, "KEY")) THEN No
       ELSE LET k == Names(ts, c.i + 2, 0) IN
            IF ~(k.ok /\ P(ts, k.i, ")")) THEN No
            ELSE LET h == Kw(ts, k.i + 1, "HOLD")
                 IN  Ok(<<"create", ts[3][2], c.v, k.v, h>>, IF h THEN k.i + 2 ELSE k.i + 1, 0)
Alter(ts) ==
  IF ~(Kw(ts, 2, "TABLE") /\ IsId(ts, 3)) THEN No
  ELSE IF Kw(ts, 4, "HOLD") THEN Ok(<<"hold", ts[3][2]>>, 5, 0)
  ELSE IF Kw(ts, 4, "FREE") THEN Ok(<<"free", ts[3][2]>>, 5, 0)
  ELSE IF ~Kw(ts, 4, "ADD") THEN No
  ELSE LET c == ColDef(ts, 5, 0) IN IF c.ok THEN Ok(<<"addcol", ts[3][2], c.v>>, c.i, 0) ELSE No
Drop(ts) == IF Kw(ts, 2, "TABLE") /\ IsId(ts, 3) THEN Ok(<<"drop", ts[3][2]>>, 4, 0) ELSE No

ParseTokens(ts) ==
  Finish(CASE Kw(ts, 1, "SELECT") -> Select(ts) [] Kw(ts, 1, "INSERT") -> Insert(ts) [] Kw(ts, 1, "UPDATE") -> Update(ts)
           [] Kw(ts, 1, "DELETE") -> Delete(ts) [] Kw(ts, 1, "CREATE") -> Create(ts) [] Kw(ts, 1, "ALTER") -> Alter(ts)
           [] Kw(ts, 1, "DROP") -> Drop(ts) [] OTHER -> No, ts)
Parse(text) == LET ts == TLCEval(Tokens(text)) IN ParseTokens(ts)
============================================================================
