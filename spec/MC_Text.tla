------------------------------ MODULE MC_Text ------------------------------
(* Texts: canonical statements, every one of their neighbours (a token      *)
(* dropped, doubled, swapped, replaced, inserted; spaces, letter case and   *)
(* quotes changed), odd literals in every context, and every way to combine *)
(* three comparisons.  Texts outside what DESIGN.md calls use are left out. *)
EXTENDS MsiSys, SqlText, MCRun

TheDepth == 1
Part == EnvInt("PART", 0)
Wide == EnvInt("WIDE", 0) = 1
C(n, t, sz) == [n |-> n, t |-> t, sz |-> sz, nn |-> FALSE, loc |-> FALSE, tmp |-> FALSE]
NN(c) == [c EXCEPT !.nn = TRUE]
Sql(a) == <<"sql", "A", a, << >>>>
Ins(t, cs, vs) == Sql(<<"insert", t, cs, vs, FALSE>>)
I(n) == <<"i", n>>
S(x) == <<"s", x>>
ThePrelude ==
  << <<"open", "A", "p", "create", "">>,
     Sql(<<"create", "T", <<NN(C("K", "int2", 2)), C("S", "str", 20), C("L", "int4", 4)>>, <<"K">>, FALSE>>),
     Ins("T", <<"K", "S", "L">>, <<I(1), S("x"), I(10)>>), Ins("T", <<"K", "S", "L">>, <<I(2), S("q\"`"), I(-5)>>), Ins("T", <<"K">>, <<I(3)>>),
     Sql(<<"create", "U", <<NN(C("K", "int2", 2)), C("N", "int2", 2)>>, <<"K">>, FALSE>>),
     Ins("U", <<"K", "N">>, <<I(1), I(2)>>), Ins("U", <<"K", "N">>, <<I(2), I(1)>>),
     Sql(<<"create", "V", <<NN(C("A", "int2", 2)), NN(C("B", "int2", 2)), NN(C("D", "int2", 2))>>, <<"A", "B", "D">>, FALSE>>) >>
  \o [ k \in 1..8 |-> Ins("V", <<"A", "B", "D">>, <<I((k - 1) % 2), I(((k - 1) \div 2) % 2), I((k - 1) \div 4)>>) ]

Canonical == <<
  <<"SELECT", "*", "FROM", "T">>,
  <<"SELECT", "DISTINCT", "`K`", ",", "T.S", "FROM", "T", ",", "U", "WHERE", "T.K", "=", "U.N", "ORDER", "BY", "T.K">>,
  <<"SELECT", "K", "FROM", "T", "WHERE", "(", "K", "<", "3", "OR", "S", "=", "'x'", ")", "AND", "L", "IS", "NOT", "NULL">>,
  <<"INSERT", "INTO", "T", "(", "K", ",", "S", ")", "VALUES", "(", "7", ",", "'y'", ")", "TEMPORARY">>,
  <<"UPDATE", "T", "SET", "S", "=", "'z'", ",", "L", "=", "-", "4", "WHERE", "K", ">=", "2">>,
  <<"DELETE", "FROM", "T", "WHERE", "L", "IS", "NULL">>,
  <<"CREATE", "TABLE", "`N`", "(", "A", "CHAR", "(", "8", ")", "NOT", "NULL", "LOCALIZABLE", ",", "B", "LONG", "PRIMARY", "KEY", "A", ")", "HOLD">>,
  <<"ALTER", "TABLE", "U", "ADD", "X", "INT", "NOT", "NULL">>,
  <<"ALTER", "TABLE", "U", "HOLD">>,
  <<"ALTER", "TABLE", "U", "FREE">>,
  <<"DROP", "TABLE", "U">>,
  <<"SELECT", "'S'", "FROM", "T", "WHERE", "K", "<>", "?", "ORDER", "BY", "*">> >>

RECURSIVE Join(_, _, _)         \* tokens with sep(i) before token i
Join(ts, sep, i) == IF i > Len(ts) THEN "" ELSE (IF i = 1 THEN "" ELSE sep[i]) \o ts[i] \o Join(ts, sep, i + 1)
Spaced(ts) == Join(ts, [ i \in 1..Len(ts) |-> " " ], 1)
Cut(ts, i) == SubSeq(ts, 1, i - 1) \o SubSeq(ts, i + 1, Len(ts))
Ins1(ts, i, w) == SubSeq(ts, 1, i - 1) \o <<w>> \o SubSeq(ts, i, Len(ts))
Some == {"(", ")", ",", ".", "*", "=", "<>", "-", "?", "AND", "OR", "NOT", "NULL", "K", "T", "0", "'x'", ";", "INT"}
More == Keywords \union {"<", ">", "<=", ">=", "!=", "!", "S", "L", "U", "N", "X", "2", "''", "`", "'", "\"", "$", "@", "[K]", "é", "_", "K-1", "\r", "/", "+", "--", "&", "|", "~", "#", "\\", "{", ":"}
Tokens1 == IF Wide THEN Some \union More ELSE Some
Bare(w) == IF Len(w) >= 2 /\ At(w, 1) \in {"`", "'"} THEN SubSeq(w, 2, Len(w) - 1) ELSE w
RECURSIVE LowFrom(_, _)
DnOf == [ c \in UpperS |-> CHOOSE d \in LowerS : UpOf[d] = c ]
LowFrom(x, i) == IF i > Len(x) THEN "" ELSE LET c == SubSeq(x, i, i) IN (IF c \in UpperS THEN DnOf[c] ELSE c) \o LowFrom(x, i + 1)
Reword(w) == { "`" \o Bare(w) \o "`", "'" \o Bare(w) \o "'", "[" \o Bare(w) \o "]", Bare(w), Bare(w) \o "`", "`" \o Bare(w), "'" \o Bare(w), Bare(w) \o "'",
               LowFrom(w, 1), At(w, 1) \o LowFrom(w, 2), w \o "_", w \o "1", w \o ".", w \o "\r" }
Seps == { "", "\t", "\n \f", "\r", "\r\n", "  ", " \n\r" }

Neighbours(ts) ==
  { Spaced(ts) } \union { Spaced(Cut(ts, i)) : i \in DOMAIN ts }
  \union { Spaced(Ins1(ts, i, ts[i])) : i \in DOMAIN ts }
  \union { Spaced([ts EXCEPT ![i] = ts[i + 1], ![i + 1] = ts[i]]) : i \in 1..(Len(ts) - 1) }
  \union { Spaced([ts EXCEPT ![i] = w]) : i \in DOMAIN ts, w \in Tokens1 }
  \union { Spaced(Ins1(ts, i, w)) : i \in 1..(Len(ts) + 1), w \in Tokens1 }
  \union UNION { { Spaced([ts EXCEPT ![i] = w]) : w \in Reword(ts[i]) } : i \in DOMAIN ts }
  \union { Join(ts, [ j \in 1..Len(ts) |-> IF j = i THEN x ELSE " " ], 1) : i \in DOMAIN ts, x \in Seps }
  \union { Spaced(SubSeq(ts, 1, i)) : i \in DOMAIN ts }
  \union { Spaced(ts) \o x : x \in Seps \union {";", " ;", "'", "`", "-", " -"} } \union { x \o Spaced(ts) : x \in Seps }
  \union { Join(ts, [ j \in 1..Len(ts) |-> x ], 1) : x \in Seps } \union { LowFrom(Spaced(ts), 1) }

Literals == { "007", "0", "-0", "32767", "32768", "-32767", "-32768", "2147483647", "2147483648", "-2147483647", "-2147483648", "4294967296", "4294967297",
  "99999999999999999999", "000000000000000000001", "- 5", "--5", "1.5", ".5", "5.", "1e3", "0x10", "+5", "1-", "1-2", "-", "5a", "5 5",
  "''", "'a''b'", "'`'", "'\"'", "' '", "'é'", "'日本'", "'a\r\nb'", "'--'", "'%s'", "';'", "'\\'", "'\\''", "'a' 'b'", "\"a\"", "`a`", "[a]", "'\t'", "NULL", "'NULL'", "(1)", "?", "??", "K", "'K'" }
LitTexts == UNION { { "INSERT INTO T (K, L) VALUES (9, " \o w \o ")", "INSERT INTO T (K, S) VALUES (9," \o w \o ")", "INSERT INTO U (K) VALUES (" \o w \o ")",
    "UPDATE T SET S = " \o w \o " WHERE K = 1", "UPDATE T SET L=" \o w, "SELECT K FROM T WHERE L >= " \o w, "SELECT K FROM T WHERE S = " \o w, "SELECT K FROM T WHERE S<>" \o w \o " OR K = 2",
    "CREATE TABLE W (A CHAR(" \o w \o ") PRIMARY KEY A)", "SELECT " \o w \o " FROM T", "SELECT * FROM T ORDER BY " \o w } : w \in Literals }
  \union { "CREATE TABLE W (A CHAR(" \o w \o ") NOT NULL PRIMARY KEY A)" : w \in {"255", "256", "1", "0", "00255"} }
Glue == { "T", "K", "_T", "T-1", "T1", "1T", "T.K", "tést", "T`", "`T`", "[T]", "[T", "T]", "`T", "SELECT1", "selec", "OBJECTS", "TEMPORARYX", "LOCALIZABLES", "int", "Key", "" }
NameTexts == UNION { { "SELECT * FROM " \o w, "SELECT " \o w \o " FROM T", "SELECT K FROM T WHERE " \o w \o "=1", "DROP TABLE " \o w,
    "CREATE TABLE " \o w \o " (K INT NOT NULL PRIMARY KEY K)", "CREATE TABLE W (" \o w \o " INT NOT NULL PRIMARY KEY " \o w \o ")", "SELECT K FROM T ORDER BY " \o w } : w \in Glue }

(* three comparisons, all ways to join and bracket them *)
Cs == <<"A = 1", "B = 1", "D = 1">>
Cmps == { "=", "<>", "!=", "<", ">", "<=", ">=", "=<", "=>", "==", "< =", "> =", "< >", "! =" }
CondTexts ==
  { "SELECT * FROM V WHERE " \o x : x \in
      UNION { { Cs[1] \o o \o Cs[2] \o p \o Cs[3], "(" \o Cs[1] \o o \o Cs[2] \o ")" \o p \o Cs[3], Cs[1] \o o \o "(" \o Cs[2] \o p \o Cs[3] \o ")",
                "(" \o Cs[1] \o o \o Cs[2] \o p \o Cs[3] \o ")", "((" \o Cs[1] \o "))" \o o \o Cs[2] \o p \o "(" \o Cs[3] \o ")", Cs[1] \o o \o Cs[2] \o p \o Cs[3] \o o \o Cs[1] } : o, p \in {" AND ", " OR "} } }
  \union { "SELECT A, B FROM V WHERE A " \o c \o " " \o v : c \in Cmps, v \in {"0", "1", "B"} }
  \union { "SELECT A, B FROM V WHERE A" \o c \o v : c \in Cmps, v \in {"0", "-1", "B"} }
  \union { "SELECT * FROM V WHERE " \o v \o " = A" : v \in {"1", "'1'", "?", "B", "V.B", "(B)"} }

(* ---- what is left out ---- *)
RECURSIVE OddCond(_)
OddCond(c) ==
  CASE c[1] \in {"and", "or"} -> OddCond(c[2]) \/ OddCond(c[3])
    [] c[1] = "cmp" -> IF c[3][3] = "S" THEN c[4][1] \in {"i", "?"} \/ (c[4][1] = "c" /\ c[4][3] # "S")
                       ELSE c[4][1] = "s" \/ (c[4][1] = "c" /\ c[4][3] = "S")
    [] OTHER -> FALSE
Dup(ns) == \E i, j \in DOMAIN ns : i # j /\ ns[i] = ns[j]
Has(ts, k, v) == \E i \in DOMAIN ts : ts[i][1] = k /\ ts[i][2] = v
LeftOut(ts, a) ==
  LET first == T(ts, 1) IN
  \/ first = <<"kw", "DELETE">> /\ (Has(ts, "p", ",") \/ Has(ts, "kw", "ORDER"))
  \/ first = <<"kw", "ALTER">> /\ Has(ts, "kw", "ADD") /\ (Has(ts, "kw", "HOLD") \/ Has(ts, "kw", "TEMPORARY"))
  \/ first \in {<<"kw", "ALTER">>, <<"kw", "CREATE">>, <<"kw", "INSERT">>, <<"kw", "UPDATE">>} /\ Has(ts, "p", ".")
  \/ \E i \in DOMAIN ts : ts[i][1] = "id" /\ ts[i][2] = ""
  \/ CASE a[1] = "select" -> (\E k \in DOMAIN a[3] : a[3][k][1] = "c" /\ a[3][k][3] = "") \/ OddCond(a[5]) \/ Dup(a[4])
       [] a[1] = "delete" -> OddCond(a[3])
       [] a[1] = "update" -> OddCond(a[4]) \/ Dup([ k \in DOMAIN a[3] |-> a[3][k][1] ])
       [] a[1] = "insert" -> Dup(a[3])
       [] a[1] = "create" -> \E k \in DOMAIN a[3] : a[3][k].tmp /\ \E j \in DOMAIN a[3] : ~a[3][j].tmp
       [] OTHER -> FALSE

Texts == CASE Part = 0 -> LitTexts \union NameTexts \union CondTexts
           [] OTHER -> Neighbours(Canonical[Part])
(* an operation carries the meaning of its text *)
Cmd(t, a) == <<"text", "A", t, IF Until(t, 1, "?") > 0 THEN << <<"i", 1>> >> ELSE << >>, a>>
Read(t) == LET ts == TLCEval(Tokens(t)) a == TLCEval(ParseTokens(ts)) IN IF LeftOut(ts, a) THEN << >> ELSE Cmd(t, a)
AllOps == { Read(t) : t \in Texts } \ { << >> }
TheOps(st) == IF HasTable(st.sess["A"].db, "T") THEN AllOps ELSE {}
TheStep(st, op) == Step(st, IF op[1] = "text" THEN <<"sql", op[2], op[5], op[4]>> ELSE op)
(* text outside the grammar changes nothing; a meaning survives respelling *)
TheStepOk(st, op, x) == x.r[1] = "fail" => x.s = st
TheOk(st) == FilesOk(st) /\ SessOk(st)
ASSUME \A k \in DOMAIN Canonical : Parse(Spaced(Canonical[k]))[1] # "bad"
ASSUME \A k \in DOMAIN Canonical :
  Tokens(Join(Canonical[k], [ j \in 1..Len(Canonical[k]) |-> "\n\t " ], 1)) = Tokens(Spaced(Canonical[k]))
============================================================================
