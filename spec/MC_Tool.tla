------------------------------ MODULE MC_Tool ------------------------------
(* Packages made and changed by every step msibuild knows, alone and after   *)
(* others, and what the other tools show of them.                            *)
EXTENDS MsiTool, MCRun
TheDepth == EnvInt("DEPTH", 2)
ThePrelude == << <<"build", "p", << <<"s", <<"Name">>>> >> >> >>
Files == << <<"B", "f1", "00ff0d0a">>, <<"B", "f2", "">>, <<"B", "f 3", "41">> >>
A == "K\tA\r\ns8\tI2\r\nA\tK\r\n"
B == "K\tD\r\ns8\tV0\r\nB\tK\r\n"
SumText(ls) == "PropertyId\tValue\ni2\tl255\n_SummaryInformation\tPropertyId\n" \o ls
I(text) == <<"i", <<text>>, Files>>
Q(sql) == <<"q", <<sql>> >>
Good == {
  <<"s", <<"T">> >>, <<"s", <<"T", "Some One">> >>, <<"s", <<"T", "A", "x64;1033">> >>, <<"s", <<"", "A", "x64;1033", "{00000000-0000-0000-0000-00000000000A}">> >>,
  I(A \o "x\t1\r\ny\t\r\n"), I(A), I(B \o "x\tf1\r\ny\tf2\r\nz\t\r\n"), <<"i", <<A \o "~^|'\"\t-7\r\n", B \o "n n\tf 3\r\n">>, Files>>,
  I(SumText("2\tNew ~title\n14\t500\n12\t2013/02/26 05:06:07\n15\t-3\n")),
  Q("CREATE TABLE `A` (`K` CHAR(8) NOT NULL, `A` SHORT PRIMARY KEY `K`)"),
  Q("INSERT INTO `A` (`K`, `A`) VALUES ('a;b', 1);INSERT INTO `A` (`K`) VALUES ('insert')"),
  Q(" insert into A (K,A)values('x`y',2)INSERT INTO `A` (`K`, `A`) VALUES ('c\td', -3) ; ;\n"),
  <<"q", <<"UPDATE A SET A = 9 WHERE K = 'x'", "", "DELETE FROM A WHERE K = 'y';">>>>,
  Q("DROP TABLE A"), Q("SELECT * FROM A"),
  <<"a", "Strm", "00010a0d">>, <<"a", "Strm", "ffff">>, <<"a", "B.x", "02">> }
Bad == { Q("CREATE TABLE `Z` (`K` INT NOT NULL PRIMARY KEY `K`); NONSENSE"), Q("INSERT INTO `A` (`K`) VALUES ('lone) "), Q("INSERT INTO `A` (`K`, `A`) VALUES ('x', 70000)"),
  <<"a", "Strm", "missing">>, <<"z">>, I("K\n"), I(B \o "x\tgone\r\n"), I(SumText("12\tyesterday\n")), I(A \o "x\t1\r\nx\t2\r\n") }
Looks == {"tables", "streams", "suminfo", "disk"}
TheOps(t) ==
  { <<"build", "p", <<g>> >> : g \in Good \union Bad }
  \union { <<"build", "q", <<b>> >> : b \in { I(A \o "y\t2\r\nx\t1\r\n"), I(B \o "x\tf2\r\n"), I("K\n"), <<"s", <<"Name">>>> } }
  \union { <<"build", "p", <<g, b>> >> : g \in { I(A \o "x\t1\r\n"), <<"s", <<"Lost">> >> }, b \in Bad }
  \union { <<"build", "r", << >> >> }
  \union { <<o, p>> : o \in Looks, p \in {"p", "q"} }
  \union { <<"stream", "p", n>> : n \in {"Strm", "B.x", "none"} }
  \union { <<"export", "p", n>> : n \in {"A", "B", "_SummaryInformation", "_ForceCodepage", "Gone"} }
  \union { <<"dump", "p", m>> : m \in {"", "s", "ts"} }
  \union { <<"diff", "p", "q">>, <<"diff", "q", "p">>, <<"diff", "p", "p">> }
  \union { <<"copysql", "p", n, "q">> : n \in { m \in {"A"} \intersect DOMAIN (IF "p" \in DOMAIN t.files THEN t.files["p"].tabs ELSE EmptyFn) : SqlCan(t.files["p"].tabs[m]) } }
  \union { <<"copysql", "p", "Gone", "q">> }
=============================================================================
