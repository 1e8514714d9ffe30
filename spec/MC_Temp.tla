------------------------------ MODULE MC_Temp ------------------------------
(* Temporary tables and rows: every order of HOLD, FREE, DROP, rows, commit.*)
EXTENDS MCBase
Ks == ColDef("K", "int2", 2, TRUE)
As == ColDef("A", "str", 8, FALSE)
ThePrelude == << OpenNew, Sql("A", <<"create", "T", <<Ks, As>>, <<"K">>, FALSE>>) >>
TheDepth == EnvInt("DEPTH", 5)
Tabs == {"T", "W"}
Ins(t, k, tmp) == Sql("A", <<"insert", t, <<"K", "A">>, <<I(k), S("s")>>, tmp>>)
TheOps(st) ==
  { Sql("A", <<"create", "W", <<Tmp(Ks), Tmp(As)>>, <<"K">>, b>>) : b \in BOOLEAN }
  \union { Sql("A", <<a, t>>) : a \in {"hold", "free"}, t \in Tabs }
  \union { Sql("A", <<"drop", "W">>) }
  \union { Ins("T", 1, TRUE), Ins("T", 1, FALSE), Ins("T", 2, FALSE), Ins("W", 1, FALSE), Ins("W", 2, TRUE) }
  \union { Sql("A", <<"update", t, << <<"A", S("u")>> >>, <<"true">>>>) : t \in Tabs }
  \union { Sql("A", <<"delete", t, Cmp("=", C("", "K"), I(1))>>) : t \in Tabs }
  \union { Sql("A", <<"addcol", "W", ColDef("Z", "int2", 2, FALSE)>>), <<"commit", "A">>, <<"disk", "p1.msi">> }
===========================================================================
