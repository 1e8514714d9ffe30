------------------------------ MODULE MC_Stream ------------------------------
(* Streams, directly and through a binary column.                           *)
EXTENDS MCBase
ThePrelude == << OpenNew,
  Sql("A", <<"create", "T", << ColDef("K", "str", 8, TRUE), ColDef("D", "bin", 0, FALSE), ColDef("A", "int2", 2, FALSE) >>, <<"K">>, FALSE>>) >>
TheDepth == EnvInt("DEPTH", 4)
Bs == { <<"b", "00ff">>, <<"b", "">>, N }
Names == { "T.a", "free" }
TheOps(st) ==
  { SqlP("A", <<"insert", "_Streams", <<"Name", "Data">>, <<P(1), P(2)>>, FALSE>>, <<S(n), b>>) : n \in Names, b \in Bs }
  \union { Sql("A", <<"delete", "_Streams", Cmp("=", C("", "Name"), S(n))>>) : n \in Names }
  \union { SqlP("A", <<"insert", "T", <<"K", "D">>, <<P(1), P(2)>>, FALSE>>, <<S(k), b>>) : k \in {"a", "b"}, b \in Bs }
  \union { SqlP("A", <<"update", "T", << <<"D", P(1)>> >>, c>>, <<b>>) : b \in Bs, c \in { Cmp("=", C("", "K"), S("a")), <<"true">> } }
  \union { SqlP("A", <<"update", "T", << <<"A", I(40000)>>, <<"D", P(1)>> >>, <<"true">>>>, << <<"b", "77">> >>) }
  \union { Sql("A", <<"delete", "T", c>>) : c \in { Cmp("=", C("", "K"), S("a")), <<"true">> } }
  \union { Sql("A", <<"select", FALSE, << C("", "D"), C("", "K") >>, <<"T">>, <<"true">>, << >>>>),
           SqlP("A", <<"insert", "T", <<"K", "D">>, <<P(1), P(2)>>, FALSE>>, << S("- a k e y - w i t h - n o - n a m e -"), <<"b", "01">> >>),
           <<"commit", "A">>, <<"disk", "p1.msi">> }
===========================================================================
