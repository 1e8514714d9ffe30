------------------------------ MODULE MC_Range ------------------------------
(* Keys of two parts and the edges of every integer type.                   *)
EXTENDS MCBase
ThePrelude == << OpenNew,
  Sql("A", <<"create", "T", << ColDef("V", "int4", 4, FALSE), ColDef("K", "str", 8, TRUE), ColDef("L", "int2", 2, TRUE), ColDef("W", "int2", 2, TRUE) >>, <<"K", "L">>, FALSE>>) >>
TheDepth == EnvInt("DEPTH", 3)
Edge2 == { I(0), I(32767), I(-32767), I(32768), I(-32768), I(65535), I(65536), N }
Edge4 == { I(0), I(2147483647), I(-2147483647), I(32768), N }
Row(v, k, l, w) == SqlP("A", <<"insert", "T", <<"V", "K", "L", "W">>, <<P(1), P(2), P(3), P(4)>>, FALSE>>, <<v, k, l, w>>)
TheOps(st) ==
  { Row(v, S("a"), I(1), I(1)) : v \in Edge4 }
  \union { Row(N, S("a"), l, I(1)) : l \in Edge2 }
  \union { Row(N, k, I(1), w) : k \in { S("a"), S("b"), N }, w \in Edge2 }
  \union { SqlP("A", <<"update", "T", << <<"W", P(1)>> >>, c>>, <<w>>) : w \in Edge2,
             c \in { <<"true">>, Cmp("=", C("", "K"), S("a")), Cmp("=", C("", "L"), I(2)) } }
  \union { SqlP("A", <<"update", "T", << <<"V", P(1)>>, <<"W", P(2)>> >>, <<"true">>>>, <<v, w>>) : v \in Edge4, w \in { I(3), I(40000) } }
  \union { Sql("A", <<"update", "T", << <<"L", I(5)>> >>, <<"true">>>>), Sql("A", <<"delete", "T", Cmp("=", C("", "L"), I(1))>>) }
===========================================================================
