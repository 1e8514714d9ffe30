------------------------------ MODULE MC_Keys ------------------------------
(* A key of three parts, two of which may be NULL: every insertion order.   *)
EXTENDS MCBase
TheDepth == EnvInt("DEPTH", 2)
ThePrelude == << OpenNew,
  Sql("A", <<"create", "T", << ColDef("A", "int2", 2, TRUE), ColDef("B", "str", 8, FALSE), ColDef("C", "int4", 4, FALSE), ColDef("V", "str", 8, FALSE) >>, <<"A", "B", "C">>, FALSE>>) >>
As == { I(1), I(2) }
Bs == { S("x"), S("X"), N }
Cs == { I(0), I(5), N }
Ins(a, b, c, t) == SqlP("A", <<"insert", "T", <<"A", "B", "C">>, <<P(1), P(2), P(3)>>, t>>, <<a, b, c>>)
TheOps(st) ==
  { Ins(a, b, c, FALSE) : a \in As, b \in Bs, c \in Cs }
  \union { Ins(I(1), b, c, TRUE) : b \in { S("x"), N }, c \in { I(5), N } }
  \union { Sql("A", <<"insert", "T", <<"B", "A">>, <<b, I(1)>>, FALSE>>) : b \in { S("x"), S("") } }
  \union { Sql("A", <<"insert", "T", <<"A", "V">>, <<I(2), S("x")>>, FALSE>>) }
  \union { Sql("A", <<"delete", "T", c>>) : c \in { <<"null", C("", "B")>>, <<"null", C("", "C")>>, Cmp("=", C("", "B"), S("x")) } }
  \union { Sql("A", <<"update", "T", << <<"V", S("v")>> >>, c>>) : c \in { <<"null", C("", "B")>>, Cmp("=", C("", "C"), I(0)), Cmp("<>", C("", "B"), S("X")) } }
===========================================================================
