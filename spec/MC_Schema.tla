------------------------------ MODULE MC_Schema ------------------------------
(* Every order of creating, widening and dropping tables, with and without  *)
(* rows, up to a depth; and every definition that must be refused.          *)
EXTENDS MCBase
ThePrelude == << OpenNew >>
TheDepth == EnvInt("DEPTH", 3)
Ks == ColDef("K", "int2", 2, TRUE)
Defs == { << <<Ks>>, <<"K">> >>,
          << <<ColDef("A", "str", 8, FALSE), Ks>>, <<"K">> >>,
          << <<ColDef("A", "str", 0, FALSE), ColDef("B", "int4", 4, TRUE), Ks>>, <<"K", "A">> >>,
          << <<ColDef("A", "bin", 0, FALSE), Ks>>, <<"K">> >>,
          << <<ColDef("A", "str", -1, TRUE), [Ks EXCEPT !.nn = FALSE]>>, <<"A", "K">> >>,
          << <<[ColDef("A", "str", 255, TRUE) EXCEPT !.loc = TRUE], ColDef("B", "str", 1, FALSE), ColDef("C", "int2", 2, FALSE)>>, <<"C", "B", "A">> >>,
          << <<Ks, Ks>>, <<"K">> >>, << <<Ks, ColDef("A", "int2", 2, FALSE)>>, <<"Z">> >>,
          << <<Ks, ColDef("A", "int2", 2, FALSE)>>, <<"K", "K">> >>,
          << <<Tmp(Ks), ColDef("A", "int2", 2, FALSE)>>, <<"K">> >> }
Tabs == {"T", "U"}
TheOps(st) ==
  { Sql("A", <<"create", t, d[1], d[2], FALSE>>) : t \in Tabs, d \in Defs }
  \union { Sql("A", <<"create", "_Tables", <<Ks>>, <<"K">>, FALSE>>), Sql("A", <<"drop", "_Columns">>), Sql("A", <<"drop", "Nope">>),
           Sql("A", <<"addcol", "Nope", ColDef("Z", "int2", 2, FALSE)>>) }
  \union { Sql("A", <<"drop", t>>) : t \in Tabs }
  \union { Sql("A", <<"addcol", t, c>>) : t \in Tabs, c \in { ColDef("Z", "int2", 2, FALSE), ColDef("B", "str", 20, TRUE), ColDef("Y", "bin", 0, FALSE) } }
  \union { Sql("A", <<"insert", t, <<"K">>, <<I(1)>>, FALSE>>) : t \in Tabs }
  \union { <<"commit", "A">> }
===========================================================================
