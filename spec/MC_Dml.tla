------------------------------ MODULE MC_Dml ------------------------------
(* One table, every small INSERT, UPDATE and DELETE from every content.     *)
EXTENDS MCBase
Keys == 1..EnvInt("KEYS", 2)
ThePrelude == << OpenNew,
  Sql("A", <<"create", "T", << ColDef("K", "int2", 2, TRUE), ColDef("A", "int2", 2, FALSE), ColDef("S", "str", 8, TRUE) >>, <<"K">>, FALSE>>) >>
TheDepth == EnvInt("DEPTH", 8)

Conds == { <<"true">>, Cmp("=", C("", "K"), I(1)), Cmp(">=", C("", "K"), I(2)), Cmp("<>", C("", "K"), I(2)),
           Cmp("=", C("", "S"), S("x")), Cmp("<>", C("", "S"), S("x")),
           <<"null", C("", "A")>>, <<"notnull", C("", "A")>>,
           Cmp("<", C("", "A"), C("", "K")),
           <<"or", Cmp("=", C("", "K"), I(1)), Cmp("=", C("", "S"), S("y"))>>,
           <<"and", Cmp(">", C("", "K"), I(1)), <<"null", C("", "A")>>>> }
As == { I(0), I(7), N }
Ss == { S("x"), S("y") }
Ins(k, a, z) == SqlP("A", <<"insert", "T", <<"K", "A", "S">>, <<I(k), P(1), z>>, FALSE>>, <<a>>)
TheOps(st) ==
  { Ins(k, a, z) : k \in Keys, a \in As, z \in Ss }
  \union { Sql("A", <<"insert", "T", <<"S", "K">>, <<S("y"), I(k)>>, FALSE>>) : k \in Keys }
  \union { Sql("A", <<"insert", "T", <<"K", "A">>, <<I(1), I(1)>>, FALSE>>),
           Sql("A", <<"insert", "T", <<"A", "S">>, <<I(1), S("x")>>, FALSE>>),
           Sql("A", <<"insert", "T", <<"K", "A", "S">>, <<I(2), I(32768), S("x")>>, FALSE>>),
           Sql("A", <<"insert", "T", <<"K", "A", "S">>, <<I(-32768), I(1), S("x")>>, FALSE>>),
           Sql("A", <<"insert", "T", <<"K", "Z", "S">>, <<I(2), I(1), S("x")>>, FALSE>>),
           Sql("A", <<"insert", "T", <<"K", "A", "S">>, <<I(2), I(1), S("")>>, FALSE>>) }
  \union { Sql("A", <<"delete", "T", c>>) : c \in Conds }
  \union { SqlP("A", <<"update", "T", << <<"A", P(1)>> >>, c>>, <<a>>) : a \in As, c \in Conds }
  \union { Sql("A", <<"update", "T", << <<"S", z>>, <<"A", I(0)>> >>, c>>) : z \in Ss, c \in Conds }
  \union { Sql("A", <<"update", "T", << <<"A", I(7)>>, <<"S", S("")>> >>, c>>) : c \in Conds }
  \union { Sql("A", <<"update", "T", << <<"S", S("y")>>, <<"A", I(-32768)>> >>, c>>) : c \in Conds }
  \union { Sql("A", <<"update", "T", << <<"K", I(2)>> >>, c>>) : c \in Conds }
===========================================================================
