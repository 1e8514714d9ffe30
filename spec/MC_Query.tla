------------------------------ MODULE MC_Query ------------------------------
(* Two tables, every subset of a few rows in each, every small SELECT.      *)
EXTENDS MCBase
ThePrelude == << OpenNew,
  Sql("A", <<"create", "T", << ColDef("K", "int2", 2, TRUE), ColDef("A", "int4", 4, FALSE), ColDef("S", "str", 8, FALSE) >>, <<"K">>, FALSE>>),
  Sql("A", <<"create", "U", << ColDef("N", "str", 8, TRUE), ColDef("R", "int2", 2, FALSE) >>, <<"N">>, FALSE>>) >>
TheDepth == EnvInt("DEPTH", 8)
TRows == { <<I(1), I(5), S("x")>>, <<I(2), N, S("y")>>, <<I(3), I(5), N>>, <<I(-4), I(70000), S("x")>> }
URows == { <<S("x"), I(1)>>, <<S("y"), N>>, <<S("z"), I(3)>> }
InsT(v) == SqlP("A", <<"insert", "T", <<"K", "A", "S">>, <<P(1), P(2), P(3)>>, FALSE>>, v)
InsU(v) == SqlP("A", <<"insert", "U", <<"N", "R">>, <<P(1), P(2)>>, FALSE>>, v)
TC == { Cmp(op, C("", "K"), I(2)) : op \in {"=", "<>", "<", "<=", ">", ">="} }
      \union { Cmp(op, C("", "A"), I(5)) : op \in {"=", "<>", "<", ">"} }
      \union { Cmp("=", C("", "S"), S("x")), Cmp("<>", C("", "S"), S("x")), Cmp("=", C("", "S"), S("")),
               <<"null", C("", "A")>>, <<"notnull", C("", "A")>>, <<"null", C("", "S")>>, <<"notnull", C("", "S")>> }
TC2 == { <<"or", <<"and", Cmp("=", C("", "K"), I(1)), Cmp("=", C("", "S"), S("x"))>>, <<"null", C("", "S")>>>>,
         <<"and", <<"or", Cmp(">", C("", "K"), I(1)), Cmp("=", C("", "S"), S("x"))>>, <<"notnull", C("", "A")>>>>,
         <<"and", Cmp(">", C("", "K"), I(0)), <<"or", Cmp("=", C("", "S"), S("y")), Cmp("=", C("", "A"), I(5))>>>> }
Sel(d, cs, ts, c, o) == Sql("A", <<"select", d, cs, ts, c, o>>)
Star == << <<"*">> >>
Singles == { Sel(FALSE, Star, <<"T">>, c, << >>) : c \in TC \union TC2 }
  \union { Sel(d, cs, <<"T">>, <<"true">>, o) : d \in BOOLEAN,
             cs \in { Star, << C("", "S") >>, << C("", "A"), C("", "S") >>, << C("", "A") >>, << C("T", "S"), C("", "K"), C("", "S") >> },
             o \in { << >>, << C("", "A") >>, << C("", "K") >>, << C("", "A"), C("", "K") >>, << C("", "S"), C("", "K") >> } }
JC == { <<"true">>,
        Cmp("=", C("T", "S"), C("U", "N")), Cmp("=", C("U", "R"), C("T", "K")), Cmp("<", C("T", "K"), C("U", "R")),
        <<"and", Cmp("=", C("T", "S"), C("U", "N")), Cmp(">", C("T", "K"), I(1))>>,
        <<"or", Cmp("=", C("T", "K"), I(2)), Cmp("=", C("U", "N"), S("z"))>>,
        <<"and", Cmp("<>", C("T", "K"), C("U", "R")), <<"notnull", C("T", "A")>>>>,
        <<"and", <<"null", C("U", "R")>>, <<"or", Cmp("=", C("T", "A"), I(5)), Cmp("=", C("U", "N"), C("T", "S"))>>>> }
Joins == { Sel(d, cs, ts, c, o) : d \in BOOLEAN, ts \in { <<"T", "U">>, <<"U", "T">> },
             cs \in { Star, << C("U", "N"), C("T", "K") >>, << C("T", "A") >> },
             c \in JC, o \in { << >>, << C("U", "R"), C("T", "K") >> } }
  \union { Sel(FALSE, << C("", "Name") >>, <<"_Tables">>, <<"true">>, << >>),
           Sel(FALSE, << C("", "Number"), C("", "Name") >>, <<"_Columns">>, Cmp("=", C("", "Table"), S("U")), << C("", "Number") >>),
           Sel(FALSE, << C("T", "K"), C("_Tables", "Name") >>, <<"T", "_Tables">>, <<"true">>, << >>),
           Sel(FALSE, << C("", "Zz") >>, <<"T">>, <<"true">>, << >>),
           Sel(FALSE, Star, <<"Nope">>, <<"true">>, << >>),
           Sel(FALSE, Star, <<"T">>, Cmp("=", C("", "Zz"), I(1)), << >>) }
(* rows go in order, so every content is reached once *)
TheOps(st) ==
  LET db == st.sess["A"].db IN
  { InsT(v) : v \in TRows } \union { InsU(v) : v \in URows } \union Singles \union Joins
===========================================================================
