------------------------------ MODULE MC_Merge ------------------------------
(* Two databases that share a table, hold one each, or hold it in different  *)
(* shapes; merged either way after a few changes.                           *)
EXTENDS MCBase
Shared(h) == Sql(h, <<"create", "T", << ColDef("K", "str", 8, FALSE), ColDef("L", "int2", 2, FALSE), ColDef("V", "str", 8, FALSE) >>, <<"K", "L">>, FALSE>>)
Order(h, cols) == Sql(h, <<"create", "Order", cols, <<"K">>, cols[1].tmp>>)
K == ColDef("K", "int2", 2, TRUE)
Shapes == { << K >>, << K, ColDef("D", "bin", 0, FALSE) >>, << K, ColDef("D", "bin", 0, FALSE), ColDef("X", "str", 8, FALSE) >>,
            << K, ColDef("D", "bin", 0, FALSE), ColDef("X", "int2", 2, TRUE) >>, << K, ColDef("D", "str", 0, FALSE) >>,
            << K, [ColDef("D", "str", 9, FALSE) EXCEPT !.loc = TRUE] >>, << K, ColDef("D", "str", 9, TRUE) >>,
            << [K EXCEPT !.t = "int4", !.sz = 4], ColDef("D", "bin", 0, FALSE) >>,
            << Tmp(K), Tmp(ColDef("D", "str", 8, FALSE)) >> }
ThePrelude == << OpenNew, <<"open", "B", "p2.msi", "create", "">>, Shared("A"), Shared("B"),
  Sql("A", <<"insert", "T", <<"L", "V">>, <<I(-3), S("kept")>>, FALSE>>) >>
TheDepth == EnvInt("DEPTH", 3)
Keys == { S("it's"), N, S("`a` = 'b'") }
Rows(h) ==
  { SqlP(h, <<"insert", "T", <<"K", "L", "V">>, <<P(1), I(-3), P(2)>>, v = S("x")>>, <<k, v>>) : k \in Keys, v \in {S("x"), S("kept")} }
  \union { SqlP(h, <<"insert", "T", <<"K", "V">>, <<P(1), P(2)>>, FALSE>>, <<S("it's"), v>>) : v \in {S("x"), N} }
Vals(t) == IF t = "bin" THEN { <<"b", "00ff">>, <<"b", "00fe">>, N } ELSE { S("text"), N }
More(st, h) ==
  IF "Order" \notin DOMAIN st.sess[h].db.tabs THEN {}
  ELSE LET cols == st.sess[h].db.tabs["Order"].cols IN
       IF Len(cols) = 1 THEN { Sql(h, <<"insert", "Order", <<"K">>, <<I(1)>>, FALSE>>) }
       ELSE { SqlP(h, <<"insert", "Order", <<"K", "D">>, <<I(1), P(1)>>, FALSE>>, <<v>>) : v \in Vals(cols[2].t) }
Sum2(db, t) == IF t \in DOMAIN db.tabs THEN Cardinality(db.tabs[t].rows) ELSE 0
Few(st) == \A h \in {"A", "B"} : Sum2(st.sess[h].db, "T") + Sum2(st.sess[h].db, "Order") < EnvInt("ROWS", 2) + IF h = "A" THEN 1 ELSE 0
(* a database with a table of conflicts is left alone: merging into it, or    *)
(* from it, again has no defined outcome                                      *)
TheOps(st) ==
  IF "Errs" \in DOMAIN st.sess["A"].db.tabs THEN {} ELSE
  { <<"merge", "A", "B", "Errs">>, <<"merge", "B", "A", "">> }
  \union (IF "Order" \in DOMAIN st.sess["A"].db.tabs THEN {} ELSE { Order("A", c) : c \in Shapes })
  \union (IF "Order" \in DOMAIN st.sess["B"].db.tabs THEN {} ELSE { Order("B", c) : c \in Shapes })
  \union (IF Few(st) THEN UNION { Rows(h) \union More(st, h) : h \in {"A", "B"} } ELSE {})
=============================================================================
