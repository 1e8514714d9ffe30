------------------------------- MODULE MC_Mst -------------------------------
(* Transforms, over a table with one key, one with two, an empty one, new    *)
(* ones; some tables as read from the file.                                  *)
EXTENDS MCBase
ThePrelude == << OpenNew,
  Sql("A", <<"create", "T", << ColDef("K", "str", 8, TRUE), ColDef("A", "int2", 2, FALSE), ColDef("D", "bin", 0, FALSE), ColDef("V", "str", 8, FALSE) >>, <<"K">>, FALSE>>),
  SqlP("A", <<"insert", "T", <<"K", "A", "D", "V">>, <<P(1), I(-3), P(2), S("v")>>, FALSE>>, <<S("k"), <<"b", "00ff">>>>),
  Sql("A", <<"create", "Two", << ColDef("K", "int2", 2, FALSE), ColDef("L", "int4", 4, TRUE), ColDef("A", "int4", 4, FALSE) >>, <<"K", "L">>, FALSE>>),
  Sql("A", <<"insert", "Two", <<"K", "L", "A">>, <<I(1), I(-70000), I(5)>>, FALSE>>),
  SqlP("A", <<"insert", "Two", <<"K", "L", "A">>, <<P(1), I(-70000), I(6)>>, FALSE>>, <<N>>),
  Sql("A", <<"create", "Empty", << ColDef("K", "str", 8, TRUE) >>, <<"K">>, FALSE>>) >>
TheDepth == EnvInt("DEPTH", 2)
Rec(st, t, what, which, v) == << t, st.sess["A"].db.tabs[t].cols, Cardinality(KeyCols(st.sess["A"].db.tabs[t].cols)), what, which, v >>
Apply(c) == <<"apply", "A", << >>, << >>, c, << >> >>
B(x) == <<"b", x>>
RowsT == { << S("k"), I(7), B("01"), S("w") >>, << S("k"), N, N, N >>, << S("new"), I(-32767), B(""), S("k") >>, << S("j"), N, N, S("v") >> }
RowsTwo == { << N, I(-70000), I(2147483647) >>, << I(1), I(-70000), N >>, << I(1), I(0), I(-1) >>, << I(-2), I(5), I(0) >> }
Short(v, n) == SubSeq(v, 1, n)
Has(st, t, v) == \E r \in st.sess["A"].db.tabs[t].rows : \A k \in KeyCols(st.sess["A"].db.tabs[t].cols) : r.v[k] = v[k]
Full(st, t, v) == v \o [ k \in 1..(Len(st.sess["A"].db.tabs[t].cols) - Len(v)) |-> N ]
Here(st, t) == t \in DOMAIN st.sess["A"].db.tabs
One(st) ==
  (IF Here(st, "T") THEN
     { Rec(st, "T", "add", << >>, Full(st, "T", v)) : v \in RowsT } \union { Rec(st, "T", "add", << >>, << S("k"), I(1) >>) }
     \union { Rec(st, "T", "set", w, Full(st, "T", v)) : w \in { << 2 >>, << 3 >>, << 4 >>, << 2, 4 >>, << 2, 3, 4 >> }, v \in { x \in RowsT : Has(st, "T", x) } }
     \union { Rec(st, "T", "del", << >>, Full(st, "T", v)) : v \in RowsT } ELSE {})
  \union (IF Here(st, "Two") THEN
     { Rec(st, "Two", "add", << >>, Full(st, "Two", v)) : v \in RowsTwo }
     \union { Rec(st, "Two", "set", << 3 >>, Full(st, "Two", v)) : v \in { x \in RowsTwo : Has(st, "Two", x) } }
     \union { Rec(st, "Two", "del", << >>, Full(st, "Two", v)) : v \in RowsTwo } ELSE {})
  \union (IF Here(st, "Empty") THEN { Rec(st, "Empty", "add", << >>, Full(st, "Empty", << S("e") >>)) } ELSE {})
NewT == << ColDef("K", "str", 8, TRUE), [ColDef("L", "str", 0, FALSE) EXCEPT !.loc = TRUE], ColDef("N", "int4", 4, FALSE), ColDef("D", "bin", 0, FALSE) >>
NewRow(k) == << "Name_is.new", NewT, 1, "add", << >>, << S(k), S("k"), I(-5), B("0a0b") >> >>
News(st) ==
  IF Here(st, "Name_is.new") THEN {}
  ELSE { <<"apply", "A", << << "Name_is.new", NewT, 1 >> >>, << >>, << >>, << >> >>,
         <<"apply", "A", << << "Name_is.new", NewT, 1 >>, << "n2", << ColDef("P", "int2", 2, TRUE), ColDef("Q", "str", 9, TRUE) >>, 2 >> >>, << >>, << NewRow("k"), NewRow("z") >>, << >> >> }
Adds(st) ==
  { <<"apply", "A", << >>, << << t, ColDef("X", "int4", 4, FALSE), Len(st.sess["A"].db.tabs[t].cols) + 1 >>,
                              << t, ColDef("Y", "str", 4, FALSE), Len(st.sess["A"].db.tabs[t].cols) + 2 >> >>, << >>, << >> >>
      : t \in { u \in {"T", "Two", "Empty"} : Here(st, u) /\ \A k \in DOMAIN st.sess["A"].db.tabs[u].cols : st.sess["A"].db.tabs[u].cols[k].n # "X" } }
Drops(st) == { <<"apply", "A", << >>, << >>, << >>, << << t, Len(st.sess["A"].db.tabs[t].cols) >> >> >> : t \in { u \in {"T", "Empty", "Name_is.new"} : Here(st, u) } }
TheOps(st) ==
  { Apply(<< c >>) : c \in One(st) }
  \union { Apply(<< Rec(st, "Two", "del", << >>, << I(1), I(-70000), N >>), Rec(st, "Two", "add", << >>, Full(st, "Two", << I(1), I(-70000), I(9) >>)), Rec(st, "T", "add", << >>, Full(st, "T", << S("q"), N, B("ff"), N >>)) >>) : x \in { y \in {1} : Here(st, "T") } }
  \union News(st) \union Adds(st) \union Drops(st)
  \union { <<"badmst", "A", k>> : k \in {"missing", "text", "class", "database", "nopool"} }
  \union { <<"commit", "A">> }
  \union { SqlP("A", <<"insert", "T", <<"K">>, <<P(1)>>, TRUE>>, <<S("j")>>) : x \in { y \in {1} : Here(st, "T") } }
=============================================================================
