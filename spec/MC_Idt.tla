------------------------------- MODULE MC_Idt -------------------------------
(* Text archives: every combination of a few heads and rows, into a database *)
(* with and without the table, and exports of the outcome.                   *)
EXTENDS MCBase
Wide == EnvInt("WIDE", 0) = 1
ThePrelude == << OpenNew,
  Sql("A", <<"create", "Key", << ColDef("K", "str", 8, TRUE), ColDef("A", "int2", 2, FALSE) >>, <<"K">>, FALSE>>),
  Sql("A", <<"insert", "Key", <<"K", "A">>, <<S("a\tb"), I(-3)>>, FALSE>>),
  SqlP("A", <<"insert", "Key", <<"K">>, <<P(1)>>, TRUE>>, <<S("temp\r\n'")>>),
  Sql("A", <<"create", "B", << ColDef("K", "str", 8, TRUE), ColDef("D", "bin", 0, FALSE) >>, <<"K">>, FALSE>>),
  <<"put", "B", "f1", "00ff">>, <<"put", "B", "f2", "">> >>
TheDepth == EnvInt("DEPTH", 1)
Heads == { <<"K\tA", "s8\tI2", "Key\tK">>, <<"K\tA", "s8\tI2", "New\tK">>, <<"A\tK", "I2\ts8", "New\tK">>,
           <<"A\tK", "I4\tl0", "Key\tK">>, <<"K\tA", "s8\tI2", "New\tK\tA">>, <<"K\tA", "S8\tL255", "New\tA">>,
           <<"K\tA", "s8\tI2", "New">>, <<"K\tA", "s8\tI2", "New\tX">>, <<"K\tA", "s8", "New\tK">>,
           <<"K\tA", "s8\ti3", "New\tK">>, <<"K\tA", "s8\tx2", "New\tK">>, <<"K\tA", "s\tI2", "New\tK">>,
           <<"K\tA", "s8\t", "New\tK">>, <<"K\tK", "s8\tI2", "New\tK">>, <<"K\tD", "s8\tV0", "B\tK">>,
           <<"K\tD", "s8\tV0", "New\tK">>, <<"K", "s8", "Key\tK">>, <<"K", "S8", "New\tK">>, <<"K\tB", "s8\tI2", "Key\tK">> }
Bodies == { << >>, << "x\t1" >>, << "1\t2", "2\t1" >>, << "x\t" >>, << "\t7" >>, << "\t" >>, << "x" >>, << "x\t1\t2" >>,
            << "x\t1", "x\t2" >>, << "p~q^|\t-32767" >>, << "x\t40000" >>, << "x\t1z" >>, << "x\tf1", "y\tf2", "z\t" >>,
            << "x\tf1", "y\tnone" >>, << "1", "2" >>, << "\t", "\t" >>, << "1\t99999999999" >>, <<"", "x\t5", "">> }
RECURSIVE Lines(_, _)
Lines(ls, nl) == IF ls = << >> THEN "" ELSE Head(ls) \o nl \o Lines(Tail(ls), nl)
Texts == { Lines(h \o b, "\r\n") : h \in Heads, b \in Bodies }
         \union { Lines(h \o <<"x\t1">>, "\n") : h \in Heads } \union { Lines(h, "\n") \o "x\t1" : h \in Heads }
         \union { "", "\n", "K\n", "K\ns8\n", "K\tA\ns8\tI2\nNew", "K\tA\ns8\tI2\nNew\tK" }
TheOps(st) ==
  (IF st.sess["A"].db = RunAll(EmptySys, ThePrelude).sess["A"].db \/ Wide THEN { <<"import", "A", x>> : x \in Texts } ELSE {})
  \union { <<"export", "A", t>> : t \in {"Key", "New", "B", "Gone"} }
  \union { Sql("A", <<"create", "New", << ColDef("A", "int4", 4, FALSE), ColDef("K", "str", 0, TRUE) >>, <<"K">>, FALSE>>) }
=============================================================================
