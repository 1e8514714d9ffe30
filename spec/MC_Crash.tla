------------------------------ MODULE MC_Crash ------------------------------
(* One commit to which something happens, in a session of every kind: what  *)
(* led to it, how it ends, and what the session can still do afterwards.    *)
EXTENDS MCBase
T1 == Sql("A", <<"create", "T", << ColDef("K", "int2", 2, TRUE), ColDef("S", "str", 8, FALSE) >>, <<"K">>, FALSE>>)
Ins(k, v) == Sql("A", <<"insert", "T", <<"K", "S">>, <<I(k), S(v)>>, FALSE>>)
Stream(n, b) == SqlP("A", <<"insert", "_Streams", <<"Name", "Data">>, <<P(1), P(2)>>, FALSE>>, << S(n), <<"b", b>> >>)
Long == "0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef0123456789abcdef"
Long2 == Long \o Long \o Long \o Long
Longer == Long2 \o Long2 \o Long2 \o Long2 \o Long2 \o Long2 \o Long2 \o Long2
ThePrelude == << OpenNew, T1, Ins(1, "one"), Stream("st", Longer), <<"commit", "A">>, <<"close", "A">> >>
TheDepth == EnvInt("DEPTH", 4)
Opens == { <<"open", "A", "p1.msi", "rw", "">>, <<"open", "A", "p1.msi", "rw", "p2.msi">>, <<"open", "A", "p2.msi", "create", "">>, <<"open", "A", "p1.msi", "create", "">> }
Edits == { Ins(2, "two"), Sql("A", <<"delete", "T", <<"true">>>>), Sql("A", <<"drop", "T">>), Stream("big", Longer \o Longer),
           Sql("A", <<"create", "U", << ColDef("K", "str", 8, TRUE) >>, <<"K">>, FALSE>>),
           Sql("A", <<"delete", "_Streams", Cmp("=", C("", "Name"), S("st"))>>) }
Faults == { <<"fcommit", "A", "ok">>, <<"fcommit", "A", "fail">>, <<"kcommit", "A", "new">>, <<"kcommit", "A", "old">> }
After == { Ins(3, "three"), <<"commit", "A">>, <<"close", "A">>, <<"snap", "A">> }
TheOps(st) ==
  IF "A" \notin DOMAIN st.sess
  THEN IF hist = << >> THEN Opens ELSE {}      \* afterwards only other processes look at the files
  ELSE Edits \union Faults \union After
===========================================================================
