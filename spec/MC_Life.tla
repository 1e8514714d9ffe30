------------------------------ MODULE MC_Life ------------------------------
(* Two sessions on two files: every order of opening, changing, committing, *)
(* closing and dying, up to a depth.                                        *)
EXTENDS MCBase
T1 == Sql("A", <<"create", "T", << ColDef("K", "int2", 2, TRUE), ColDef("S", "str", 8, FALSE) >>, <<"K">>, FALSE>>)
Ins(h, k) == Sql(h, <<"insert", "T", <<"K", "S">>, <<I(k), S("v")>>, FALSE>>)
ThePrelude == << OpenNew, T1, Ins("A", 1), <<"commit", "A">>, <<"close", "A">> >>
TheDepth == EnvInt("DEPTH", 4)
Looks == { <<"hash", "p1.msi">>, <<"disk", "p1.msi">>, <<"disk", "p2.msi">> }
SessOps(h) ==
  { Ins(h, 2), Sql(h, <<"delete", "T", <<"true">>>>), <<"commit", h>>, <<"close", h>>, <<"snap", h>>,
    SqlP(h, <<"insert", "_Streams", <<"Name", "Data">>, <<P(1), P(2)>>, FALSE>>, << S("st"), <<"b", "0102">> >>) }
  \union IF EnvInt("RICH", 0) = 1
         THEN { Sql(h, <<"insert", "T", <<"K">>, <<I(3)>>, TRUE>>),
                Sql(h, <<"create", "W", << Tmp(ColDef("K", "int2", 2, TRUE)) >>, <<"K">>, TRUE>>),
                Sql(h, <<"drop", "T">>) }
         ELSE {}
OpenOps(h) ==
  { <<"open", h, "p1.msi", "rw", "">>, <<"open", h, "p1.msi", "ro", "">>, <<"open", h, "p1.msi", "rw", "p2.msi">>,
    <<"open", h, "p2.msi", "create", "">>, <<"open", h, "p2.msi", "rw", "">> }
  \union IF EnvInt("RICH", 0) = 1
         THEN { <<"open", h, "p1.msi", "create", "">>, <<"open", h, "p2.msi", "create", "p1.msi">>, <<"open", h, "p1.msi", "ro", "p2.msi">> } ELSE {}
TheOps(st) ==
  Looks \union { <<"exit">> }
  \union UNION { IF h \in DOMAIN st.sess THEN SessOps(h) ELSE OpenOps(h) : h \in {"A", "B"} }
===========================================================================
