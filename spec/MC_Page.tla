------------------------------ MODULE MC_Page ------------------------------
(* Code pages: what each represents is stored, what it does not makes the   *)
(* commit fail until the code page is another.                              *)
EXTENDS MCBase
ThePrelude == << OpenNew, Sql("A", <<"create", "T", << ColDef("K", "str", 8, TRUE) >>, <<"K">>, FALSE>>), <<"commit", "A">> >>
TheDepth == EnvInt("DEPTH", 4)
TheOps(st) ==
  { <<"disk", "p1.msi">> } \union
  (IF "A" \notin DOMAIN st.sess THEN { <<"open", "A", "p1.msi", "rw", "">>, <<"open", "A", "p1.msi", "create", "">> }
   ELSE { Sql("A", <<"insert", "T", <<"K">>, << S(x) >>, FALSE>>) : x \in {"a", "é", "日本", "Ж", "€", "🙂"} }
        \union { <<"cp", "A", n>> : n \in {0, 65001, 932, 1252, 7} }
        \union { <<"commit", "A">>, <<"close", "A">>, <<"getcp", "A">> })
===========================================================================
