------------------------------- MODULE MC_Sum -------------------------------
EXTENDS MsiSum, MCRun
TheDepth == EnvInt("DEPTH", 4)
ThePrelude == << <<"open", "A", "p", "create">>, <<"sinew", "S", "A", 2>> >>
TheOps(st) ==
  (IF "S" \in DOMAIN st.sis THEN
    { <<"siseti", "S", p, v>> : p \in {1, 14, 2, 20}, v \in {0, 70000} }
    \union { <<"sisets", "S", p, v>> : p \in {2, 18, 1, 17, 0}, v \in {"", "x"} }
    \union { <<"sisett", "S", p, v>> : p \in {12, 3}, v \in {"1", "131000000000000001"} }
    \union { <<"sipersist", "S">>, <<"sifree", "S">>, <<"siprops", "S">>, <<"sisave", "S", "A">> }
    \union { <<o, "S", p>> : o \in {"sitype", "sigeti", "sigets", "sigett"}, p \in {1, 2, 12, 20} }
   ELSE { <<"sinew", "S", "A", 1>>, <<"commit", "A">> }
        \union (IF "p" \in DOMAIN st.files THEN { <<"close", "A">> } ELSE {}))
H == "PropertyId\tValue\ni2\tl255\n_SummaryInformation\tPropertyId\n"
Texts == { H, H \o "2\tx~y|\n", H \o "1\t1252\r\n2\t\r\n12\t2009/04/12 15:46:11\r\n", H \o "12\t1601/01/01 00:00:00", H \o "12\t9999/12/31 23:59:59\n14\t-5\n",
           H \o "12\tyesterday\n", H \o "2\n", H \o "2\ta\tb\n", H \o "14\t7\n17\tx\n", H \o "20\tx\n", H \o "4\ta\n4\tb\n" }
TheOps2(st) ==
  IF "A" \notin DOMAIN st.sess THEN { <<"open", "A", "p", "rw">>, <<"open", "A", "p", "ro">> }
  ELSE TheOps(st) \union { <<"commit", "A">> }
       \union (IF EnvInt("TEXT", 0) = 0 THEN {} ELSE
         { <<"siexport", "A">> } \union { <<"siimport", "A", x>> : x \in Texts })
=============================================================================
