------------------------------- MODULE MC_Stg -------------------------------
(* One database with storages in it: every order of a few changes, commits  *)
(* and reopenings.                                                          *)
EXTENDS MsiStg, MCRun
TheDepth == EnvInt("DEPTH", 3)
Zero == "00000000000000000000000000000000"
ThePrelude == <<
  <<"cfile", "f", << <<"", "82100c0000000000c000000000000046">>, <<"a", "313233">>, <<"b", "">>, <<"e/", Zero>> >> >>,
  <<"cfile", "g", << <<"", Zero>>, <<"d/", "84100c0000000000c000000000000046">>, <<"d/x", "ff00">>, <<"d/y/", Zero>>, <<"d/y/e/", Zero>>, <<"d/y/a", "01">>, <<"z", "7a">> >> >>,
  <<"cfile", "h", << <<"", Zero>> >> >>,
  <<"raw", "r">>,
  <<"open", "A", "p", "create">>, <<"ins", "A", "one", "f">>, <<"other", "A", "s1">>, <<"commit", "A">> >>
Long == "abcdefghijabcdefghijabcdefghij12"
TheOps(st) ==
  LET H == DOMAIN st.sess IN
  { <<"ins", "A", n, f>> : n \in IF "A" \in H THEN {"one", "two words"} ELSE {}, f \in {"f", "g", "h"} }
  \union { <<"ins", "A", n, f>> : n \in IF "A" \in H THEN {"two words"} ELSE {}, f \in {"r", "null"} }
  \union (IF "A" \in H THEN { <<"ins", "A", "", "f">>, <<"ins", "A", Long, "f">>, <<"ins", "A", SubSeq(Long, 1, 31), "h">>,
                              <<"upd", "A", "one", "g">>, <<"upd", "A", "one", "r">>, <<"upd", "A", "one", "null">>, <<"upd", "A", "nil", "g">>,
                              <<"ren", "A", "one", "x">>, <<"ren", "A", "nil", "x">>,
                              <<"del", "A", "one">>, <<"del", "A", "nil">>, <<"clear", "A">>, <<"other", "A", "s2">>, <<"commit", "A">>, <<"close", "A">>,
                              <<"names", "A">>, <<"find", "A", "one">>, <<"find", "A", "nil">>, <<"streams", "A">> }
          ELSE { <<"open", "A", "p", m>> : m \in {"rw", "ro"} })
  \union { <<"disk", "p">> }
(* what a session that may not write does to its storages is left open *)
Left(st, op) == op[1] \in {"del", "clear", "other"} /\ st.sess["A"].ro
Sane(st) == { op \in TheOps(st) : ~Left(st, op) }
=============================================================================
