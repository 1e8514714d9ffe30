------------------------------- MODULE MC_Rec -------------------------------
(* Records of 0 to 2 fields, every small sequence of calls.                 *)
EXTENDS MsiRec, MCRun
TheDepth == EnvInt("DEPTH", 3)
ThePrelude == << <<"rnew", "A", 2>>, <<"rnew", "B", 0>> >>
Fs == 0..3
Texts == { "", "7", "-12", "x1", "1 ", "-", "2147483648", "007" }
TheOps(st) ==
  { <<"rseti", "A", f, v>> : f \in Fs, v \in {0, -5} }
  \union { <<"rsets", "A", f, t>> : f \in {0, 2, 3}, t \in Texts }
  \union { <<"rload", "A", f, h>> : f \in {0, 1, 3}, h \in {"", "000aff"} }
  \union { <<"rsetm", "A", f, "0102", n>> : f \in {0, 1}, n \in {0, 1, 2, 3} }
  \union { <<"rnofile", "A", 1>>, <<"rclear", "A">>, <<"rseti", "B", 0, 3>>, <<"rseti", "B", 1, 3>> }
  \union { <<o, "A", f>> : o \in {"rgeti", "rgets", "rnull"}, f \in Fs }
  \union { <<"rstream", "A", f, << <<"r", 2>>, <<"t", 0>>, <<"s", 1>>, <<"r", 5>>, <<"k", 1>>, <<"r", 1>>, <<"c", 3>>, <<"e", -1>>, <<"r", 9>> >> >> : f \in Fs }
  \union { <<"rcount", "A">>, <<"rcount", "B">>, <<"rgeti", "B", 0>> }
=============================================================================
