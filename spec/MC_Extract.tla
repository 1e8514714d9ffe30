----------------------------- MODULE MC_Extract -----------------------------
(* Small packages: what directories are called, how they hang together and  *)
(* where the cabinets are.                                                   *)
EXTENDS MsiExtract, MCRun
TheDepth == EnvInt("DEPTH", 3)
Wide == EnvInt("WIDE", 0) = 1
All4 == <<"Directory", "Component", "File", "Media">>
E1 == <<"f1", "6f6e65", 3>>
E2 == <<"f2", "", 0>>
E3 == <<"f3", "00ff", 2>>
Pkg(tabs, dirs, comps, files, media, streams, exts) == [tabs |-> tabs, dirs |-> dirs, comps |-> comps, files |-> files, media |-> media, streams |-> streams, exts |-> exts]
Comps == << <<"C1", "A">>, <<"C2", "B">> >>
Names3 == << <<"f1", "C1", "one.txt">>, <<"f2", "C2", "TWO~1.TXT|two two.txt">>, <<"f3", "C2", "thr'ee">> >>
M1 == << <<1, "#m1.cab">> >>
S1 == << <<"m1.cab", <<E1, E2, E3>>>> >>
Dirs(da, pb, db) == << <<"TARGETDIR", "", "SourceDir">>, <<"A", "TARGETDIR", da>>, <<"B", pb, db>> >>
Defaults == {"D", ".", "d~1|Long Dir", "T:S", "t|T x:s|S", ".:S", "SourceDir", "..", "a|b|c", "D:", ":S"}
Base == Pkg(All4, Dirs("D", "A", "E"), Comps, Names3, M1, S1, << >>)
DirPkgs ==
  { [Base EXCEPT !.dirs = Dirs(da, pb, db)] : da \in Defaults, pb \in {"A", "TARGETDIR"}, db \in (IF Wide THEN Defaults ELSE {"E", ".", "e|..", "x:y"}) }
  \union { [Base EXCEPT !.dirs = Dirs(da, "P", "E") \o << <<"P", "A", "q">> >>] : da \in Defaults }
  \union { [Base EXCEPT !.dirs = d] : d \in {
      Dirs("D", "ProgramFilesFolder", "E") \o << <<"ProgramFilesFolder", "TARGETDIR", "x">> >>,
      Dirs("D", "ProgramFilesFolder", "E") \o << <<"ProgramFilesFolder", "TARGETDIR", ".">> >>,
      Dirs("D", "B", "E"), Dirs("D", "Gone", "E"), Dirs("D", "P", "E") \o << <<"P", "B", "q">> >>, Dirs("D", "P", "E") \o << <<"P", "P", "q">> >>,
      << <<"TARGETDIR", "TARGETDIR", "SourceDir">>, <<"A", "TARGETDIR", "D">>, <<"B", "A", "E">> >>, << <<"A", "", "D">>, <<"B", "A", "E">> >>,
      << <<"A", "", "D">> >>, << >>, << <<"A", "B", "D">>, <<"B", "A", "E">> >> } }
CabPkgs ==
  { [Base EXCEPT !.media = m[1], !.streams = m[2], !.exts = m[3]] : m \in {
      << M1, << >>, << >> >>, << M1, << <<"other", <<E1>>>> >>, << >> >>, << << >>, S1, << >> >>, << << <<1, "">> >>, S1, << >> >>,
      << << <<1, "abc.cab">> >>, << >>, << <<"abc.cab", <<E1, E2, E3>>>> >> >>, << << <<1, "Abc.CAB">> >>, << >>, << <<"aBC.cab", <<E1, E2, E3>>>> >> >>,
      << << <<1, "abc.cab">> >>, << >>, << >> >>, << << <<1, "abc.cab">> >>, << >>, << <<"abc.cabx", <<E1>>>> >> >>,
      << << <<1, "#m1.cab">>, <<2, "ext.cab">> >>, << <<"m1.cab", <<E3, E1>>>> >>, << <<"EXT.cab", <<E2>>>> >> >>,
      << << <<1, "">>, <<2, "#m2">> >>, << <<"m2", <<E2>>>>, <<"m1.cab", <<E1>>>> >>, << >> >>,
      << << <<1, "#m1.cab">>, <<2, "#gone">> >>, S1, << >> >>, << M1, << <<"m1.cab", <<E1, <<"stray", "41", 1>>>>>> >>, << >> >>,
      << << <<1, "#m1.cab">>, <<2, "#m2">> >>, << <<"m1.cab", <<E1>>>>, <<"m2", << <<"f1", "6e6577", 3>>, E2>>>> >>, << >> >> } }
RowPkgs ==
  { [Base EXCEPT !.files = f] : f \in { << >>, << <<"f1", "C9", "one">> >>, << <<"f1", "C1", "">> >>, Names3 \o << <<"f4", "C1", "same|one.txt">> >>,
                                        << <<"f1", "C1", "..">>, <<"f2", "C2", "x|y|z">> >> } \ { << <<"f1", "C1", "">> >>, << <<"f1", "C1", "..">>, <<"f2", "C2", "x|y|z">> >> } }
  \union { [Base EXCEPT !.comps = c] : c \in { << >>, << <<"C1", "A">>, <<"C2", "Gone">> >>, << <<"C1", "A">>, <<"C2", "B">>, <<"C3", "TARGETDIR">>, <<"C4", "Gone">> >>, << <<"C1", "TARGETDIR">>, <<"C2", "TARGETDIR">> >> } }
  \union { [Base EXCEPT !.tabs = SelectSeq(All4, LAMBDA y : y # n)] : n \in SetFrom(All4) }
Pkgs == DirPkgs \union CabPkgs \union RowPkgs
ThePrelude == << <<"pack", "q", Base>> >>
TheOps(x) ==
  IF "p" \notin DOMAIN x.pkgs THEN { <<"pack", "p", k>> : k \in Pkgs } \union { <<"list", <<"p">>>>, <<"extract", <<"p">>, "o">> }
  ELSE { <<"list", <<"p">>>>, <<"list", <<"q", "p">>>>, <<"diffl", "l", "p", "q">>, <<"diffl", "L", "q", "p">> }
       \union (IF DOMAIN x.outs = {} THEN { <<"extract", <<"p">>, "o">>, <<"extract", <<"q", "p">>, "o">> } ELSE { <<"tree", "o">> })
=============================================================================
