------------------------------- MODULE MC_Heat -------------------------------
(* Every list of up to DEPTH - 1 lines over a few paths, in every order.     *)
EXTENDS WixHeat, MCRun
TheDepth == EnvInt("DEPTH", 3)
ThePart == EnvInt("PART", 1)
P(q) == << "t" >> \o q
Paths == IF ThePart = 1 THEN { P(<< "f" >>), P(<< "a", "f" >>), P(<< "a", "g" >>), P(<< "b", "f" >>), P(<< "a", "b", "f" >>), P(<< "ab" >>), << "u", "f" >> }
         ELSE { P(<< "a&b", "<f>" >>), P(<< "a$b", "x$y" >>), P(<< "it's \"q\"", "é €" >>), P(<< "$$", "$$$" >>), P(<< "--", "-->" >>), P(<< "]]>", "&amp;" >>) }
Dirs == IF ThePart = 1 THEN { << "t" >>, P(<< "a" >>), P(<< "c", "d" >>) } ELSE { P(<< "a&b" >>) }
ThePrelude == << >>
Heats == { << "heat", p, e, o >> : p \in {"t/", "t"} \union (IF ThePart = 1 THEN {"", "t/a/"} ELSE {}), e \in { << >>, << "a" >> } \union (IF ThePart = 1 THEN { << "a/", "b/f" >> } ELSE {}), o \in { << "group" >>, << >>, << "group", "var", "ref", "win64" >> } }
(* excludes are matched behind the prefix, which may leave a slash there *)
Ok(h) == Len(h[3]) = 0 \/ h[2] # "t"
TheOps(x) ==
  (IF Len(x) = 0 THEN {} ELSE { h \in Heats : Ok(h) })
  \union (IF Len(hist) + 1 >= TheDepth THEN {}
          ELSE { << "file", p, Join(p) >> : p \in Paths } \union { << "dir", p, "" >> : p \in Dirs })
=============================================================================
