---------------------------- MODULE MsiExtract ----------------------------
(* msiextract, and the file lists msidiff makes with it.                     *)
(*   x.pkgs : path -> package, a record of the rows that matter              *)
(*     tabs  : the tables it has                                             *)
(*     dirs  : <<id, parent or "", default>>     comps : <<id, directory>>   *)
(*     files : <<key, component, name>>          media : <<disk, cabinet>>   *)
(*     streams, exts : <<name, <<<<key, contents, size>>, ...>> >>     *)
(*       (cabinets inside the package and beside it)                         *)
(*   x.outs : output directory -> path -> <<contents, size>>           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

ExtractEmpty == [pkgs |-> <<>>, outs |-> <<>>]
XRes(s, r) == [s |-> s, r |-> r]
XFail == <<"fail">>
At(q, i) == SubSeq(q, i, i)
Put1(f, k, v) == [ x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x] ]
RECURSIVE Find(_, _, _)
Find(q, c, i) == IF i > Len(q) THEN 0 ELSE IF At(q, i) = c THEN i ELSE Find(q, c, i + 1)
Before(q, c) == LET i == Find(q, c, 1) IN IF i = 0 THEN q ELSE SubSeq(q, 1, i - 1)
After(q, c) == LET i == Find(q, c, 1) IN IF i = 0 THEN q ELSE SubSeq(q, i + 1, Len(q))
SetFrom(q) == { q[i] : i \in DOMAIN q }
By(rows, id) == CHOOSE r \in SetFrom(rows) : r[1] = id
HasRow(rows, id) == \E r \in SetFrom(rows) : r[1] = id

(* target:source, each short|long *)
LongName(q) == After(q, "|")
DirName(d) ==
  LET n == LongName(Before(d[3], ":")) IN
  IF d[1] = "ProgramFilesFolder" THEN "Program Files" ELSE IF n \in {".", "SourceDir"} THEN "" ELSE n

(* the names from the root down; "cycle" when there is no root *)
RECURSIVE Chain(_, _, _)
Chain(dirs, id, n) ==
  IF n > Len(dirs) THEN << "cycle" >>
  ELSE LET d == By(dirs, id) IN
       (IF d[2] = id \/ ~HasRow(dirs, d[2]) THEN << >> ELSE Chain(dirs, d[2], n + 1)) \o (IF DirName(d) = "" THEN << >> ELSE << DirName(d) >>)
Cyclic(dirs, id) ==
  LET step(s) == s \union { d[2] : d \in { e \in SetFrom(dirs) : e[1] \in s /\ e[2] # e[1] } }
      RECURSIVE up(_, _)
      up(s, n) == IF n = 0 THEN s ELSE up(step(s), n - 1)
      above(i) == up({ d[2] : d \in { e \in SetFrom(dirs) : e[1] = i /\ e[2] # i } }, Len(dirs))
  IN  \E i \in {id} \union above(id) : i \in above(i)
Slashed(names) == FoldLeft(LAMBDA a, n : IF a = "" THEN n ELSE a \o "/" \o n, "", names)

(* all components must have a directory, and all files a component *)
Sound(p) ==
  /\ {"Directory", "Component", "File"} \subseteq SetFrom(p.tabs)
  /\ \A c \in SetFrom(p.comps) : HasRow(p.dirs, c[2]) /\ ~Cyclic(p.dirs, c[2])
  /\ \A f \in SetFrom(p.files) : HasRow(p.comps, f[2])
PathNames(p, f) == Chain(p.dirs, By(p.comps, f[2])[2], 0) \o << LongName(f[3]) >>
PathOf(p, f) == Slashed(PathNames(p, f))
Listing(p) == [ i \in DOMAIN p.files |-> PathOf(p, p.files[i]) ]

(* what leads out of the output directory is put somewhere in it *)
Escapes(names) == FoldLeft(LAMBDA a, n : IF n = ".." THEN [a EXCEPT !.out = @ \/ a.d = 0, !.d = IF @ = 0 THEN 0 ELSE @ - 1] ELSE IF n = "." THEN a ELSE [a EXCEPT !.d = @ + 1],
                           [d |-> 0, out |-> FALSE], names).out
Inside(names) == FoldLeft(LAMBDA a, n : IF n = ".." THEN (IF a = << >> THEN a ELSE SubSeq(a, 1, Len(a) - 1)) ELSE IF n = "." THEN a ELSE Append(a, n), << >>, names)

UpChar(c) == LET i == Find("abcdefghijklmnopqrstuvwxyz", c, 1) IN IF i = 0 THEN c ELSE At("ABCDEFGHIJKLMNOPQRSTUVWXYZ", i)
Up(q) == FoldLeft(LAMBDA a, i : a \o UpChar(At(q, i)), "", [ i \in 1..Len(q) |-> i ])
(* the cabinet a medium names, as a set of at most one: inside with #, beside the package in any case of letters *)
CabOf(p, cab) ==
  IF At(cab, 1) = "#" THEN { s \in SetFrom(p.streams) : s[1] = SubSeq(cab, 2, Len(cab)) }
  ELSE { s \in SetFrom(p.exts) : Up(s[1]) = Up(cab) }
Extracted(p) ==
  LET key(e) == IF HasRow(p.files, e[1]) THEN Slashed(Inside(PathNames(p, By(p.files, e[1])))) ELSE e[1]
      one(o, e) == Put1(o, key(e), << e[2], e[3] >>)
      med(a, m) == IF ~a.ok \/ m[2] = "" THEN a
                   ELSE IF CabOf(p, m[2]) = {} THEN [a EXCEPT !.ok = FALSE]
                   ELSE [a EXCEPT !.out = FoldLeft(one, @, (CHOOSE s \in CabOf(p, m[2]) : TRUE)[2])]
  IN  FoldLeft(med, [ok |-> TRUE, out |-> << >>], p.media)
Leads(p) == \E f \in SetFrom(p.files) : Escapes(PathNames(p, f))
Over(f, g) == [ k \in DOMAIN f \union DOMAIN g |-> IF k \in DOMAIN g THEN g[k] ELSE f[k] ]
(* after a failure it is open what was already written *)
Out(x, o) == IF o \in DOMAIN x.outs THEN x.outs[o] ELSE [open |-> FALSE, m |-> << >>]

RECURSIVE Parents(_)
Parents(path) == LET is == { i \in 1..Len(path) : At(path, i) = "/" } IN { SubSeq(path, 1, i - 1) : i \in is }
Names(out) == DOMAIN out \union UNION { Parents(k) : k \in DOMAIN out }
(* -L : kind and size of each *)
Longs(out) == { <<k, "f", out[k][2]>> : k \in DOMAIN out } \union { <<k, "d", 0>> : k \in UNION { Parents(j) : j \in DOMAIN out } }

ExtractStep(x, op) ==
  LET ps(i) == x.pkgs[op[i]] IN
  CASE op[1] = "pack" -> XRes([x EXCEPT !.pkgs = Put1(@, op[2], op[3])], <<"ok">>)
    [] op[1] = "list" ->           \* of packages op[2]
         IF \E i \in DOMAIN op[2] : op[2][i] \notin DOMAIN x.pkgs \/ ~Sound(x.pkgs[op[2][i]]) THEN XRes(x, XFail)
         ELSE XRes(x, <<"list", FoldLeft(LAMBDA a, p : a \o Listing(x.pkgs[p]), << >>, op[2])>>)
    [] op[1] = "extract" ->        \* packages op[2] into directory op[3]
         LET fine(p) == p \in DOMAIN x.pkgs /\ Sound(x.pkgs[p]) /\ "Media" \in SetFrom(x.pkgs[p].tabs) /\ Extracted(x.pkgs[p]).ok
             ok == \A i \in DOMAIN op[2] : fine(op[2][i])
         IN  IF ~ok THEN XRes([x EXCEPT !.outs = Put1(@, op[3], [open |-> TRUE, m |-> << >>])], XFail)
             ELSE XRes([x EXCEPT !.outs = Put1(@, op[3], FoldLeft(LAMBDA a, p : [open |-> a.open \/ Leads(x.pkgs[p]), m |-> Over(a.m, Extracted(x.pkgs[p]).out)], Out(x, op[3]), op[2]))], <<"ok">>)
    [] op[1] = "tree" -> XRes(x, <<"tree", Out(x, op[2])>>)
    [] op[1] = "diffl" ->          \* msidiff -l or -L
         LET a == Extracted(ps(3)) b == Extracted(ps(4))
             f(out) == IF op[2] = "l" THEN { <<k>> : k \in Names(out) } ELSE Longs(out)
             fine(p) == p \in DOMAIN x.pkgs /\ Sound(x.pkgs[p]) /\ "Media" \in SetFrom(x.pkgs[p].tabs) /\ Extracted(x.pkgs[p]).ok
         IN  IF ~fine(op[3]) \/ ~fine(op[4]) THEN XRes(x, XFail)
             ELSE IF Leads(ps(3)) \/ Leads(ps(4)) THEN XRes(x, <<"any">>)
             ELSE XRes(x, <<"diff", f(a.out) \ f(b.out), f(b.out) \ f(a.out)>>)

SameBag(a, b) == Len(a) = Len(b) /\ \A v \in SetFrom(a) \union SetFrom(b) :
  Cardinality({ i \in DOMAIN a : a[i] = v }) = Cardinality({ i \in DOMAIN b : b[i] = v })
IsList(obs, exp) == Len(obs) = Cardinality(exp) /\ SetFrom(obs) = exp
ExtractMatch(op, obs, r) ==
  IF r[1] = "any" THEN TRUE
  ELSE IF obs[1] # r[1] THEN FALSE
  ELSE CASE r[1] = "list" -> SameBag(obs[2], r[2])
         [] r[1] = "tree" -> IF r[2].open THEN \A i \in DOMAIN obs[2] : Len(obs[2][i][1]) < 3 \/ SubSeq(obs[2][i][1], 1, 3) # "../"
                             ELSE IsList(obs[2], { <<k>> \o r[2].m[k] : k \in DOMAIN r[2].m })
         [] r[1] = "diff" -> IsList(obs[2], r[2]) /\ IsList(obs[3], r[3])
         [] OTHER -> TRUE

ExtractOk(x) == \A o \in DOMAIN x.outs : \A k \in DOMAIN x.outs[o].m : Find(k, "\\", 1) = 0 /\ At(k, 1) # "/" /\ (Len(k) >= 3 => SubSeq(k, 1, 3) # "../")
(* said differently: the list names what extraction writes, when every file is in a cabinet *)
Whole(p) == /\ Sound(p)
            /\ \A f \in SetFrom(p.files) : \E m \in SetFrom(p.media) : m[2] # "" /\ \E s \in CabOf(p, m[2]) : HasRow(s[2], f[1])
            /\ \A m \in SetFrom(p.media) : m[2] # "" => \A s \in CabOf(p, m[2]) : \A e \in SetFrom(s[2]) : HasRow(p.files, e[1])
            /\ \A f \in SetFrom(p.files) : PathNames(p, f) = Inside(PathNames(p, f))
ExtractStepOk(x, op, y) ==
  /\ op[1] # "extract" => y.s.outs = x.outs
  /\ op[1] = "extract" /\ y.r[1] = "ok" /\ Out(x, op[3]).m = << >> /\ Len(op[2]) = 1 /\ Whole(x.pkgs[op[2][1]]) =>
       DOMAIN y.s.outs[op[3]].m = SetFrom(Listing(x.pkgs[op[2][1]]))
=============================================================================
