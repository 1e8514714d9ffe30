------------------------------- MODULE WixHeat -------------------------------
(* wixl-heat: the document for a list of paths and the package wixl makes of *)
(* it.                                                                       *)
(*   <<"dir", path>> <<"file", path, content>> <<"none", path>>   a line of  *)
(*      the list (path: a sequence of names) and what it is on the disk      *)
(*   <<"heat", prefix, excludes, options>>                                   *)
(* options is a set of "group", "var", "win64", "ref" (another directory).   *)
(* Answered by <<"heat", components in the document, component references    *)
(* in its group, identifiers that are not unique, {<<directories, file name, *)
(* content, 64 bit>>}>>, the last being what the package installs.           *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

HeatEmpty == << >>
Join(p) == FoldLeft(LAMBDA acc, k : acc \o (IF k = 1 THEN "" ELSE "/") \o p[k], "", [ k \in 1..Len(p) |-> k ])
StartsWith(t, p) == Len(p) <= Len(t) /\ (p = "" \/ SubSeq(t, 1, Len(p)) = p)
Behind(t, p) == SubSeq(t, Len(p) + 1, Len(t))
(* the lines that count, each path once *)
Kept(x, prefix, ex) ==
  { k \in DOMAIN x :
      /\ StartsWith(Join(x[k][2]), prefix)
      /\ \A j \in DOMAIN ex : ~StartsWith(Behind(Join(x[k][2]), prefix), ex[j])
      /\ \A j \in 1..(k - 1) : x[j][2] # x[k][2] }
(* a prefix ends where a name ends (anything else is left out) *)
Below(path, prefix) == LET n == CHOOSE n \in 0..Len(path) : LET t == Join(SubSeq(path, 1, n)) IN t = prefix \/ t \o "/" = prefix IN SubSeq(path, n + 1, Len(path))
Files(x, prefix, ex) == { k \in Kept(x, prefix, ex) : x[k][1] # "dir" }
Installed(x, prefix, ex, o) ==
  { LET b == Below(x[k][2], prefix) IN
    << (IF "ref" \in o THEN << "Base" >> ELSE << >>) \o SubSeq(b, 1, Len(b) - 1), b[Len(b)], x[k][3], "win64" \in o >> : k \in Files(x, prefix, ex) }
HeatStep(x, op) ==
  IF op[1] # "heat" THEN [s |-> Append(x, op), r |-> << "ok" >>]
  ELSE LET o == ToSet(op[4]) n == Cardinality(Files(x, op[2], op[3])) IN
       [s |-> x, r |-> << "heat", n, IF "group" \in o THEN n ELSE 0, Installed(x, op[2], op[3], o) >>]
HeatMatch(op, obs, r) ==
  IF r[1] = "ok" THEN obs = r
  ELSE obs[1] = "heat" /\ obs[2] = r[2] /\ obs[3] = r[3] /\ obs[4] = 0 /\ Len(obs[5]) = Cardinality(r[4]) /\ ToSet(obs[5]) = r[4]
(* every file goes to a place of its own, the one it had below the prefix *)
HeatStepOk(x, op, y) ==
  op[1] = "heat" =>
    /\ Cardinality({ << f[1], f[2] >> : f \in y.r[4] }) = y.r[2]
    /\ \A k \in DOMAIN x : x[k][1] = "file" =>
         (StartsWith(Join(x[k][2]), op[2]) /\ (\A j \in DOMAIN op[3] : ~StartsWith(Behind(Join(x[k][2]), op[2]), op[3][j]))
          <=> \E f \in y.r[4] : LET t == Join(SubSeq(f[1], IF "ref" \in ToSet(op[4]) THEN 2 ELSE 1, Len(f[1])) \o << f[2] >>) p == Join(x[k][2]) IN p = op[2] \o t \/ p = op[2] \o "/" \o t)
HeatOk(x) == TRUE
=============================================================================
