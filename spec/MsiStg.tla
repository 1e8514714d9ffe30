------------------------------- MODULE MsiStg -------------------------------
(* Storages: compound files kept inside a database.                         *)
(*   x.cf    : name -> compound file outside, a set of <<path, content>>,   *)
(*             where path is a/b for a stream with its bytes, a/b/ for a    *)
(*             storage with its class, and "" for the file's own class;     *)
(*             {} for a file that is no compound file                       *)
(*   x.files : path -> [stg, str] as the last commit left it                *)
(*   x.sess  : handle -> [path, ro, stg, str]                               *)
(* stg maps a storage's name to such a set, str is the set of streams.      *)
(* Every answer is <<operation, ...>>.                                      *)
EXTENDS Naturals, Sequences, FiniteSets

None == [k \in {} |-> {}]
EmptyStg == [cf |-> None, files |-> [k \in {} |-> [stg |-> None, str |-> {}]], sess |-> [k \in {} |-> 0]]
Put(f, k, v) == [z \in DOMAIN f \union {k} |-> IF z = k THEN v ELSE f[z]]
Drop(f, k) == [z \in DOMAIN f \ {k} |-> f[z]]
SetOf(q) == { q[i] : i \in DOMAIN q }
Fits(n) == n # "" /\ Len(n) <= 31

(* what the file holds (an unreadable one: "!fail") for the storages of a database *)
Tree(stg) == UNION { { << n \o "/" \o e[1], e[2]>> : e \in stg[n] } : n \in DOMAIN stg }

StgStep(x, op) ==
  LET same(r) == [s |-> x, r |-> r]
      h == op[2]
      S == x.sess[h]
      with(v) == [x EXCEPT !.sess = Put(@, h, v)]
      file == IF op[4] \in DOMAIN x.cf THEN x.cf[op[4]] ELSE {}
  IN CASE op[1] = "cfile" -> [s |-> [x EXCEPT !.cf = Put(@, h, SetOf(op[3]))], r |-> "ok"]
       [] op[1] = "raw" -> [s |-> [x EXCEPT !.cf = Put(@, h, {})], r |-> "ok"]
       [] op[1] = "open" ->
            LET f == IF op[3] \in DOMAIN x.files /\ op[4] # "create" THEN x.files[op[3]] ELSE [stg |-> None, str |-> {}] IN
            [s |-> with([path |-> op[3], ro |-> op[4] = "ro", stg |-> f.stg, str |-> f.str]), r |-> "ok"]
       [] op[1] = "close" -> [s |-> [x EXCEPT !.sess = Drop(@, h)], r |-> "ok"]
       [] op[1] = "commit" ->
            [s |-> IF S.ro THEN x ELSE [x EXCEPT !.files = Put(@, S.path, [stg |-> S.stg, str |-> S.str])], r |-> "ok"]
       [] op[1] = "ins" ->
            IF S.ro \/ ~Fits(op[3]) \/ file = {} THEN same("fail")
            ELSE [s |-> with([S EXCEPT !.stg = Put(@, op[3], file)]), r |-> "ok"]
       [] op[1] = "upd" ->
            IF op[3] \notin DOMAIN S.stg THEN same("ok")
            ELSE IF S.ro \/ file = {} THEN same("fail")
            ELSE [s |-> with([S EXCEPT !.stg[op[3]] = file]), r |-> "ok"]
       [] op[1] = "ren" -> same(IF op[3] \in DOMAIN S.stg THEN "fail" ELSE "ok")
       [] op[1] = "del" -> [s |-> with([S EXCEPT !.stg = Drop(@, op[3])]), r |-> "ok"]
       [] op[1] = "clear" -> [s |-> with([S EXCEPT !.stg = None]), r |-> "ok"]
       [] op[1] = "other" -> [s |-> with([S EXCEPT !.str = @ \union {op[3]}]), r |-> "ok"]
       [] op[1] = "streams" -> same(S.str)
       [] op[1] = "names" -> same(DOMAIN S.stg)
       [] op[1] = "find" -> same({op[3]} \intersect DOMAIN S.stg)
       [] op[1] = "disk" -> same(IF h \in DOMAIN x.files THEN Tree(x.files[h].stg) ELSE {<<"!fail", "">>})

StgDo(x, op) == LET y == StgStep(x, op) IN [s |-> y.s, r |-> <<op[1], y.r>>]

(* lists come in any order, but with nothing twice *)
Lists == {"streams", "names", "find", "disk"}
StgMatch(op, obs, r) ==
  /\ obs[1] = op[1] /\ r[1] = op[1]
  /\ IF op[1] \notin Lists THEN obs[2] = r[2]
     ELSE SetOf(obs[2]) = r[2] /\ Len(obs[2]) = Cardinality(r[2])

(* every storage there is came whole from a compound file, and what a        *)
(* session does shows in no other session and in the file only at a commit  *)
StgOk(x) ==
  /\ \A h \in DOMAIN x.sess : \A n \in DOMAIN x.sess[h].stg : Fits(n) /\ x.sess[h].stg[n] # {}
  /\ \A p \in DOMAIN x.files : \A n \in DOMAIN x.files[p].stg : Fits(n) /\ x.files[p].stg[n] # {}
StgStepOk(x, op, y) ==
  /\ op[1] # "commit" => y.s.files = x.files
  /\ op[1] \notin {"cfile", "raw", "disk"} => \A h \in DOMAIN x.sess \ {op[2]} : h \in DOMAIN y.s.sess /\ y.s.sess[h] = x.sess[h]
  /\ op[1] \notin Lists => (y.r[2] = "fail" => y.s = x)
  /\ op[1] \in Lists => y.s = x
  /\ op[1] \in {"ins", "upd", "del"} =>
       \A n \in DOMAIN x.sess[op[2]].stg \ {op[3]} : n \in DOMAIN y.s.sess[op[2]].stg /\ y.s.sess[op[2]].stg[n] = x.sess[op[2]].stg[n]
  /\ op[1] = "commit" /\ ~x.sess[op[2]].ro => Tree(y.s.files[x.sess[op[2]].path].stg) = Tree(x.sess[op[2]].stg)
=============================================================================
