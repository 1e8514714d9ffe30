------------------------------- MODULE MsiSum -------------------------------
(* Summary information: a store of typed properties, read from a database   *)
(* when it is made, written back when it is persisted, kept in the file     *)
(* when the database commits.                                               *)
(*  files : path -> properties          what is on disk                     *)
(*  sess  : handle -> [path, mode, cur]  cur: what the session would store  *)
(*  sis   : name -> [h, left, v]         an open store                      *)
(* A property value is <<"i", n>>, <<"s", text>> or <<"t", digits>>.        *)
EXTENDS IdtText, FiniteSets

NoProps == [p \in {} |-> 0]
EmptySum == [files |-> NoProps, sess |-> NoProps, sis |-> NoProps]
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]

MaxProps == 20
Kind(p) == IF p \in {1, 14, 15, 16, 19} THEN "i"
           ELSE IF p \in (2..9) \union {18} THEN "s"
           ELSE IF p \in 10..13 THEN "t" ELSE "none"
TypeNo(v) == CASE v[1] = "i" -> 1 [] v[1] = "s" -> 2 [] v[1] = "t" -> 3
Val(si, p) == si.v[p]
Has(si, p) == p \in DOMAIN si.v

(* as a text archive *)
SumText(v) == CASE v[1] = "i" -> ToString(v[2]) [] v[1] = "s" -> IdtMap(IdtEsc, v[2]) [] v[1] = "t" -> IdtDate(v[2])
SumHead == << "PropertyId\tValue", "i2\tl255", "_SummaryInformation\tPropertyId" >>
SumCell(p, t) ==        \* the value a text stands for, or "bad"
  CASE Kind(p) = "none" -> <<"bad">>
    [] Kind(p) = "s" -> <<"s", t>>
    [] Kind(p) = "t" -> IF IdtIsDate(t) THEN <<"t", IdtTime(t)>> ELSE <<"bad">>
    [] OTHER -> <<"i", DecimalOf(t)>>
SumImport(cur, text) ==     \* the properties afterwards, or "bad"
  LET ls == IdtSplit(text)
      rows == SubSeq(ls, 4, Len(ls))
      val(i) == SumCell(IdtNum(rows[i][1]), rows[i][2])
      bad == \/ Len(IdtLine(ls, 1)) # 2 \/ Len(IdtLine(ls, 2)) # 2
             \/ \E i \in DOMAIN rows : Len(rows[i]) # 2
             \/ \E i \in DOMAIN rows : ~IdtDigits(rows[i][1]) \/ val(i) = <<"bad">>
  IN  IF bad THEN <<"bad">>
      ELSE <<"ok", FoldLeft(LAMBDA v, i : Put(v, IdtNum(rows[i][1]), val(i)), cur, [ i \in DOMAIN rows |-> i ]), rows # << >>>>

SumStep(st, op) ==
  LET same(x) == [s |-> st, r |-> x]
      put(part, k, v, x) == [s |-> [st EXCEPT ![part] = Put(@, k, v)], r |-> x]
      n == op[2] p == op[3]
      set(v) ==
        LET si == st.sis[n] IN
        IF Kind(p) # v[1] THEN same(<<"fail">>)
        ELSE IF ~Has(si, p) /\ si.left = 0 THEN same(<<"fail">>)
        ELSE put("sis", n, [si EXCEPT !.v = Put(@, p, v), !.left = IF Has(si, p) THEN @ ELSE @ - 1], <<"ok">>)
      (* reading a property of another kind gives the default *)
      get(kind, dflt) ==
        LET si == st.sis[n] IN
        IF ~Has(si, p) THEN same(<<"fail", dflt>>)
        ELSE same(IF Val(si, p)[1] = kind THEN <<"ok", Val(si, p)>> ELSE <<"ok", dflt>>)
  IN
  CASE op[1] = "open" ->
         (* op: open, handle, path, mode *)
         (CASE op[4] = "create" -> put("sess", n, [path |-> p, mode |-> "create", cur |-> NoProps], <<"ok">>)
            [] p \notin DOMAIN st.files -> same(<<"fail">>)
            [] OTHER -> put("sess", n, [path |-> p, mode |-> op[4], cur |-> st.files[p]], <<"ok">>))
    [] op[1] = "close" -> [s |-> [st EXCEPT !.sess = Drop(@, n)], r |-> <<"ok">>]
    [] op[1] = "commit" ->
         LET e == st.sess[n] IN
         IF e.mode = "ro" THEN same(<<"ok">>) ELSE put("files", e.path, e.cur, <<"ok">>)
    [] op[1] = "sinew" -> put("sis", n, [h |-> p, left |-> op[4], v |-> IF p = "" THEN NoProps ELSE st.sess[p].cur], <<"ok">>)
    [] op[1] = "sifree" -> [s |-> [st EXCEPT !.sis = Drop(@, n)], r |-> <<"ok">>]
    [] op[1] = "siseti" -> set(<<"i", op[4]>>)
    [] op[1] = "sisets" -> set(<<"s", op[4]>>)
    [] op[1] = "sisett" -> set(<<"t", op[4]>>)
    [] op[1] = "sitype" -> same(IF p >= MaxProps THEN <<"fail", 0>> ELSE <<"ok", IF Has(st.sis[n], p) THEN TypeNo(Val(st.sis[n], p)) ELSE 0>>)
    [] op[1] = "sigeti" -> get("i", <<"i", -1>>)
    [] op[1] = "sigets" -> get("s", <<"n">>)
    [] op[1] = "sigett" -> get("t", <<"t", "0">>)
    [] op[1] = "siprops" -> same(<<"ok", DOMAIN st.sis[n].v>>)
    [] op[1] = "sipersist" -> IF st.sis[n].h = "" \/ (st.sis[n].h # "" /\ st.sess[st.sis[n].h].mode = "ro") THEN same(<<"fail">>)
                              ELSE put("sess", st.sis[n].h, [st.sess[st.sis[n].h] EXCEPT !.cur = st.sis[n].v], <<"ok">>)
    [] op[1] = "sisave" -> IF st.sess[p].mode = "ro" THEN same(<<"fail">>) ELSE put("sess", p, [st.sess[p] EXCEPT !.cur = st.sis[n].v], <<"ok">>)
    [] op[1] = "siexport" ->
         LET v == st.sess[n].cur IN
         IF \E q \in DOMAIN v : v[q][1] = "t" /\ ~IdtDateOk(v[q][2]) THEN same(<<"fail">>)
         ELSE same(<<"ok", SumHead, { ToString(q) \o "\t" \o SumText(v[q]) : q \in DOMAIN v }>>)
    [] op[1] = "siimport" ->
         LET x == SumImport(st.sess[n].cur, p) IN
         IF x[1] = "bad" \/ (x[3] /\ st.sess[n].mode = "ro") THEN same(<<"fail">>)
         ELSE put("sess", n, [st.sess[n] EXCEPT !.cur = x[2]], <<"ok">>)
    [] op[1] = "siexim" ->       \* from one session to another, in any time zone
         LET v == st.sess[n].cur w == st.sess[p].cur
             y == [ q \in DOMAIN v \union DOMAIN w |-> IF q \notin DOMAIN v THEN w[q]
                     ELSE IF v[q][1] # "t" THEN v[q] ELSE <<"t", IdtTime(IdtDate(v[q][2]))>> ] IN
         IF \E q \in DOMAIN v : v[q][1] = "t" /\ ~IdtDateOk(v[q][2]) THEN same(<<"fail">>)
         ELSE IF DOMAIN v # {} /\ st.sess[p].mode = "ro" THEN same(<<"fail">>)
         ELSE put("sess", p, [st.sess[p] EXCEPT !.cur = y], <<"ok">>)
    [] op[1] = "disk" -> same(IF n \in DOMAIN st.files THEN <<"ok", { <<q, st.files[n][q]>> : q \in DOMAIN st.files[n] }>> ELSE <<"fail">>)

SumMatch(op, obs, r) ==
  /\ obs[1] = r[1]
  /\ CASE op[1] \in {"siprops", "disk"} /\ r[1] = "ok" ->
            LET o == obs[2] IN Len(o) = Cardinality(r[2]) /\ { o[i] : i \in DOMAIN o } = r[2]
       [] op[1] = "siexport" /\ r[1] = "ok" ->
            obs[2] = r[2] /\ Len(obs[3]) = Cardinality(r[3]) /\ { obs[3][i] : i \in DOMAIN obs[3] } = r[3]
       [] op[1] \in {"sitype", "sigeti", "sigets", "sigett"} -> obs[2] = r[2]
       [] OTHER -> TRUE

WellTyped(v) == \A p \in DOMAIN v : v[p][1] = Kind(p)
SumOk(st) == /\ \A f \in DOMAIN st.files : WellTyped(st.files[f])
             /\ \A h \in DOMAIN st.sess : WellTyped(st.sess[h].cur)
             /\ \A n \in DOMAIN st.sis : WellTyped(st.sis[n].v)
SumStepOk(st, op, x) ==
  /\ x.r[1] = "fail" => x.s = st
  /\ op[1] # "commit" => x.s.files = st.files
  /\ op[1] \in {"siseti", "sisets", "sisett"} =>
       /\ x.s.sess = st.sess
       /\ \A q \in 0..25 \ {op[3]} : LET a == st.sis[op[2]] b == x.s.sis[op[2]] IN
            /\ Has(a, q) <=> Has(b, q)
            /\ Has(a, q) => Val(a, q) = Val(b, q)
=============================================================================
