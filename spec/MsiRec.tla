------------------------------- MODULE MsiRec -------------------------------
(* Records: an array of typed fields 0..n, and byte streams read from them. *)
(* State: record name -> <<n, field number -> value>>.  Values:             *)
(*   <<"n">> NULL, <<"i", v>>, <<"s", text>>, <<"b", hex digits>>           *)
EXTENDS DecText

Null == <<"n">>
EmptyRecs == [r \in {} |-> 0]
MaxFields == 65534
Put(f, k, v) == [x \in DOMAIN f \union {k} |-> IF x = k THEN v ELSE f[x]]
Drop(f, k) == [x \in DOMAIN f \ {k} |-> f[x]]
Min2(a, b) == IF a < b THEN a ELSE b

Field(rec, f) == IF f \in DOMAIN rec.v THEN rec.v[f] ELSE Null
SetField(rec, f, v) == [rec EXCEPT !.v = IF v = Null THEN Drop(@, f) ELSE Put(@, f, v)]

AsInt(v) ==
  CASE v[1] = "i" -> IF v[2] = NullInt THEN Null ELSE v
    [] v[1] = "s" -> IF IsDecimal(v[2]) /\ DecimalOf(v[2]) # NullInt THEN <<"i", DecimalOf(v[2])>> ELSE Null
    [] OTHER -> Null
AsText(v) ==
  CASE v[1] = "i" -> <<"s", ToString(v[2])>>
    [] v[1] = "s" -> v
    [] v[1] = "n" -> <<"s", "">>
    [] v[1] = "b" -> Null

(* ---------------------------------------------------------------- streams *)
(* reading position; each operation answers <<new position, result>> *)
Bytes(h, from, n) == SubSeq(h, 2 * from + 1, 2 * (from + n))
StreamOp(h, pos, o) ==
  LET size == Len(h) \div 2 n == Min2(o[2], size - pos) IN
  CASE o[1] = "r" -> <<pos + n, <<"r", n, Bytes(h, pos, n)>>>>
    [] o[1] = "s" -> <<pos + n, <<"s", n>>>>
    [] o[1] = "t" -> <<pos, <<"t", pos>>>>
    [] OTHER -> LET to == (CASE o[1] = "k" -> 0 [] o[1] = "c" -> pos [] o[1] = "e" -> size) + o[2] IN
                IF to >= 0 /\ to <= size THEN <<to, <<o[1], TRUE>>>> ELSE <<pos, <<o[1], FALSE>>>>
RECURSIVE StreamRun(_, _, _, _)
StreamRun(h, pos, ops, res) ==
  IF ops = << >> THEN res
  ELSE LET x == StreamOp(h, pos, Head(ops)) IN StreamRun(h, x[1], Tail(ops), Append(res, x[2]))

(* ------------------------------------------------------------------ steps *)
RecStep(st, op) ==
  LET R == op[2] rec == st[op[2]] f == op[3]
      same(x) == [s |-> st, r |-> x]
      set(ok, v) == IF ok THEN [s |-> Put(st, R, SetField(rec, f, v)), r |-> TRUE] ELSE same(FALSE)
  IN
  CASE op[1] = "rnew" -> IF op[3] <= MaxFields THEN [s |-> Put(st, R, [n |-> op[3], v |-> EmptyRecs]), r |-> TRUE]
                         ELSE [s |-> Drop(st, R), r |-> FALSE]
    [] op[1] = "rfree" -> [s |-> Drop(st, R), r |-> TRUE]
    [] op[1] = "rcount" -> same(rec.n)
    [] op[1] = "rclear" -> [s |-> Put(st, R, [rec EXCEPT !.v = EmptyRecs]), r |-> TRUE]
    [] op[1] = "rseti" -> set(f <= rec.n, <<"i", op[4]>>)
    [] op[1] = "rsets" -> set(f <= rec.n, IF op[4] = "" THEN Null ELSE <<"s", op[4]>>)
    [] op[1] = "rload" -> set(f >= 1 /\ f <= rec.n, <<"b", op[4]>>)
    [] op[1] = "rnofile" -> same(FALSE)
    [] op[1] = "rsetm" -> set(f >= 1 /\ f <= rec.n /\ op[5] > 0 /\ 2 * op[5] <= Len(op[4]), <<"b", SubSeq(op[4], 1, 2 * op[5])>>)
    [] op[1] = "rgeti" -> same(AsInt(Field(rec, f)))
    [] op[1] = "rgets" -> same(AsText(Field(rec, f)))
    [] op[1] = "rnull" -> same(Field(rec, f) = Null)
    [] op[1] = "rstream" -> LET v == Field(rec, f) IN
                            same(IF v[1] = "b" THEN <<"data", StreamRun(v[2], 0, op[4], << >>)>> ELSE <<"none">>)

(* every answer is tagged, so that answers of any kind can be compared *)
RecDo(st, op) == LET x == RecStep(st, op) IN [s |-> x.s, r |-> <<op[1], x.r>>]

(* no field outside the record, no operation on one field changes another *)
RecOk(st) == \A r \in DOMAIN st : DOMAIN st[r].v \subseteq 0..st[r].n /\ \A f \in DOMAIN st[r].v : st[r].v[f] # Null
RecStepOk(st, op, x) ==
  /\ \A r \in DOMAIN st \ {op[2]} : r \in DOMAIN x.s /\ x.s[r] = st[r]
  /\ op[1] \in {"rseti", "rsets", "rload", "rsetm"} =>
       \A f \in 0..st[op[2]].n \ {op[3]} : Field(x.s[op[2]], f) = Field(st[op[2]], f)
  /\ op[1] \in {"rgeti", "rgets", "rnull", "rstream", "rcount", "rnofile"} => x.s = st
  /\ op[1] \in {"rseti", "rsets", "rload", "rsetm"} => (x.r[2] = FALSE => x.s = st)
Equal(op, obs, r) == obs = r
=============================================================================
