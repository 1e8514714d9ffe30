------------------------------ MODULE IdtText ------------------------------
(* The text of text archives: lines of cells separated by tabs; inside a    *)
(* cell tab, CR and LF are the characters 0x10, 0x11 and 0x19, which are     *)
(* written ~ ^ | here.                                                      *)
EXTENDS DecText, SequencesExt

IdtChars(t) == [ i \in 1..Len(t) |-> SubSeq(t, i, i) ]
IdtEsc(c) == CASE c = "\t" -> "~" [] c = "\r" -> "^" [] c = "\n" -> "|" [] OTHER -> c
IdtUnesc(c) == CASE c = "~" -> "\t" [] c = "^" -> "\r" [] c = "|" -> "\n" [] OTHER -> c
IdtMap(F(_), t) == FoldLeft(LAMBDA a, c : a \o F(c), "", IdtChars(t))
IdtJoin(cells) == FoldLeft(LAMBDA a, k : a \o (IF k = 1 THEN "" ELSE "\t") \o cells[k], "", [ k \in DOMAIN cells |-> k ])

(* lines of cells; the ends of lines may be LF or CR LF, and empty lines    *)
(* are passed over, except that a text may start with one                   *)
IdtSplit(text) ==
  LET feed(x, c) ==
        CASE c = "\t" -> [x EXCEPT !.cells = Append(@, x.cell), !.cell = "", !.any = TRUE]
          [] c \in {"\r", "\n"} ->
               IF x.any \/ x.lines = << >>
               THEN [lines |-> Append(x.lines, Append(x.cells, x.cell)), cells |-> << >>, cell |-> "", any |-> FALSE]
               ELSE x
          [] OTHER -> [x EXCEPT !.cell = @ \o IdtUnesc(c), !.any = TRUE]
      end == FoldLeft(feed, [lines |-> << >>, cells |-> << >>, cell |-> "", any |-> FALSE], IdtChars(text))
  IN  IF end.any THEN Append(end.lines, Append(end.cells, end.cell)) ELSE end.lines

IdtLine(ls, i) == IF i <= Len(ls) THEN ls[i] ELSE << "" >>

IdtDigits(t) == Len(t) > 0 /\ \A k \in 1..Len(t) : ChAt(t, k) \in DOMAIN DigVal
IdtNum(t) == FoldLeft(LAMBDA a, c : 10 * a + DigVal[c], 0, IdtChars(t))

IdtIntOk(c) == c = "" \/ (IdtDigits(IF ChAt(c, 1) = "-" THEN SubSeq(c, 2, Len(c)) ELSE c)
                          /\ LET d == IF ChAt(c, 1) = "-" THEN SubSeq(c, 2, Len(c)) ELSE c
                             IN  Len(d) < 10 \/ (Len(d) = 10 /\ ChAt(d, 1) \in {"0", "1"}) \/ d = "2147483647")

(* ------------------------------------------------------------------ dates *)
(* File times are decimal texts: units of 100 ns since 1601-01-01.  Their    *)
(* text form is the (UTC) date and time to the second.                      *)
IdtPad(n, w) == LET t == ToString(n) IN FoldLeft(LAMBDA a, i : IF Len(a) >= w THEN a ELSE "0" \o a, t, [ i \in 1..w |-> i ])
(* <<days, seconds of the day>> by long division *)
IdtSplitTime(ft) ==
  LET secs == IF Len(ft) <= 7 THEN "0" ELSE SubSeq(ft, 1, Len(ft) - 7)
  IN  FoldLeft(LAMBDA x, c : LET m == x[2] * 10 + DigVal[c] IN << x[1] * 10 + m \div 86400, m % 86400 >>, <<0, 0>>, IdtChars(secs))
(* days since 1601-01-01 <-> civil date (400-year eras of 146097 days) *)
IdtCivil(days) ==
  LET z == days + 584694 \* days since 0000-03-01: 1601-01-01 is day 584694
      era == z \div 146097
      doe == z % 146097
      yoe == (doe - doe \div 1460 + doe \div 36524 - doe \div 146096) \div 365
      doy == doe - (365 * yoe + yoe \div 4 - yoe \div 100)
      mp == (5 * doy + 2) \div 153
      d == doy - (153 * mp + 2) \div 5 + 1
      m == IF mp < 10 THEN mp + 3 ELSE mp - 9
  IN  << yoe + era * 400 + (IF m <= 2 THEN 1 ELSE 0), m, d >>
IdtDays(y, m, d) ==
  LET yy == IF m <= 2 THEN y - 1 ELSE y
      era == yy \div 400
      yoe == yy % 400
      doy == (153 * (IF m > 2 THEN m - 3 ELSE m + 9) + 2) \div 5 + d - 1
  IN  era * 146097 + yoe * 365 + yoe \div 4 - yoe \div 100 + doy - 584694
IdtDateOk(ft) == Len(ft) <= 18 \/ IdtCivil(IdtSplitTime(ft)[1])[1] <= 9999
IdtDate(ft) ==
  LET x == IdtSplitTime(ft) c == IdtCivil(x[1]) IN
  IdtPad(c[1], 4) \o "/" \o IdtPad(c[2], 2) \o "/" \o IdtPad(c[3], 2) \o " " \o IdtPad(x[2] \div 3600, 2)
  \o ":" \o IdtPad((x[2] \div 60) % 60, 2) \o ":" \o IdtPad(x[2] % 60, 2)
IdtIsDate(t) == Len(t) = 19 /\ \A i \in 1..19 :
  LET c == SubSeq(t, i, i) IN
  CASE i \in {5, 8} -> c = "/" [] i = 11 -> c = " " [] i \in {14, 17} -> c = ":" [] OTHER -> c \in DOMAIN DigVal
IdtTime(t) ==
  LET n(i, j) == IdtNum(SubSeq(t, i, j))
      days == IdtDays(n(1, 4), n(6, 7), n(9, 10))
      rest == (days % 1000) * 86400 + n(12, 13) * 3600 + n(15, 16) * 60 + n(18, 19)
      hi == (days \div 1000) * 864 + rest \div 100000
      secs == IF hi = 0 THEN ToString(rest % 100000) ELSE ToString(hi) \o IdtPad(rest % 100000, 5)
  IN  IF secs = "0" THEN "0" ELSE secs \o "0000000"
=============================================================================
