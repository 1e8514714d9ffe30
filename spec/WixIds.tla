------------------------------- MODULE WixIds -------------------------------
(* The identifiers wixl makes up.  A document is edited and built again and  *)
(* again:                                                                    *)
(*   <<"comp", id, place, key, guid>>   key: <<"file", name>> or             *)
(*                                      <<"reg", root, key, name, form>>     *)
(*   <<"value", component, root, key, name, form>>                           *)
(*   <<"prog", component, progid, extension, content type, verb, mime>>      *)
(*   <<"drop", component>>  <<"move", component, place>>                     *)
(*   <<"codes", product, upgrade>>  <<"upgrade", code>>                      *)
(*   <<"build", architecture>>                                               *)
(* A build that succeeds goes with the identifiers that came out, <<package  *)
(* code, product code, upgrade code, <<<<component, guid>>, ...>>,           *)
(* <<<<registry id, root, key, name, component>>, ...>>, <<upgrade, ...>>>>; *)
(* in the model they are made up here (Made).                                *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt

IdEmpty == [comps |-> << >>, vals |-> << >>, progs |-> << >>, ups |-> << >>, product |-> "*", upgrade |-> "", known |-> {}, used |-> {}]
(* the names of the directories of a place *)
Path(place) == CASE place = "TARGETDIR" -> << "SourceDir" >> [] place \in {"D1", "ref:D1"} -> << "SourceDir", "One" >> [] place \in {"D2", "ref:D2"} -> << "SourceDir", "One", "Two" >>
                 [] place \in {"D3", "ref:D3"} -> << "SourceDir", "Two" >> [] place = "D4" -> << "SourceDir", "D4" >> [] OTHER -> << >>
(* "none" for an attribute that is not there *)
Roots == [ r \in {"HKCR", "HKCU", "HKLM", "HKU", "HKMU"} |-> CASE r = "HKCR" -> 0 [] r = "HKCU" -> 1 [] r = "HKLM" -> 2 [] r = "HKU" -> 3 [] OTHER -> -1 ]
Lows == "abcdefghijklmnopqrstuvwxyz"
Ups == "ABCDEFGHIJKLMNOPQRSTUVWXYZ"
ToUp == [ c \in { SubSeq(Lows, k, k) : k \in 1..26 } |-> SubSeq(Ups, CHOOSE k \in 1..26 : SubSeq(Lows, k, k) = c, CHOOSE k \in 1..26 : SubSeq(Lows, k, k) = c) ]
ToLow == [ c \in { SubSeq(Ups, k, k) : k \in 1..26 } |-> SubSeq(Lows, CHOOSE k \in 1..26 : SubSeq(Ups, k, k) = c, CHOOSE k \in 1..26 : SubSeq(Ups, k, k) = c) ]
Each(t, f) == FoldLeft(LAMBDA acc, k : acc \o (LET c == SubSeq(t, k, k) IN IF c \in DOMAIN f THEN f[c] ELSE c), "", [ k \in 1..Len(t) |-> k ])
Canon(t) == LET b == IF SubSeq(t, 1, 1) = "{" THEN t ELSE "{" \o t \o "}" IN Each(b, ToUp)
Hex == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "A", "B", "C", "D", "E", "F"}
IsCode(t) ==
  Len(t) = 38 /\ \A k \in 1..38 : LET c == SubSeq(t, k, k) IN
    CASE k = 1 -> c = "{" [] k = 38 -> c = "}" [] k \in {10, 15, 20, 25} -> c = "-" [] OTHER -> c \in Hex

(* what a component, a registry row is told from *)
CompIdent(c) == << "comp", Path(c[2]), c[1], IF c[3][1] = "file" THEN << c[3][2] >> ELSE << c[3][2], c[3][3] >> >>
ValIdent(comp, root, key, name) == << "reg", comp, root, key, IF name = "none" THEN << >> ELSE << Each(name, ToLow) >> >>
KeyIdent(comp, key, name) == << "class", comp, key, name >>
(* <<identity, root, key, name, component>> *)
CompRows(c) == IF c[3][1] = "reg" THEN << << ValIdent(c[1], c[3][2], c[3][3], c[3][4]), Roots[c[3][2]], c[3][3], c[3][4], c[1] >> >> ELSE << >>
ProgRows(p) ==
  LET c == p[1] IN
  << << KeyIdent(c, p[2], "none"), 0, p[2], "none", c >> >>
  \o (IF p[3] = "" THEN << >> ELSE << << KeyIdent(c, "." \o p[3], "none"), 0, "." \o p[3], "none", c >> >>)
  \o (IF p[3] = "" \/ p[4] = "" THEN << >> ELSE << << KeyIdent(c, "." \o p[3], "Content Type"), 0, "." \o p[3], "Content Type", c >> >>)
  \o (IF p[3] = "" \/ p[5] = "" THEN << >> ELSE << << KeyIdent(c, p[2] \o "\\shell\\" \o p[5], "none"), 0, p[2] \o "\\shell\\" \o p[5], "none", c >>,
                                                  << KeyIdent(c, p[2] \o "\\shell\\" \o p[5] \o "\\command", "none"), 0, p[2] \o "\\shell\\" \o p[5] \o "\\command", "none", c >> >>)
  \o (IF p[3] = "" \/ p[6] = "" THEN << >> ELSE << << KeyIdent(c, "MIME\\Database\\Content Type\\" \o p[6], "Extension"), 0, "MIME\\Database\\Content Type\\" \o p[6], "Extension", c >> >>)
Rows(x) == FlattenSeq([ k \in DOMAIN x.comps |-> CompRows(x.comps[k]) ])
           \o [ k \in DOMAIN x.vals |-> LET v == x.vals[k] IN << ValIdent(v[1], v[2], v[3], v[4]), Roots[v[2]], v[3], v[4], v[1] >> ]
           \o FlattenSeq([ k \in DOMAIN x.progs |-> ProgRows(x.progs[k]) ])
Twice(q) == Cardinality(ToSet(q)) # Len(q)
(* a value that is there twice *)
MustFail(x) == Twice([ k \in DOMAIN Rows(x) |-> Rows(x)[k][1] ])

Ident(x) == [ k \in DOMAIN x.comps |-> IF x.comps[k][4] = "*" THEN CompIdent(x.comps[k]) ELSE << "as", x.comps[k][4] >> ]
(* identifiers a builder may make up *)
Made(x) ==
  << "new" \o ToString(Cardinality(x.used)), IF x.product = "*" THEN "new" \o ToString(Cardinality(x.used) + 1) ELSE Canon(x.product), IF x.upgrade = "" THEN "" ELSE Canon(x.upgrade),
     [ k \in DOMAIN x.comps |-> << x.comps[k][1], IF x.comps[k][4] = "*" THEN ToString(Ident(x)[k]) ELSE IF x.comps[k][4] = "" THEN "" ELSE Canon(x.comps[k][4]) >> ],
     [ k \in DOMAIN Rows(x) |-> << ToString(Rows(x)[k][1]), Rows(x)[k][2], Rows(x)[k][3], Rows(x)[k][4], Rows(x)[k][5] >> ],
     [ k \in DOMAIN x.ups |-> Canon(x.ups[k]) ] >>
Guid(got, id) == LET c == { k \in DOMAIN got[4] : got[4][k][1] = id } IN got[4][CHOOSE k \in c : TRUE][2]
(* what a build tells: <<identity, identifier>> (a class and a value may    *)
(* write the same thing twice)                                               *)
Learnt(x, got) ==
  { << CompIdent(x.comps[k]), Guid(got, x.comps[k][1]) >> : k \in { k \in DOMAIN x.comps : x.comps[k][4] = "*" } }
  \union { << r[1], (CHOOSE g \in ToSet(got[5]) : SubSeq(g, 2, 5) = SubSeq(r, 2, 5))[1] >> : r \in { r \in ToSet(Rows(x)) : \A q \in ToSet(Rows(x)) : q = r \/ SubSeq(q, 2, 5) # SubSeq(r, 2, 5) } }
Fresh(x, got) == { got[1] } \union (IF x.product = "*" THEN { got[2] } ELSE {})
Shape(x, got) ==
  /\ Len(got[4]) = Len(x.comps) /\ { got[4][k][1] : k \in DOMAIN got[4] } = { x.comps[k][1] : k \in DOMAIN x.comps }
  /\ Len(got[5]) = Len(Rows(x)) /\ { SubSeq(g, 2, 5) : g \in ToSet(got[5]) } = { SubSeq(r, 2, 5) : r \in ToSet(Rows(x)) }
  /\ Cardinality({ g[1] : g \in ToSet(got[5]) }) = Len(got[5])
(* the first thing that is wrong, or "ok"; real: the identifiers are texts *)
Verdict(x, got, real) ==
  CASE ~Shape(x, got) -> "rows"
    [] got[3] # (IF x.upgrade = "" THEN "" ELSE Canon(x.upgrade)) -> "upgrade code"
    [] x.product # "*" /\ got[2] # Canon(x.product) -> "product code"
    [] ToSet(got[6]) # { Canon(x.ups[k]) : k \in DOMAIN x.ups } \/ Len(got[6]) # Len(x.ups) -> "upgrades"
    [] \E k \in DOMAIN x.comps : x.comps[k][4] # "*" /\ Guid(got, x.comps[k][1]) # (IF x.comps[k][4] = "" THEN "" ELSE Canon(x.comps[k][4])) -> "given guid"
    [] real /\ ~(IsCode(got[1]) /\ IsCode(got[2]) /\ \A k \in DOMAIN x.comps : x.comps[k][4] = "*" => IsCode(Guid(got, x.comps[k][1]))) -> "form"
    [] Fresh(x, got) \cap x.used # {} \/ (x.product = "*" /\ got[1] = got[2]) -> "not fresh"
    [] \E a \in Learnt(x, got) : \E b \in x.known \union Learnt(x, got) : a[1] = b[1] /\ a[2] # b[2] -> "not stable"
    [] \E a \in Learnt(x, got) : \E b \in x.known \union Learnt(x, got) : a[1] # b[1] /\ a[2] = b[2] -> "not distinct"
    [] OTHER -> "ok"

IdStep(x, op) ==
  CASE op[1] = "comp" -> [s |-> [x EXCEPT !.comps = Append(@, << op[2], op[3], op[4], op[5] >>)], r |-> << "ok" >>]
    [] op[1] = "value" -> [s |-> [x EXCEPT !.vals = Append(@, SubSeq(op, 2, 6))], r |-> << "ok" >>]
    [] op[1] = "prog" -> [s |-> [x EXCEPT !.progs = Append(@, SubSeq(op, 2, 7))], r |-> << "ok" >>]
    [] op[1] = "drop" -> [s |-> [x EXCEPT !.comps = SelectSeq(@, LAMBDA c : c[1] # op[2]), !.vals = SelectSeq(@, LAMBDA c : c[1] # op[2]), !.progs = SelectSeq(@, LAMBDA c : c[1] # op[2])], r |-> << "ok" >>]
    [] op[1] = "move" -> [s |-> [x EXCEPT !.comps = [ k \in DOMAIN @ |-> IF @[k][1] = op[2] THEN [@[k] EXCEPT ![2] = op[3]] ELSE @[k] ]], r |-> << "ok" >>]
    [] op[1] = "codes" -> [s |-> [x EXCEPT !.product = op[2], !.upgrade = op[3]], r |-> << "ok" >>]
    [] op[1] = "upgrade" -> [s |-> [x EXCEPT !.ups = Append(@, op[2])], r |-> << "ok" >>]
    [] MustFail(x) -> [s |-> x, r |-> << "fail" >>]
    [] OTHER ->
         LET real == Len(op) = 3
             got == IF real THEN op[3] ELSE Made(x)
             v == IF real /\ Len(got) = 0 THEN "built" ELSE Verdict(x, got, real) IN
         [s |-> IF v = "ok" THEN [x EXCEPT !.known = @ \union Learnt(x, got), !.used = @ \union Fresh(x, got)] ELSE x, r |-> << v >>]
IdMatch(op, obs, r) == obs = r
(* no two things go by the same identity, and what is made up from           *)
(* identities alone is all right in every history                            *)
IdStepOk(x, op, y) == op[1] = "build" /\ ~MustFail(x) => y.r = << "ok" >>
IdOk(x) == \A a \in x.known, b \in x.known : (a[1] = b[1]) <=> (a[2] = b[2])
=============================================================================
