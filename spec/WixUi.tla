------------------------------- MODULE WixUi --------------------------------
(* The user interface that a wixl document denotes.  Documents are built as  *)
(* in WixDoc; <<"build", [ext, files, lib]>> answers <<"fail">> and leaves   *)
(* no package, or <<"pkg", [tabs]>>, where the tables of the user interface  *)
(* count.  ext: with the extension for user interfaces, whose documents are  *)
(* lib, <<<<name, elements>>, ...>>; files: <<<<path, text>>, ...>>.         *)
EXTENDS WixDoc

Strip(t) ==
  LET blank == {" ", "\n", "\t"}
      ink == { k \in 1..Len(t) : Ch(t, k) \notin blank } IN
  IF ink = {} THEN "" ELSE SubSeq(t, Min(ink), Max(ink))
No(x, i, k) == ~Yes(x, i, k)
Bit(b, v) == IF b THEN v ELSE 0
Sum(q) == FoldLeft(LAMBDA acc, v : acc + v, 0, q)
NumAt(x, i, k, dflt) == Num(IF Has(x, i, k) THEN DecimalOf(At(x, i, k)) ELSE dflt)
Some(v) == IF v > 0 THEN Num(v) ELSE Null

UiTables == {"Dialog", "Control", "ControlCondition", "ControlEvent", "EventMapping", "CheckBox", "RadioButton", "TextStyle", "UIText", "ActionText"}
(* how many columns make up the key, the columns that cannot be empty, and   *)
(* those that hold 16 bits                                                   *)
KeyLen == [ t \in UiTables |-> CASE t \in {"Control", "RadioButton"} -> 2 [] t = "EventMapping" -> 3 [] t = "ControlCondition" -> 4 [] t = "ControlEvent" -> 5 [] OTHER -> 1 ]
Needed == [ t \in UiTables |->
  CASE t = "Dialog" -> {1, 2, 3, 4, 5, 8} [] t = "Control" -> 1..7 [] t \in {"ControlCondition", "ControlEvent", "EventMapping"} -> 1..4
    [] t = "RadioButton" -> 1..7 [] t = "TextStyle" -> 1..3 [] OTHER -> {1} ]
Short == [ t \in UiTables |-> CASE t = "Dialog" -> {4, 5} [] t = "Control" -> 4..7 [] t = "ControlEvent" -> {6} [] t = "RadioButton" -> {2, 4, 5, 6, 7} [] t = "TextStyle" -> {3} [] OTHER -> {} ]

UiRequired == [ k \in {"UIText", "TextStyle", "Dialog", "Control", "RadioButtonGroup", "RadioButton", "Subscribe", "ProgressText", "UIRef", "DialogRef"} |->
  CASE k \in {"UIText", "UIRef", "DialogRef"} -> {"Id"} [] k = "TextStyle" -> {"Id", "FaceName", "Size"} [] k = "Dialog" -> {"Id", "Width", "Height"}
    [] k = "Control" -> {"Id", "Type"} [] k = "RadioButtonGroup" -> {"Property"} [] k = "RadioButton" -> {"Value", "X", "Y", "Width", "Height"}
    [] k = "Subscribe" -> {"Event", "Attribute"} [] OTHER -> {"Action"} ]

(* -------------------------------- controls ------------------------------- *)
Static == {"Line", "Bitmap", "Icon"}
ControlBits(x, i) == Sum(<<
  Bit(No(x, i, "Hidden"), 1), Bit(At(x, i, "Type") \notin Static /\ No(x, i, "Disabled"), 2), Bit(Yes(x, i, "Sunken"), 4), Bit(Yes(x, i, "Indirect"), 8),
  (* the meaning of the upper ones depends on the type *)
  Bit(Yes(x, i, "Transparent") \/ Yes(x, i, "ProgressBlocks"), 65536), Bit(Yes(x, i, "NoPrefix") \/ Yes(x, i, "Fixed"), 131072),
  Bit(Yes(x, i, "Bitmap") \/ Yes(x, i, "Remote"), 262144), Bit(Yes(x, i, "Icon"), 524288), Bit(Yes(x, i, "FixedSize"), 1048576),
  Bit(At(x, i, "IconSize") \in {"16", "48"}, 2097152), Bit(At(x, i, "IconSize") \in {"32", "48"} \/ Yes(x, i, "ShowRollbackCost"), 4194304),
  Bit(Yes(x, i, "ElevationShield"), 8388608) >>)
FileText(x, p) == LET c == { k \in DOMAIN x.w.files : x.w.files[k][1] = p } IN IF c = {} THEN << >> ELSE << x.w.files[CHOOSE k \in c : TRUE][2] >>
(* the last Text element that says something, or else the attribute *)
ControlText(x, i) ==
  FoldLeft(LAMBDA acc, j : IF Has(x, j, "SourceFile") THEN FileText(x, At(x, j, "SourceFile"))[1] ELSE IF x.t[j] # "" THEN Strip(x.t[j]) ELSE acc, At(x, i, "Text"), KidsOf(x, i, "Text"))
(* the tab order: a ring of what can have the focus *)
Tabbed(x, d) == SelectSeq(KidsOf(x, d, "Control"), LAMBDA i : At(x, i, "Type") \in {"Bitmap", "CheckBox", "Edit", "PushButton", "RadioButtonGroup"} /\ No(x, i, "TabSkip"))
NextTab(x, i) ==
  LET ring == Tabbed(x, x.p[i]) at == { k \in DOMAIN ring : ring[k] = i } IN
  IF at = {} \/ Len(ring) = 1 THEN Null ELSE LET k == Min(at) IN Txt(Id(x, ring[IF k = Len(ring) THEN 1 ELSE k + 1]))
LastWith(x, d, k) == FoldLeft(LAMBDA acc, i : IF Yes(x, i, k) THEN Txt(Id(x, i)) ELSE acc, Null, KidsOf(x, d, "Control"))

(* --------------------------------- events -------------------------------- *)
(* events without an order come behind the one published before them *)
Orders(x) == FoldLeft(LAMBDA acc, i : IF x.n[i] # "Publish" THEN acc
                        ELSE LET o == IF Has(x, i, "Order") THEN DecimalOf(At(x, i, "Order")) ELSE acc.next IN [next |-> o + 1, o |-> (i :> o) @@ acc.o],
                      [next |-> 1, o |-> << >>], [ i \in DOMAIN x.n |-> i ]).o
Published(x, i, orders) ==
  LET inside == Parent(x, i) = "Control" IN
  << IF inside THEN Txt(Id(x, x.p[x.p[i]])) ELSE Opt(x, i, "Dialog"), IF inside THEN Txt(Id(x, x.p[i])) ELSE Opt(x, i, "Control"),
     IF Has(x, i, "Property") THEN Txt("[" \o At(x, i, "Property") \o "]") ELSE Opt(x, i, "Event"),
     IF Has(x, i, "Property") /\ ~Has(x, i, "Value") THEN Txt("{}") ELSE Opt(x, i, "Value"),
     IF Has(x, i, "Condition") THEN Opt(x, i, "Condition") ELSE IF x.t[i] # "" THEN Txt(Strip(x.t[i])) ELSE Txt("1"),
     Num(orders[i]) >>

UiRows(x, i, orders) ==
  LET k == x.n[i] id == Opt(x, i, "Id") IN
  CASE k = "Dialog" ->
         << << "Dialog", << id, Num(50), Num(50), NumAt(x, i, "Width", 0), NumAt(x, i, "Height", 0),
              Num(Sum(<< Bit(No(x, i, "Hidden"), 1), Bit(No(x, i, "Modeless"), 2), Bit(No(x, i, "NoMinimize"), 4), Bit(Yes(x, i, "KeepModeless"), 16),
                         Bit(Yes(x, i, "TrackDiskSpace"), 32), Bit(Yes(x, i, "CustomPalette"), 64), Bit(Yes(x, i, "RightToLeft"), 128), Bit(Yes(x, i, "RightAligned"), 256),
                         Bit(Yes(x, i, "LeftScroll"), 512), Bit(Yes(x, i, "ErrorDialog"), 65536) >>)),
              Opt(x, i, "Title"), Opt(x, Head(KidsOf(x, i, "Control")), "Id"), LastWith(x, i, "Default"), LastWith(x, i, "Cancel") >> >> >>
    [] k = "Control" ->
         LET d == Opt(x, x.p[i], "Id") IN
         << << "Control", << d, id, Opt(x, i, "Type"), NumAt(x, i, "X", 100), NumAt(x, i, "Y", 100), NumAt(x, i, "Width", 500), NumAt(x, i, "Height", 500),
               Some(ControlBits(x, i)), Opt(x, i, "Property"), Txt(ControlText(x, i)), NextTab(x, i), Null >> >> >>
         \o FoldLeft(LAMBDA acc, y : IF Has(x, i, y \o "Condition") THEN Append(acc, << "ControlCondition", << d, id, Txt(y), Opt(x, i, y \o "Condition") >> >>) ELSE acc,
                     << >>, << "Default", "Disable", "Enable", "Hide", "Show" >>)
         \o (IF At(x, i, "Type") = "CheckBox" /\ Has(x, i, "Property") THEN << << "CheckBox", << Opt(x, i, "Property"), Opt(x, i, "CheckBoxValue") >> >> >> ELSE << >>)
    [] k = "Publish" -> << << "ControlEvent", Published(x, i, orders) >> >>
    [] k = "Subscribe" -> << << "EventMapping", << Opt(x, x.p[x.p[i]], "Id"), Opt(x, x.p[i], "Id"), Opt(x, i, "Event"), Opt(x, i, "Attribute") >> >> >>
    [] k = "RadioButton" ->
         << << "RadioButton", << Opt(x, x.p[i], "Property"), Num(Cardinality({ j \in DOMAIN x.n : x.p[j] = x.p[i] /\ j <= i })), Opt(x, i, "Value"),
               NumAt(x, i, "X", 0), NumAt(x, i, "Y", 0), NumAt(x, i, "Width", 0), NumAt(x, i, "Height", 0), Opt(x, i, "Text"), Opt(x, i, "Help") >> >> >>
    [] k = "TextStyle" ->
         << << "TextStyle", << id, Opt(x, i, "FaceName"), NumAt(x, i, "Size", 0),
               IF Has(x, i, "Red") \/ Has(x, i, "Green") \/ Has(x, i, "Blue")
               THEN Num(NumAt(x, i, "Red", 0)[2] + 256 * NumAt(x, i, "Green", 0)[2] + 65536 * NumAt(x, i, "Blue", 0)[2]) ELSE Null,
               Some(Sum(<< Bit(Yes(x, i, "Bold"), 1), Bit(Yes(x, i, "Italic"), 2), Bit(Yes(x, i, "Underline"), 4), Bit(Yes(x, i, "Strike"), 8) >>)) >> >> >>
    [] k = "UIText" -> << << "UIText", << id, IF Has(x, i, "Value") THEN Opt(x, i, "Value") ELSE Txt(Strip(x.t[i])) >> >> >>
    [] k = "ProgressText" -> << << "ActionText", << Opt(x, i, "Action"), Txt(Strip(x.t[i])), Opt(x, i, "Template") >> >> >>
    [] OTHER -> << >>
AllUiRows(x) == LET orders == Orders(x) IN FoldLeft(LAMBDA acc, i : acc \o UiRows(x, i, orders), << >>, [ i \in DOMAIN x.n |-> i ])

(* -------------------------------- refusals ------------------------------- *)
UiMissing(x) ==
  \/ \E i \in DOMAIN x.n : x.n[i] \in DOMAIN UiRequired /\ \E k \in UiRequired[x.n[i]] : ~Has(x, i, k)
  \/ \E i \in All(x, "Dialog") : KidsOf(x, i, "Control") = << >>
  \/ \E i \in All(x, "Publish") : Parent(x, i) = "UI" /\ ~Has(x, i, "Dialog")
  \/ \E i \in All(x, "Text") : Has(x, i, "SourceFile") /\ FileText(x, At(x, i, "SourceFile")) = << >>
UiRefused(rows) ==
  \/ \E k \in DOMAIN rows : LET t == rows[k][1] c == rows[k][2] IN
       \/ \E j \in Needed[t] : c[j] = Null
       \/ \E j \in Short[t] : c[j][1] = "i" /\ c[j][2] \notin -32767..32767
  \/ Cardinality({ << rows[k][1], SubSeq(rows[k][2], 1, KeyLen[rows[k][1]]) >> : k \in DOMAIN rows }) # Len(rows)

(* ------------------------------ the extension ---------------------------- *)
InLib(w, n) == { k \in DOMAIN w.lib : w.lib[k][1] = n }
Behind2(els, more) == els \o [ k \in DOMAIN more |-> [ more[k] EXCEPT ![2] = IF @ = 0 THEN 0 ELSE @ + Len(els) ] ]
AttrOf(e, k) == LET c == { q \in ToSet(e[3]) : q[1] = k } IN IF c = {} THEN "" ELSE (CHOOSE q \in c : TRUE)[2]
Defines(els, kind, id) == \E e \in ToSet(els) : e[1] = kind /\ << "Id", id >> \in ToSet(e[3])
(* what an element refers to: nothing, or <<kind, name>> *)
Refers(els, e) ==
  CASE e[1] = "UIRef" -> << "UI", AttrOf(e, "Id") >> [] e[1] = "DialogRef" -> << "Dialog", AttrOf(e, "Id") >>
    [] e[1] = "Publish" /\ els[e[2]][1] = "UI" -> << "Dialog", AttrOf(e, "Dialog") >> [] OTHER -> << >>
RECURSIVE Loaded(_, _, _)
(* the document with everything that it refers to, from element i on *)
Loaded(w, els, i) ==
  IF i > Len(els) THEN << els >>
  ELSE LET q == Refers(els, els[i]) IN
       IF q = << >> THEN Loaded(w, els, i + 1)
       ELSE IF Defines(els, q[1], q[2]) THEN Loaded(w, els, i + 1)
       ELSE IF ~w.ext \/ InLib(w, q[2]) = {} THEN << >>
       ELSE Loaded(w, TLCEval(Behind2(els, w.lib[CHOOSE k \in InLib(w, q[2]) : TRUE][2])), i + 1)
(* there are always the dialog that asks whether to stop and what is common *)
Whole0(w, els) ==
  IF ~w.ext THEN Loaded(w, els, 1)
  ELSE IF InLib(w, "CancelDlg") = {} \/ InLib(w, "Common") = {} THEN << >>
  ELSE Loaded(w, TLCEval(Behind2(Behind2(w.lib[CHOOSE k \in InLib(w, "CancelDlg") : TRUE][2], w.lib[CHOOSE k \in InLib(w, "Common") : TRUE][2]), els)), 1)

UiStep(els, op) ==
  IF op[1] # "build" THEN DocStep(els, op)
  ELSE LET all == TLCEval(Whole0(op[2], els)) x == TLCEval(Doc(all[1], op[2])) IN
       IF all = << >> THEN [s |-> els, r |-> << "fail" >>]
       ELSE IF UiMissing(x) THEN [s |-> els, r |-> << "fail" >>]
       ELSE LET rows == TLCEval(AllUiRows(x)) IN
            [s |-> els, r |-> IF UiRefused(rows) \/ (~op[2].ext /\ \E k \in DOMAIN rows : rows[k][1] # "ActionText") THEN << "fail" >> ELSE << "pkg", rows, op[2].ext >>]
Same(have, want) == Len(have) = Cardinality(want) /\ ToSet(have) = want
UiMatch(op, obs, r) ==
  IF r[1] # "pkg" THEN obs = r
  ELSE obs[1] = "pkg" /\ LET bad == { t \in IF r[3] THEN UiTables ELSE {"ActionText"} : ~Same(TabOf(obs[2], t), { r[2][k][2] : k \in { k \in DOMAIN r[2] : r[2][k][1] = t } }) } IN
       bad = {} \/ (PrintT(<< "WRONG", bad >>) /\ FALSE)

(* what is built hangs together *)
UiColumn(rows, t, ks) == { [ k \in DOMAIN ks |-> rows[j][2][ks[k]] ] : j \in { j \in DOMAIN rows : rows[j][1] = t } }
UiWhole(rows) ==
  LET controls == UiColumn(rows, "Control", << 1, 2 >>) IN
  /\ UiColumn(rows, "Control", << 1 >>) = UiColumn(rows, "Dialog", << 1 >>)
  /\ \A t \in {"ControlCondition", "EventMapping"} : UiColumn(rows, t, << 1, 2 >>) \subseteq controls
  /\ UiColumn(rows, "ControlEvent", << 1 >>) \subseteq UiColumn(rows, "Dialog", << 1 >>)
  /\ \A c \in {8, 9, 10} : \A q \in UiColumn(rows, "Dialog", << 1, c >>) : q[2] = Null \/ q \in controls
  (* following the tab order from a control leads back to it *)
  /\ \A d \in UiColumn(rows, "Dialog", << 1 >>) :
       LET nx == { q \in UiColumn(rows, "Control", << 1, 2, 11 >>) : q[1] = d[1] /\ q[3] # Null } IN
       /\ { q[3] : q \in nx } = { q[2] : q \in nx }
       /\ \A a \in SUBSET { q[2] : q \in nx } : (a # {} /\ \A q \in nx : q[2] \in a => q[3] \in a) => a = { q[2] : q \in nx }
UiStepOk(els, op, y) == op[1] = "build" /\ y.r[1] = "pkg" => UiWhole(y.r[2])
=============================================================================
