------------------------------- MODULE MC_Ui --------------------------------
(* A large user interface with one or two changes (PART 1), and small ones   *)
(* over the controls (2) and the events (3) of dialogs.                      *)
EXTENDS WixUi, MCRun
TheDepth == EnvInt("DEPTH", 2)
ThePart == EnvInt("PART", 1)
El(n, p, a, t) == << "el", n, p, a, t >>
Start == << El("Wix", 0, << >>, ""), El("Product", 1, << << "Id", "*" >>, << "Name", "p" >>, << "Version", "1" >>, << "Manufacturer", "m" >>, << "Language", "1033" >> >>, ""),
            El("Fragment", 1, << >>, ""), El("UI", 3, << << "Id", "U1" >> >>, "") >>
Dlg(i) == El("Dialog", 4, << << "Id", i >>, << "Width", "370" >>, << "Height", "270" >> >>, "")
Ctl(p, i, t) == El("Control", p, << << "Id", i >>, << "Type", t >> >>, "")
Base == Start \o << Dlg("D1"),
  El("Control", 5, << << "Id", "C1" >>, << "Type", "PushButton" >>, << "X", "1" >>, << "Y", "2" >>, << "Width", "3" >>, << "Height", "4" >>, << "Default", "yes" >>, << "Text", "Next" >> >>, ""),
  El("Publish", 6, << << "Event", "NewDialog" >>, << "Value", "D2" >> >>, " NOT Installed "),
  El("Publish", 6, << << "Property", "P" >>, << "Order", "4" >> >>, ""),
  El("Subscribe", 6, << << "Event", "ActionText" >>, << "Attribute", "Text" >> >>, ""),
  El("Control", 5, << << "Id", "C2" >>, << "Type", "CheckBox" >>, << "Property", "Q" >>, << "CheckBoxValue", "1" >>, << "Cancel", "yes" >> >>, ""),
  El("Control", 5, << << "Id", "C3" >>, << "Type", "RadioButtonGroup" >>, << "Property", "R" >>, << "ShowCondition", "A" >> >>, ""),
  El("RadioButtonGroup", 11, << << "Property", "R" >> >>, ""),
  El("RadioButton", 12, << << "Value", "a" >>, << "X", "5" >>, << "Y", "6" >>, << "Width", "7" >>, << "Height", "8" >>, << "Text", "t" >> >>, ""),
  El("RadioButton", 12, << << "Value", "b" >>, << "X", "5" >>, << "Y", "16" >>, << "Width", "7" >>, << "Height", "8" >>, << "Help", "h" >> >>, ""),
  El("Control", 5, << << "Id", "C4" >>, << "Type", "ScrollableText" >>, << "Text", "old" >> >>, ""), El("Text", 15, << << "SourceFile", "t1.txt" >> >>, ""),
  Dlg("D2"), Ctl(17, "C1", "Line"), Ctl(17, "C5", "Text"), El("Text", 19, << >>, " inner text "),
  El("Publish", 4, << << "Dialog", "D2" >>, << "Control", "C5" >>, << "Event", "EndDialog" >>, << "Value", "Return" >>, << "Condition", "Z" >> >>, ""),
  El("TextStyle", 4, << << "Id", "T1" >>, << "FaceName", "Tahoma" >>, << "Size", "8" >>, << "Blue", "1" >>, << "Bold", "yes" >> >>, ""),
  El("UIText", 4, << << "Id", "X1" >> >>, "bytes"), El("UIText", 4, << << "Id", "X2" >>, << "Value", "GB" >> >>, ""),
  El("ProgressText", 4, << << "Action", "A1" >>, << "Template", "[1]" >> >>, " doing "), El("ProgressText", 4, << << "Action", "A2" >> >>, ""),
  El("DialogRef", 4, << << "Id", "D2" >> >>, ""), El("UIRef", 3, << << "Id", "U1" >> >>, "") >>
Lib(d, more) == << << "Wix", 0, << >>, "" >>, << "Fragment", 1, << >>, "" >>, << "UI", 2, << << "Id", d >> >>, "" >>,
                  << "Dialog", 3, << << "Id", d >>, << "Width", "1" >>, << "Height", "1" >> >>, "" >>, << "Control", 4, << << "Id", "C1" >>, << "Type", "Text" >> >>, "" >> >> \o more
World(e) == << "build", [ext |-> e, files |-> << << "t1.txt", "a license\n" >>, << "t2.txt", "" >> >>,
  lib |-> IF ~e THEN << >>
          ELSE << << "CancelDlg", Lib("CancelDlg", << >>) >>, << "Common", << << "Wix", 0, << >>, "" >>, << "Fragment", 1, << >>, "" >> >> >>,
                  << "Lib1", Lib("Lib1", << << "Publish", 3, << << "Dialog", "Lib2" >>, << "Control", "C1" >>, << "Event", "E" >>, << "Value", "v" >> >>, "" >> >>) >>,
                  << "Lib2", Lib("Lib2", << << "DialogRef", 3, << << "Id", "Lib1" >> >>, "" >> >>) >> >>] >>

YesNo == {"Default", "Cancel", "Disabled", "ElevationShield", "Fixed", "FixedSize", "Hidden", "NoPrefix", "ProgressBlocks", "Remote", "ShowRollbackCost", "Sunken", "Indirect", "Icon",
          "Bitmap", "TabSkip", "Transparent", "CustomPalette", "ErrorDialog", "KeepModeless", "LeftScroll", "Modeless", "NoMinimize", "RightAligned", "RightToLeft", "TrackDiskSpace",
          "Bold", "Italic", "Underline", "Strike"}
Vals(n, k) ==
  CASE k \in YesNo -> {"yes", "no"} [] k \in {"X", "Y", "Width", "Height", "Size", "Order"} -> {"0", "32767", "32768"} [] k \in {"Red", "Green", "Blue"} -> {"0", "255"}
    [] k = "IconSize" -> {"16", "32", "48", "x"} [] k = "Type" -> {"Edit", "Bitmap", "Icon", "CheckBox"} [] k = "Dialog" \/ n = "DialogRef" -> {"D1", "none", "Lib1"} [] n = "UIRef" -> {"none", "Lib2"}
    [] n = "Dialog" /\ k = "Id" -> {"D3"} [] n = "Control" /\ k = "Id" -> {"C2", "C9"} [] k = "SourceFile" -> {"t2.txt", "none.txt"} [] k \in {"Id", "Action"} -> {"X1", "A1", "N"}
    [] k = "Property" -> {"Q", "N"} [] OTHER -> {"new"}
More == [ n \in {"Dialog", "Control", "Publish", "TextStyle", "RadioButton"} |->
  CASE n = "Dialog" -> {"Title", "Hidden", "CustomPalette", "ErrorDialog", "KeepModeless", "LeftScroll", "Modeless", "NoMinimize", "RightAligned", "RightToLeft", "TrackDiskSpace"}
    [] n = "Control" -> {"CheckBoxValue", "Default", "Cancel", "Disabled", "ElevationShield", "Fixed", "FixedSize", "Hidden", "NoPrefix", "ProgressBlocks", "Remote", "ShowRollbackCost", "Sunken",
                         "Indirect", "Icon", "Bitmap", "TabSkip", "Transparent", "IconSize", "Property", "Text", "X", "Height", "DefaultCondition", "DisableCondition", "EnableCondition",
                         "HideCondition", "ShowCondition"}
    [] n = "Publish" -> {"Order", "Condition", "Property", "Value"} [] n = "TextStyle" -> {"Red", "Green", "Italic", "Underline", "Strike"} [] OTHER -> {"Text", "Help"} ]
Changes(x) ==
  UNION { IF x[i][1] \in {"Wix", "Product", "Fragment", "UI"} THEN {}
          ELSE { << "cut", i, a[1] >> : a \in ToSet(x[i][3]) }
               \union UNION { { << "set", i, k, v >> : v \in Vals(x[i][1], k) } : k \in { a[1] : a \in ToSet(x[i][3]) } \union (IF x[i][1] \in DOMAIN More THEN More[x[i][1]] ELSE {}) }
        : i \in DOMAIN x }

(* 2: which controls are in the tab order *)
Of(x, n) == { i \in DOMAIN x : x[i][1] = n }
KidCount(x, i) == Cardinality({ j \in DOMAIN x : x[j][2] = i })
Controls(x) ==
  { El("Control", i, << << "Id", "C" \o ToString(KidCount(x, i) + 1) >>, << "Type", t >> >> \o a, "") : i \in Of(x, "Dialog"), t \in {"PushButton", "Text", "Edit"},
      a \in { << >>, << << "TabSkip", "yes" >> >>, << << "Default", "yes" >> >>, << << "Cancel", "yes" >>, << "TabSkip", "no" >> >> } }
  \union (IF Cardinality(Of(x, "Dialog")) = 1 THEN { Dlg("D2") } ELSE {})
(* 3: the order of the events *)
Two == Start \o << Dlg("D1"), Ctl(5, "C1", "PushButton"), Ctl(5, "C2", "PushButton"), El("Wix", 0, << >>, ""), El("Fragment", 8, << >>, ""), El("UI", 9, << >>, "") >>
PId(x) == << "Value", ToString(Cardinality(Of(x, "Publish"))) >>
Events(x) ==
  { El("Publish", i, << << "Event", "E" >>, PId(x) >> \o a, t) : i \in Of(x, "Control"), a \in { << >>, << << "Order", "2" >> >>, << << "Order", "7" >>, << "Condition", "c" >> >> }, t \in {"", "d"} }
  \union { El("Publish", i, << << "Dialog", d >>, << "Control", "C1" >>, << "Event", "E" >>, PId(x) >>, "") : i \in Of(x, "UI"), d \in {"D1", "D2", "Lib1"} }
  \union { El("Publish", i, a, "") : i \in Of(x, "Control"), a \in { << << "Property", "P" >> >>, << << "Event", "E" >> >>, << << "Event", "E" >>, << "Value", "0" >> >> } }
  \union (IF Cardinality(Of(x, "Dialog")) = 1 THEN { El("Dialog", Max(Of(x, "UI")), << << "Id", "D2" >>, << "Width", "1" >>, << "Height", "1" >> >>, "") } ELSE { Ctl(i, "C1", "Text") : i \in { i \in Of(x, "Dialog") : KidCount(x, i) = 0 } })

ThePrelude == CASE ThePart = 1 -> Base [] ThePart = 2 -> Start \o << Dlg("D1") >> [] OTHER -> Two
Edits(x) == CASE ThePart = 1 -> Changes(x) [] ThePart = 2 -> Controls(x) [] OTHER -> Events(x)
(* (the last states are not left) *)
TheOps(x) == { World(e) : e \in IF ThePart = 2 THEN {TRUE} ELSE BOOLEAN } \union (IF Len(hist) + 1 >= TheDepth THEN {} ELSE Edits(x))
=============================================================================
