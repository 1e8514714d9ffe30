------------------------------- MODULE WixDoc -------------------------------
(* What a wixl document denotes.  A document is the sequence of the elements *)
(* of all its files in document order; an element is                         *)
(*   <<name, index of its parent or 0, <<<<attribute, value>>, ...>>, text>> *)
(*                                                                           *)
(* <<"el", name, parent, attributes, text>>  adds the last child of a parent *)
(* <<"els", elements>>  adds whole files behind what there is                *)
(* <<"set", element, attribute, value>>, <<"cut", element, attribute>>       *)
(* <<"build", world>>  builds the document, where world has                  *)
(*   arch: "x86" or "x64";  dirs: where the files of the document are;       *)
(*   files: <<<<path, size, <<h1, h2, h3, h4>>, digest>>, ...>> on the disk. *)
(* It answers <<"fail">> and leaves no package, or                           *)
(* <<"pkg", [tabs, streams, cabs, sum]>> (see WhatIsWrong).                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC, IOUtils, SequencesExt, FiniteSetsExt, DecText

Null == << "n" >>
Txt(v) == IF v = "" THEN Null ELSE << "s", v >>
Num(k) == << "i", k >>
Gen == << "g" >>          (* a generated identifier *)
Varies == << "*" >>          (* determined elsewhere *)

(* ------------------------------ characters ------------------------------ *)
Ch(t, k) == SubSeq(t, k, k)
UpMap == [ a |-> "A", b |-> "B", c |-> "C", d |-> "D", e |-> "E", f |-> "F", g |-> "G", h |-> "H", i |-> "I", j |-> "J", k |-> "K", l |-> "L", m |-> "M",
           n |-> "N", o |-> "O", p |-> "P", q |-> "Q", r |-> "R", s |-> "S", t |-> "T", u |-> "U", v |-> "V", w |-> "W", x |-> "X", y |-> "Y", z |-> "Z" ]
LowMap == [ c \in { UpMap[x] : x \in DOMAIN UpMap } |-> CHOOSE x \in DOMAIN UpMap : UpMap[x] = c ]
Mapped(m, t) == FoldLeft(LAMBDA acc, k : acc \o (IF Ch(t, k) \in DOMAIN m THEN m[Ch(t, k)] ELSE Ch(t, k)), "", [ k \in 1..Len(t) |-> k ])
Up(t) == Mapped(UpMap, t)
Low(t) == Mapped(LowMap, t)
Starts(t, p) == Len(t) >= Len(p) /\ SubSeq(t, 1, Len(p)) = p
IsYes(t) == t # "" /\ Ch(t, 1) \in {"y", "Y"}
Braced(t) == IF Starts(t, "{") THEN t ELSE "{" \o t \o "}"
Basename(t) == LET cut == { k \in 1..Len(t) : Ch(t, k) = "/" } IN IF cut = {} THEN t ELSE SubSeq(t, Max(cut) + 1, Len(t))
JoinWith(q, sep) == FoldLeft(LAMBDA acc, k : IF k = 1 THEN q[1] ELSE acc \o sep \o q[k], "", [ k \in 1..Len(q) |-> k ])

(* ------------------------------- elements ------------------------------- *)
(* x: a document with its world *)
Doc(els, w) ==
  [ n |-> [ i \in DOMAIN els |-> els[i][1] ], p |-> [ i \in DOMAIN els |-> els[i][2] ], t |-> [ i \in DOMAIN els |-> els[i][4] ],
    a |-> [ i \in DOMAIN els |-> [ k \in { q[1] : q \in ToSet(els[i][3]) } |-> (CHOOSE q \in ToSet(els[i][3]) : q[1] = k)[2] ] ],
    w |-> w ]
Has(x, i, k) == k \in DOMAIN x.a[i]
At(x, i, k) == IF Has(x, i, k) THEN x.a[i][k] ELSE ""
Or(x, i, k, v) == IF Has(x, i, k) THEN x.a[i][k] ELSE v
Opt(x, i, k) == Txt(At(x, i, k))
Yes(x, i, k) == IsYes(At(x, i, k))
Id(x, i) == At(x, i, "Id")
Parent(x, i) == IF x.p[i] = 0 THEN "" ELSE x.n[x.p[i]]
All(x, kind) == { i \in DOMAIN x.n : x.n[i] = kind }
Kids(x, i) == SelectSeq([ j \in DOMAIN x.n |-> j ], LAMBDA j : x.p[j] = i)
KidsOf(x, i, kind) == SelectSeq([ j \in DOMAIN x.n |-> j ], LAMBDA j : x.p[j] = i /\ x.n[j] = kind)
Named(x, kind, id) == { i \in All(x, kind) : Has(x, i, "Id") /\ Id(x, i) = id }
(* what a reference refers to, 0 if nothing *)
Target(x, kind, id) == LET c == Named(x, kind, id) IN IF c = {} THEN 0 ELSE Min(c)
RECURSIVE Above(_, _, _)
(* the closest enclosing element of a kind *)
Above(x, i, kind) == IF x.p[i] = 0 THEN 0 ELSE IF x.n[x.p[i]] = kind THEN x.p[i] ELSE Above(x, x.p[i], kind)

Required == [ k \in {"RegistrySearch", "Property", "Icon", "Shortcut", "File", "IniFile", "RegistryValue", "RemoveFolder", "Feature", "Condition", "MIME",
                     "ServiceControl", "ServiceDependency", "ServiceInstall", "Verb", "Extension", "ProgId", "Upgrade", "UpgradeVersion", "CustomAction",
                     "Binary", "Product", "Media", "RegistryKey", "Component", "Directory", "ComponentGroup", "DirectoryRef", "ComponentRef",
                     "ComponentGroupRef", "Custom", "Show"} |->
  CASE k = "RegistrySearch" -> {"Id", "Root", "Key", "Type"} [] k \in {"Icon", "Binary"} -> {"Id", "SourceFile"} [] k = "Shortcut" -> {"Id", "Name"}
    [] k = "IniFile" -> {"Id", "Action", "Name", "Section", "Key"} [] k = "RegistryValue" -> {"Type", "Value"} [] k = "RemoveFolder" -> {"Id", "On"}
    [] k = "Condition" -> {"Message"} [] k = "MIME" -> {"ContentType"} [] k = "ServiceControl" -> {"Id", "Name"}
    [] k = "ServiceInstall" -> {"Id", "Name", "Type", "Start", "ErrorControl"} [] k = "Verb" -> {"Id", "TargetFile"} [] k = "UpgradeVersion" -> {"Property"}
    [] k = "Product" -> {"Id", "Name", "Version", "Manufacturer", "Language"} [] k = "Media" -> {"Id", "Cabinet"} [] k = "RegistryKey" -> {"Key"}
    [] k = "Component" -> {"Id", "Guid"} [] k = "Custom" -> {"Action"} [] k = "Show" -> {"Dialog"} [] OTHER -> {"Id"} ]

(* ------------------------------ directories ------------------------------ *)
RefTo(x, i, refkind, kind) == IF x.n[i] = kind THEN i ELSE IF x.n[i] = refkind THEN Target(x, kind, Id(x, i)) ELSE 0
(* the directory of a component, 0 if there is none *)
DirOf(x, c) ==
  LET q == x.p[c] IN
  IF x.n[q] = "ComponentGroup" THEN (IF Has(x, q, "Directory") THEN Target(x, "Directory", At(x, q, "Directory")) ELSE 0)
  ELSE RefTo(x, q, "DirectoryRef", "Directory")
Comp(x, i) == Above(x, i, "Component")
DirName(x, i) == Or(x, i, "Name", Id(x, i))
RECURSIVE DirPath(_, _, _)
(* depth bounds the recursion in documents whose directories refer to each other *)
DirPath(x, i, depth) ==
  IF depth = 0 THEN << >>
  ELSE IF x.n[i] = "DirectoryRef" THEN (LET j == Target(x, "Directory", Id(x, i)) IN IF j = 0 THEN << >> ELSE DirPath(x, j, depth - 1))
  ELSE IF Parent(x, i) \in {"Directory", "DirectoryRef"} THEN DirPath(x, x.p[i], depth - 1) \o << DirName(x, i) >>
  ELSE << DirName(x, i) >>

(* ------------------------------- key paths ------------------------------- *)
KeyKids(x, c) == SelectSeq([ j \in DOMAIN x.n |-> j ], LAMBDA j : x.n[j] \in {"File", "RegistryValue"} /\ (x.p[j] = c \/ (x.p[j] # 0 /\ x.n[x.p[j]] = "RegistryKey" /\ x.p[x.p[j]] = c)))
KeyYes(x, c) == SelectSeq(KeyKids(x, c), LAMBDA j : Yes(x, j, "KeyPath"))
KeyOf(x, c) == LET y == KeyYes(x, c) k == KeyKids(x, c) IN IF y # << >> THEN y[1] ELSE IF k # << >> THEN k[1] ELSE 0

RegKeyOf(x, i) == IF Parent(x, i) = "RegistryKey" THEN (IF Has(x, i, "Key") THEN At(x, x.p[i], "Key") \o "\\" \o At(x, i, "Key") ELSE At(x, x.p[i], "Key")) ELSE At(x, i, "Key")
RegRootOf(x, i) == IF Has(x, i, "Root") THEN At(x, i, "Root") ELSE IF Parent(x, i) = "RegistryKey" THEN At(x, x.p[i], "Root") ELSE ""
Roots == [ r \in {"hkcr", "hkcu", "hklm", "hku", "hkmu"} |-> CASE r = "hkcr" -> 0 [] r = "hkcu" -> 1 [] r = "hklm" -> 2 [] r = "hku" -> 3 [] OTHER -> -1 ]
(* what tells one generated registry row from another *)
RegIdent(c, root, key, name) == << c, root, key, name >>

(* -------------------------------- features ------------------------------- *)
IsTop(x, f) == Parent(x, f) # "Feature"
(* the displayed positions of all features: a counter that starts over at    *)
(* every top feature; odd numbers show expanded, even ones collapsed         *)
Displays(x) ==
  LET step(acc, f) ==
        LET c == IF IsTop(x, f) THEN 0 ELSE acc.c
            d == Or(x, f, "Display", "collapse")
            even == IF c % 2 = 0 THEN c + 2 ELSE c + 1
            odd == IF c % 2 = 0 THEN c + 1 ELSE c + 2
            r == CASE d = "collapse" -> << even, even >> [] d = "expand" -> << odd, odd >> [] d = "hidden" -> << 0, c >>
                   [] OTHER -> << DecimalOf(d), IF DecimalOf(d) = 0 THEN c ELSE DecimalOf(d) >>
        IN  [c |-> r[2], m |-> Append(acc.m, << f, r[1] >>)]
  IN  ToSet(FoldLeft(step, [c |-> 0, m |-> << >>], SelectSeq([ j \in DOMAIN x.n |-> j ], LAMBDA j : x.n[j] = "Feature")).m)
FeatureBits(x, f) ==
  (CASE At(x, f, "InstallDefault") = "followparent" -> 2 [] At(x, f, "InstallDefault") = "source" -> 1 [] OTHER -> 0)
  + (CASE At(x, f, "AllowAdvertise") = "no" -> 8 [] At(x, f, "AllowAdvertise") = "system" -> 32 [] OTHER -> 0)
  + (IF At(x, f, "TypicalDefault") = "advertise" THEN 4 ELSE 0)
  + (IF At(x, f, "Absent") = "disallow" THEN 16 ELSE 0)

RECURSIVE GroupComps(_, _, _)
(* the components of a group, through groups inside it *)
GroupComps(x, g, depth) ==
  IF depth = 0 \/ g = 0 THEN {}
  ELSE UNION { CASE x.n[j] = "Component" -> {j} [] x.n[j] = "ComponentRef" -> { Target(x, "Component", Id(x, j)) }
                 [] x.n[j] = "ComponentGroupRef" -> GroupComps(x, Target(x, "ComponentGroup", Id(x, j)), depth - 1) [] OTHER -> {} : j \in ToSet(Kids(x, g)) }
Depth0 == 8
FeatureComps(x, f) ==
  UNION { CASE x.n[j] = "ComponentRef" -> { Target(x, "Component", Id(x, j)) }
            [] x.n[j] = "ComponentGroupRef" -> GroupComps(x, Target(x, "ComponentGroup", Id(x, j)), Depth0) [] OTHER -> {} : j \in ToSet(Kids(x, f)) }
InFeatures(x, c) == { f \in All(x, "Feature") : c \in FeatureComps(x, f) }
RECURSIVE GroupsUnder(_, _, _)
GroupsUnder(x, gs, depth) ==
  IF depth = 0 THEN gs
  ELSE GroupsUnder(x, gs \union { Target(x, "ComponentGroup", Id(x, j)) : j \in { k \in All(x, "ComponentGroupRef") : x.p[k] \in gs } }, depth - 1)
Cyclic(x, g) == g \in GroupsUnder(x, { Target(x, "ComponentGroup", Id(x, j)) : j \in { k \in All(x, "ComponentGroupRef") : x.p[k] = g } }, Depth0)
UsedGroups(x) == GroupsUnder(x, { Target(x, "ComponentGroup", Id(x, j)) : j \in { k \in All(x, "ComponentGroupRef") : Parent(x, k) = "Feature" } }, Depth0)

(* the feature a shortcut without a target installs: the first to have its   *)
(* component, in the order of the references                                 *)
FirstFeature(x, c) ==
  LET refs == { j \in All(x, "ComponentRef") \union All(x, "ComponentGroupRef") : Parent(x, j) = "Feature"
                /\ (IF x.n[j] = "ComponentRef" THEN Target(x, "Component", Id(x, j)) = c ELSE c \in GroupComps(x, Target(x, "ComponentGroup", Id(x, j)), Depth0)) }
  IN  IF refs = {} THEN 0 ELSE x.p[Min(refs)]

(* --------------------------------- files --------------------------------- *)
FileName(x, i) == IF Has(x, i, "Name") THEN At(x, i, "Name") ELSE Basename(At(x, i, "Source"))
SourceOf(x, i) == IF Has(x, i, "Source") THEN At(x, i, "Source") ELSE FileName(x, i)
InDir(d, q) == IF d = "." THEN q ELSE d \o "/" \o q
(* the file on the disk a source names, <<>> if there is none *)
OnDisk(x, src) ==
  LET ds == SelectSeq(<< "." >> \o x.w.dirs, LAMBDA d : \E f \in ToSet(x.w.files) : f[1] = InDir(d, src)) IN
  IF ds = << >> THEN << >> ELSE CHOOSE f \in ToSet(x.w.files) : f[1] = InDir(ds[1], src)
Disk(x, i) == Or(x, i, "DiskId", "1")
(* the cabinets of the document: <<disk, cabinet, embedded, prompt>> *)
MediaOf(x, i) == IF x.n[i] = "MediaTemplate" THEN << "1", "cab1.cab", Yes(x, i, "EmbedCab"), Null >> ELSE << Id(x, i), At(x, i, "Cabinet"), Yes(x, i, "EmbedCab"), Opt(x, i, "DiskPrompt") >>
Medias(x) == { MediaOf(x, i) : i \in All(x, "Media") \union All(x, "MediaTemplate") }
Packed(x) == { i \in All(x, "File") : InFeatures(x, Comp(x, i)) # {} }

(* ---------------------------------- rows --------------------------------- *)
(* rows of an element: <<table, what is unique about it, cells>> *)
Row(t, k, r) == << << t, k, r >> >>
Reg(c, root, key, name, value, ident) == Row("Registry", << "*", ident >>, << Gen, Num(root), Txt(key), name, value, Txt(c) >>)
RegValueText(x, i) ==
  LET v == At(x, i, "Value") IN
  CASE At(x, i, "Type") = "integer" -> "#" \o v
    [] At(x, i, "Type") = "string" -> IF Starts(v, "#") THEN "#" \o v ELSE v
    [] At(x, i, "Type") = "binary" -> IF Starts(v, "#x") THEN v ELSE "#x" \o v
    [] At(x, i, "Type") = "expandable" -> IF Starts(v, "#%") THEN v ELSE "#%" \o v
    [] OTHER -> v
Mode(v, in, un) == CASE v = "install" -> in [] v = "uninstall" -> un [] v = "both" -> in + un [] OTHER -> 0
CustomType(x, i) ==
  CASE Has(x, i, "DllEntry") -> << 1, At(x, i, "BinaryKey"), At(x, i, "DllEntry"), Has(x, i, "BinaryKey") >>
    [] Has(x, i, "JScriptCall") -> << 5, At(x, i, "BinaryKey"), At(x, i, "JScriptCall"), Has(x, i, "BinaryKey") >>
    [] Has(x, i, "ExeCommand") /\ ~Has(x, i, "FileKey") -> << 50, At(x, i, "Property"), At(x, i, "ExeCommand"), Has(x, i, "Property") >>
    [] Has(x, i, "ExeCommand") -> << 18, At(x, i, "FileKey"), At(x, i, "ExeCommand"), TRUE >>
    [] Has(x, i, "Property") /\ Has(x, i, "Value") -> << 51, At(x, i, "Property"), At(x, i, "Value"), TRUE >>
    [] OTHER -> << 0, "", "", FALSE >>
Scripted(x, i) == At(x, i, "Execute") \in {"deferred", "rollback", "commit"}
CustomBits(x, i) ==
  (CASE At(x, i, "Execute") = "firstSequence" -> 256 [] At(x, i, "Execute") = "oncePerProcess" -> 512 [] At(x, i, "Execute") = "clientRepeat" -> 768
     [] At(x, i, "Execute") = "deferred" -> 1024 [] At(x, i, "Execute") = "rollback" -> 1280 [] At(x, i, "Execute") = "commit" -> 1536 [] OTHER -> 0)
  + (CASE At(x, i, "Return") = "ignore" -> 64 [] At(x, i, "Return") = "asyncWait" -> 128 [] At(x, i, "Return") = "asyncNoWait" -> 192 [] OTHER -> 0)
  + (IF Scripted(x, i) /\ ~Yes(x, i, "Impersonate") THEN 2048 ELSE 0)
Wide(x, i) == IF Has(x, i, "Win64") THEN Yes(x, i, "Win64") ELSE x.w.arch # "x86"
Upgrade(code, min, max, bits, prop) == Row("Upgrade", << code, min, max, bits >>, << Txt(Up(Braced(code))), min, max, Null, Num(bits), Null, Txt(prop) >>)
Hash(x, i) ==
  IF Has(x, i, "CompanionFile") \/ Has(x, i, "DefaultVersion") \/ i \notin Packed(x) THEN << >>
  ELSE LET h == OnDisk(x, SourceOf(x, i))[3] IN Row("MsiFileHash", << Id(x, i) >>, << Opt(x, i, "Id"), Num(0), Num(h[1]), Num(h[2]), Num(h[3]), Num(h[4]) >>)
Prop(k, v) == Row("Property", << k >>, << Txt(k), v >>)

Rows(x, i) ==
  LET k == x.n[i] id == Id(x, i) c == Comp(x, i) cid == IF c = 0 THEN "" ELSE Id(x, c) IN
  CASE k = "Product" ->
         Prop("Manufacturer", Opt(x, i, "Manufacturer")) \o Prop("ProductLanguage", Opt(x, i, "Language"))
         \o Prop("ProductCode", IF id = "*" THEN Gen ELSE Txt(Up(Braced(id)))) \o Prop("ProductName", Opt(x, i, "Name")) \o Prop("ProductVersion", Opt(x, i, "Version"))
         \o (IF Has(x, i, "UpgradeCode") THEN Prop("UpgradeCode", Txt(Up(Braced(At(x, i, "UpgradeCode"))))) ELSE << >>)
    [] k = "Package" -> IF At(x, i, "InstallScope") = "perMachine" THEN Prop("ALLUSERS", Txt("1")) ELSE << >>
    [] k = "Property" -> IF Has(x, i, "Value") THEN Prop(id, Opt(x, i, "Value")) ELSE << >>
    [] k = "RegistrySearch" ->
         LET prop == Id(x, x.p[i]) IN
         Row("AppSearch", << prop, id >>, << Txt(prop), Txt(id) >>)
         \o Row("RegLocator", << id >>, << Txt(id), Num(Roots[Low(At(x, i, "Root"))]), Opt(x, i, "Key"), Opt(x, i, "Name"),
              Num((CASE Low(At(x, i, "Type")) = "directory" -> 0 [] Low(At(x, i, "Type")) = "file" -> 1 [] OTHER -> 2) + (IF Wide(x, i) THEN 16 ELSE 0)) >>)
    [] k = "Condition" -> Row("LaunchCondition", << x.t[i] >>, << Txt(x.t[i]), Opt(x, i, "Message") >>)
    [] k = "Icon" -> Row("Icon", << id >>, << Txt(id), << "b", OnDisk(x, At(x, i, "SourceFile"))[4] >> >>)
    [] k = "Binary" -> Row("Binary", << id >>, << Txt(id), << "b", OnDisk(x, At(x, i, "SourceFile"))[4] >> >>)
    [] k \in {"Media", "MediaTemplate"} ->
         LET m == MediaOf(x, i) IN
         Row("Media", << m[1] >>, << Num(DecimalOf(m[1])), Varies, m[4], Txt((IF m[3] THEN "#" ELSE "") \o m[2]), Null, Null >>)
    [] k = "Directory" ->
         LET up == IF Parent(x, i) \in {"Directory", "DirectoryRef"} THEN RefTo(x, x.p[i], "DirectoryRef", "Directory") ELSE 0 IN
         Row("Directory", << id >>, << Txt(id), IF up = 0 THEN Null ELSE Txt(Id(x, up)), Txt(Or(x, i, "Name", ".")) >>)
    [] k = "Component" ->
         LET y == KeyOf(x, i) g == At(x, i, "Guid") IN
         Row("Component", << id >>,
           << Txt(id), IF g = "*" THEN Gen ELSE IF g = "" THEN Null ELSE Txt(Up(Braced(g))), Txt(Id(x, DirOf(x, i))),
              Num((IF y # 0 /\ x.n[y] = "RegistryValue" THEN 4 ELSE 0) + (IF Yes(x, i, "Permanent") THEN 16 ELSE 0) + (IF Wide(x, i) THEN 256 ELSE 0)), Null,
              IF y = 0 THEN Null ELSE IF x.n[y] = "RegistryValue" /\ ~Has(x, y, "Id") THEN << "g", RegRootOf(x, y), RegKeyOf(x, y), At(x, y, "Name") >> ELSE Opt(x, y, "Id") >>)
    [] k = "Feature" ->
         Row("Feature", << id >>,
           << Txt(id), IF IsTop(x, i) THEN Null ELSE Txt(Id(x, x.p[i])), Opt(x, i, "Title"), Opt(x, i, "Description"), Num((CHOOSE q \in Displays(x) : q[1] = i)[2]),
              Num(DecimalOf(Or(x, i, "Level", "1"))), Opt(x, i, "ConfigurableDirectory"), Num(FeatureBits(x, i)) >>)
         \o FoldLeft(LAMBDA acc, q : acc \o Row("FeatureComponents", << id, Id(x, q) >>, << Txt(id), Txt(Id(x, q)) >>), << >>, SetToSeq(FeatureComps(x, i)))
    [] k = "RemoveFolder" -> Row("RemoveFile", << id >>, << Txt(id), Txt(cid), Null, Txt(Id(x, DirOf(x, c))), Num(Mode(At(x, i, "On"), 1, 2)) >>)
    [] k = "CreateFolder" -> LET d == Or(x, i, "Directory", Id(x, DirOf(x, c))) IN Row("CreateFolder", << d, cid >>, << Txt(d), Txt(cid) >>)
    [] k = "RegistryValue" ->
         LET key == RegKeyOf(x, i) root == RegRootOf(x, i)
             cells == << Num(Roots[Low(root)]), Txt(key), Opt(x, i, "Name"), Txt(RegValueText(x, i)), Txt(cid) >> IN
         IF Has(x, i, "Id") THEN Row("Registry", << "id", id >>, << Txt(id) >> \o cells)
         ELSE Row("Registry", << "*", RegIdent(cid, root, key, IF Has(x, i, "Name") THEN << Low(At(x, i, "Name")) >> ELSE << >>) >>, << Gen >> \o cells)
    [] k = "File" ->
         LET f == OnDisk(x, SourceOf(x, i)) IN
         Row("File", << id >>, << Txt(id), Txt(cid), Txt(FileName(x, i)), Num(f[2]), IF Has(x, i, "CompanionFile") THEN Opt(x, i, "CompanionFile") ELSE Opt(x, i, "DefaultVersion"), Null, Num(512), Varies >>)
         \o Hash(x, i)
    [] k = "IniFile" ->
         LET act == CASE At(x, i, "Action") = "addLine" -> 0 [] At(x, i, "Action") = "createLine" -> 1 [] At(x, i, "Action") = "removeLine" -> 2 [] At(x, i, "Action") = "addTag" -> 3 [] OTHER -> 4 IN
         Row(IF act \in {2, 4} THEN "RemoveIniFile" ELSE "IniFile", << id >>,
             << Txt(id), Opt(x, i, "Name"), Opt(x, i, "Directory"), Opt(x, i, "Section"), Opt(x, i, "Key"), Opt(x, i, "Value"), Num(act), Txt(cid) >>)
    [] k = "Shortcut" ->
         Row("Shortcut", << id >>,
           << Txt(id), IF Has(x, i, "Directory") THEN Opt(x, i, "Directory") ELSE Txt(Id(x, DirOf(x, c))), Opt(x, i, "Name"), Txt(cid),
              IF Has(x, i, "Target") THEN Opt(x, i, "Target") ELSE Txt(Id(x, FirstFeature(x, c))), Opt(x, i, "Arguments"), Opt(x, i, "Description"), Null, Opt(x, i, "Icon"),
              IF Has(x, i, "IconIndex") THEN Num(DecimalOf(At(x, i, "IconIndex"))) ELSE Null, Null, Opt(x, i, "WorkingDirectory"), Null, Null, Null, Null >>)
    [] k = "ServiceControl" ->
         LET args == KidsOf(x, i, "ServiceArgument") IN
         Row("ServiceControl", << id >>,
           << Txt(id), Opt(x, i, "Name"), Num(Mode(At(x, i, "Start"), 1, 16) + Mode(At(x, i, "Stop"), 2, 32) + Mode(At(x, i, "Remove"), 8, 128)),
              Txt(JoinWith([ j \in DOMAIN args |-> x.t[args[j]] ], "[~]")), IF Has(x, i, "Wait") THEN Num(IF Yes(x, i, "Wait") THEN 1 ELSE 0) ELSE Null, Txt(cid) >>)
    [] k = "ServiceInstall" ->
         LET deps == KidsOf(x, i, "ServiceDependency") IN
         Row("ServiceInstall", << id >>,
           << Txt(id), Opt(x, i, "Name"), Opt(x, i, "DisplayName"), Num((IF At(x, i, "Type") = "ownProcess" THEN 16 ELSE 32) + (IF Yes(x, i, "Interactive") THEN 256 ELSE 0)),
              Num(CASE At(x, i, "Start") = "auto" -> 2 [] At(x, i, "Start") = "demand" -> 3 [] OTHER -> 4),
              Num(CASE At(x, i, "ErrorControl") = "ignore" -> 0 [] At(x, i, "ErrorControl") = "normal" -> 1 [] OTHER -> 3), Opt(x, i, "LoadOrderGroup"),
              IF deps = << >> THEN Null ELSE Txt(FoldLeft(LAMBDA acc, j : acc \o (IF Yes(x, j, "Group") THEN "+" ELSE "") \o Id(x, j) \o "[~]", "", deps) \o "[~]"),
              Opt(x, i, "Account"), Opt(x, i, "Password"), Opt(x, i, "Arguments"), Txt(cid), IF Yes(x, i, "EraseDescription") THEN Txt("[~]") ELSE Opt(x, i, "Description") >>)
    [] k = "ProgId" -> Reg(cid, 0, id, Null, Opt(x, i, "Description"), << "progid", cid, id >>)
    [] k = "Extension" ->
         (IF Has(x, i, "ContentType") THEN Reg(cid, 0, "." \o id, Txt("Content Type"), Opt(x, i, "ContentType"), << "type", cid, id >>) ELSE << >>)
         \o Reg(cid, 0, "." \o id, Null, Txt(Id(x, x.p[i])), << "ext", cid, id >>)
    [] k = "Verb" ->
         LET pid == Id(x, x.p[x.p[i]]) key == pid \o "\\shell\\" \o id IN
         Reg(cid, 0, key, Null, IF id = "open" THEN Txt("Open") ELSE Opt(x, i, "Command"), << "verb", cid, pid, id >>)
         \o Reg(cid, 0, key \o "\\command", Null, Txt("\"[#" \o At(x, i, "TargetFile") \o "]\"" \o (IF Has(x, i, "Argument") THEN " " \o At(x, i, "Argument") ELSE "")), << "command", cid, pid, id >>)
    [] k = "MIME" -> Reg(cid, 0, "MIME\\Database\\Content Type\\" \o At(x, i, "ContentType"), Txt("Extension"), Txt("." \o Id(x, x.p[i])), << "mime", cid, At(x, i, "ContentType") >>)
    [] k = "UpgradeVersion" ->
         Upgrade(Id(x, x.p[i]), Opt(x, i, "Minimum"), Opt(x, i, "Maximum"),
           (IF Yes(x, i, "MigrateFeatures") THEN 1 ELSE 0) + (IF Yes(x, i, "OnlyDetect") THEN 2 ELSE 0)
           + (IF ~Has(x, i, "IncludeMinimum") \/ Yes(x, i, "IncludeMinimum") THEN 256 ELSE 0) + (IF Yes(x, i, "IncludeMaximum") THEN 512 ELSE 0), At(x, i, "Property"))
    [] k = "MajorUpgrade" ->
         LET code == At(x, x.p[i], "UpgradeCode") v == Opt(x, x.p[i], "Version") IN
         Upgrade(code, v, Null, IF At(x, i, "AllowDowngrades") = "yes" THEN 1 ELSE 2, "WIX_DOWNGRADE_DETECTED")
         \o (IF At(x, i, "AllowSameVersionUpgrades") = "yes" THEN Upgrade(code, v, v, 769, "WIX_SAME_VERSION_UPGRADE_DETECTED") ELSE << >>)
         \o Upgrade(code, Null, v, 1, "WIX_UPGRADE_DETECTED")
         \o (IF Has(x, i, "DowngradeErrorMessage") /\ At(x, i, "AllowDowngrades") # "yes" THEN Row("LaunchCondition", << "NOT WIX_DOWNGRADE_DETECTED" >>, << Txt("NOT WIX_DOWNGRADE_DETECTED"), Opt(x, i, "DowngradeErrorMessage") >>) ELSE << >>)
    [] k = "CustomAction" -> LET q == CustomType(x, i) IN Row("CustomAction", << id >>, << Txt(id), Num(q[1] + CustomBits(x, i)), Txt(q[2]), Txt(q[3]), Null >>)
    [] OTHER -> << >>

SecureOf(x, i) ==
  CASE x.n[i] = "UpgradeVersion" -> << At(x, i, "Property") >>
    [] x.n[i] = "Property" /\ Yes(x, i, "Secure") -> << Id(x, i) >>
    [] x.n[i] = "MajorUpgrade" -> << "WIX_DOWNGRADE_DETECTED" >> \o (IF At(x, i, "AllowSameVersionUpgrades") = "yes" THEN << "WIX_SAME_VERSION_UPGRADE_DETECTED" >> ELSE << >>) \o << "WIX_UPGRADE_DETECTED" >>
    [] OTHER -> << >>
Secure(x) == FoldLeft(LAMBDA acc, i : acc \o SecureOf(x, i), << >>, [ i \in DOMAIN x.n |-> i ])

Tables == { "AdminExecuteSequence", "AdminUISequence", "AdvtExecuteSequence", "InstallExecuteSequence", "InstallUISequence", "Directory", "Media", "Property", "Icon",
            "Binary", "Component", "Feature", "FeatureComponents", "RemoveFile", "Registry", "ServiceControl", "ServiceInstall", "File", "IniFile", "RemoveIniFile",
            "Shortcut", "Upgrade", "LaunchCondition", "AppSearch", "Signature", "CustomAction", "ActionText", "RegLocator", "CreateFolder", "MsiFileHash", "Error" }
Sequences5 == { "AdminExecuteSequence", "AdminUISequence", "AdvtExecuteSequence", "InstallExecuteSequence", "InstallUISequence" }

(* ---------------------------- what is refused ---------------------------- *)
Missing(x) == \E i \in DOMAIN x.n : x.n[i] \in DOMAIN Required /\ \E k \in Required[x.n[i]] : ~Has(x, i, k)
OneOf(x, k, vs) == LET kind == k[1] attr == k[2] IN \A i \in All(x, kind) : Has(x, i, attr) => At(x, i, attr) \in vs
OddValues(x) ==
  \/ ~OneOf(x, << "RegistryValue", "Type" >>, {"string", "integer", "binary", "expandable", "multistring"})
  \/ \E i \in All(x, "RegistryValue") : Low(RegRootOf(x, i)) \notin DOMAIN Roots
  \/ \E i \in All(x, "RegistrySearch") : Low(At(x, i, "Root")) \notin DOMAIN Roots \/ Low(At(x, i, "Type")) \notin {"directory", "file", "raw"}
  \/ ~OneOf(x, << "RemoveFolder", "On" >>, {"install", "uninstall", "both"})
  \/ \E k \in {"Start", "Stop", "Remove"} : ~OneOf(x, << "ServiceControl", k >>, {"install", "uninstall", "both"})
  \/ ~OneOf(x, << "ServiceInstall", "Type" >>, {"ownProcess", "shareProcess"}) \/ ~OneOf(x, << "ServiceInstall", "Start" >>, {"auto", "demand", "disabled"})
  \/ ~OneOf(x, << "ServiceInstall", "ErrorControl" >>, {"ignore", "normal", "critical"})
  \/ ~OneOf(x, << "Feature", "InstallDefault" >>, {"followparent", "local", "source"}) \/ ~OneOf(x, << "Feature", "AllowAdvertise" >>, {"no", "system", "yes"})
  \/ ~OneOf(x, << "Feature", "TypicalDefault" >>, {"advertise", "install"}) \/ ~OneOf(x, << "Feature", "Absent" >>, {"allow", "disallow"})
  \/ ~OneOf(x, << "IniFile", "Action" >>, {"addLine", "createLine", "removeLine", "addTag", "removeTag"})
  \/ ~OneOf(x, << "Package", "InstallScope" >>, {"perUser", "perMachine"})
Unresolved(x) ==
  \/ \E i \in All(x, "ComponentRef") : Target(x, "Component", Id(x, i)) = 0
  \/ \E i \in All(x, "ComponentGroupRef") : Target(x, "ComponentGroup", Id(x, i)) = 0
  \/ \E i \in All(x, "DirectoryRef") : Target(x, "Directory", Id(x, i)) = 0
  \/ \E i \in All(x, "Component") : DirOf(x, i) = 0
  \/ \E i \in All(x, "Feature") : Has(x, i, "ConfigurableDirectory") /\ Target(x, "Directory", At(x, i, "ConfigurableDirectory")) = 0
  \/ \E i \in All(x, "CreateFolder") : Has(x, i, "Directory") /\ Target(x, "Directory", At(x, i, "Directory")) = 0
  \/ \E i \in All(x, "Shortcut") : Has(x, i, "Icon") /\ Target(x, "Icon", At(x, i, "Icon")) = 0
  \/ \E i \in All(x, "Verb") : Target(x, "File", At(x, i, "TargetFile")) = 0
  \/ \E i \in All(x, "CustomAction") : LET q == CustomType(x, i) IN (q[1] \in {1, 5} /\ Target(x, "Binary", q[2]) = 0) \/ (q[1] = 18 /\ Target(x, "File", q[2]) = 0)
  \/ \E i \in All(x, "Custom") : Target(x, "CustomAction", At(x, i, "Action")) = 0
  \/ \E i \in All(x, "File") : Has(x, i, "CompanionFile") /\ Target(x, "File", At(x, i, "CompanionFile")) = 0
  \/ \E i \in Packed(x) : ~\E m \in Medias(x) : m[1] = Disk(x, i)
  \/ \E i \in All(x, "File") : OnDisk(x, SourceOf(x, i)) = << >>
  \/ \E i \in All(x, "Icon") \union All(x, "Binary") : OnDisk(x, At(x, i, "SourceFile")) = << >>
Wrong(x) ==
  \/ \E i \in All(x, "Directory") : Parent(x, i) \in {"Product", "Fragment"} /\ Id(x, i) # "TARGETDIR"
  \/ \E i \in All(x, "Component") : Len(KeyYes(x, i)) > 1 \/ (At(x, i, "Guid") = "*" /\ KeyOf(x, i) = 0)
  \/ \E i \in All(x, "Feature") : At(x, i, "AllowAdvertise") = "no" /\ At(x, i, "TypicalDefault") = "advertise"
  \/ \E i \in UsedGroups(x) : i # 0 /\ Cyclic(x, i)
  \/ \E i \in All(x, "RegistryValue") : RegRootOf(x, i) = "" \/ (Parent(x, i) # "RegistryKey" /\ ~Has(x, i, "Key"))
  \/ \E i \in All(x, "File") : ~Has(x, i, "Name") /\ ~Has(x, i, "Source")
  \/ \E i \in All(x, "File") : Has(x, i, "CompanionFile") /\ KeyOf(x, Comp(x, i)) = i
  \/ \E i \in All(x, "Shortcut") : ~Has(x, i, "Target") /\ FirstFeature(x, Comp(x, i)) = 0
  \/ \E i \in All(x, "Condition") : x.t[i] = ""
  \/ \E i \in All(x, "UpgradeVersion") : ~Has(x, i, "Minimum") /\ ~Has(x, i, "Maximum")
  \/ \E i \in All(x, "CustomAction") : ~CustomType(x, i)[4]
  \/ \E i \in All(x, "MajorUpgrade") : ~Has(x, x.p[i], "UpgradeCode")
  \/ \E i \in All(x, "ProgId") : Yes(x, i, "Advertise")
AllRows(x) == FoldLeft(LAMBDA acc, i : acc \o Rows(x, i), << >>, [ i \in DOMAIN x.n |-> i ]) \o (LET q == Secure(x) IN IF q = << >> THEN << >> ELSE Prop("SecureCustomProperties", Txt(JoinWith(q, ";"))))
Clash(rows) == Cardinality({ << rows[k][1], rows[k][2] >> : k \in DOMAIN rows }) # Len(rows)
Bad(x) == Missing(x) \/ OddValues(x) \/ Wrong(x) \/ Unresolved(x)

(* ------------------------------ the package ------------------------------ *)
TabOf(q, t) == LET c == { k \in DOMAIN q.tabs : q.tabs[k][1] = t } IN IF Cardinality(c) = 1 THEN q.tabs[CHOOSE k \in c : TRUE][2] ELSE << << "no such table", t >> >>
(* cells that the document does not determine *)
Blank(q, t, r) ==
  CASE t = "Media" -> [ r EXCEPT ![2] = Varies ]
    [] t = "File" -> [ r EXCEPT ![8] = Varies ]
    [] t = "Registry" /\ r[1][1] = "g" -> [ r EXCEPT ![1] = Gen ]
    (* a generated key path is told by the row it names *)
    [] t = "Component" /\ r[6][1] = "g" ->
         (LET c == { p \in ToSet(TabOf(q, "Registry")) : p[1] = r[6] } IN
          IF Cardinality(c) # 1 THEN r
          ELSE LET p == CHOOSE p \in c : TRUE IN
               [ r EXCEPT ![6] = << "reg", p[2], p[3], p[4], p[6] = r[1] >> ])
    [] OTHER -> r
Expected(x, rows, t) ==
  { LET r == rows[k][3] IN
    IF t = "Component" /\ r[6][1] = "g" THEN [ r EXCEPT ![6] = << "reg", Num(Roots[Low(r[6][2])]), Txt(r[6][3]), Txt(r[6][4]), TRUE >> ] ELSE r
    : k \in { k \in DOMAIN rows : rows[k][1] = t } }
(* identifiers in canonical form are given with "u" *)
Cell(want, got) == want = got \/ (want = Gen /\ got[1] = "u") \/ (want[1] = "s" /\ got = << "u", want[2] >>)
RowIs(want, got) == Len(want) = Len(got) /\ \A k \in DOMAIN want : Cell(want[k], got[k])
SameRows(want, got) == Cardinality(want) = Len(got) /\ \A w \in want : \E k \in DOMAIN got : RowIs(w, got[k])
TableOk(x, rows, q, t) ==
  LET got == TabOf(q, t) IN SameRows(Expected(x, rows, t), [ k \in DOMAIN got |-> Blank(q, t, got[k]) ])

SumWant(x) ==
  LET pr == IF All(x, "Product") = {} THEN 0 ELSE Min(All(x, "Product"))  pk == IF All(x, "Package") = {} THEN 0 ELSE Min(All(x, "Package"))
      name == IF pr = 0 THEN "" ELSE At(x, pr, "Name")
      opt(k, v) == IF v = Null THEN {} ELSE { << k, v >> }
  IN  { << 1, Num(IF pr # 0 /\ Has(x, pr, "Codepage") THEN DecimalOf(At(x, pr, "Codepage")) ELSE 1252) >>, << 2, Txt("Installation Database") >>,
        << 5, IF pk # 0 /\ Has(x, pk, "Keywords") THEN Opt(x, pk, "Keywords") ELSE Txt("Installer") >>,
        << 7, Txt((IF x.w.arch = "x86" THEN "Intel" ELSE "x64") \o ";1033") >>, << 9, Gen >>,
        << 14, Num(IF pk # 0 /\ Has(x, pk, "InstallerVersion") THEN DecimalOf(At(x, pk, "InstallerVersion")) ELSE IF x.w.arch = "x86" THEN 100 ELSE 200) >>, << 19, Num(2) >> }
      \union opt(3, IF pk # 0 /\ Has(x, pk, "Description") THEN Opt(x, pk, "Description") ELSE Txt(name))
      \union opt(4, IF pr = 0 THEN Null ELSE Opt(x, pr, "Manufacturer"))
      \union opt(6, IF pk # 0 /\ Has(x, pk, "Comments") THEN Opt(x, pk, "Comments") ELSE IF pr = 0 THEN Null ELSE Txt("This installer database contains the logic and data required to install " \o name \o "."))
      \union (IF pk = 0 THEN {} ELSE { << 15, Num(IF At(x, pk, "InstallScope") = "perUser" THEN 10 ELSE 2) >> })
(* sum: <<<<property, cell>>, ...>> but for the times and the program's name *)
SumOk(x, q) == LET want == SumWant(x) IN Len(q.sum) = Cardinality(want) /\ \A w \in want : \E k \in DOMAIN q.sum : q.sum[k][1] = w[1] /\ Cell(w[2], q.sum[k][2])

(* streams: <<<<name, digest>>, ...>>;  cabs: <<<<cabinet, embedded, <<<<file, size, digest>>, ...>>>>, ...>> *)
StreamsWant(x) ==
  { << "Icon." \o Id(x, i), OnDisk(x, At(x, i, "SourceFile"))[4] >> : i \in All(x, "Icon") } \union { << "Binary." \o Id(x, i), OnDisk(x, At(x, i, "SourceFile"))[4] >> : i \in All(x, "Binary") }
StreamsOk(x, q) ==
  LET want == StreamsWant(x) cabs == { m[2] : m \in { m \in Medias(x) : m[3] } } IN
  { q.streams[k][1] : k \in DOMAIN q.streams } = { w[1] : w \in want } \union cabs
  /\ \A k \in DOMAIN q.streams : q.streams[k][1] \in cabs \/ << q.streams[k][1], q.streams[k][2] >> \in want
SeqNo(q, id) == LET c == { k \in DOMAIN TabOf(q, "File") : TabOf(q, "File")[k][1] = Txt(id) } IN IF Cardinality(c) = 1 THEN TabOf(q, "File")[CHOOSE k \in c : TRUE][8][2] ELSE 0
LastOf(q, m) == LET c == { k \in DOMAIN TabOf(q, "Media") : TabOf(q, "Media")[k][1] = Num(DecimalOf(m[1])) } IN IF Cardinality(c) = 1 THEN TabOf(q, "Media")[CHOOSE k \in c : TRUE][2][2] ELSE 0
(* every file in the cabinet of its media, in the order of the sequences,    *)
(* which are in the range of the media                                       *)
CabsOk(x, q) ==
  /\ { << q.cabs[k][1], q.cabs[k][2] >> : k \in DOMAIN q.cabs } = { << m[2], m[3] >> : m \in Medias(x) } /\ Len(q.cabs) = Cardinality(Medias(x))
  /\ Cardinality({ SeqNo(q, Id(x, i)) : i \in Packed(x) }) = Cardinality(Packed(x))
  /\ \A m \in Medias(x) :
       LET mine == { i \in Packed(x) : Disk(x, i) = m[1] }
           got == q.cabs[CHOOSE k \in DOMAIN q.cabs : q.cabs[k][1] = m[2]][3]
           before == { LastOf(q, o) : o \in { o \in Medias(x) : LastOf(q, o) < LastOf(q, m) } }
       IN  /\ Len(got) = Cardinality(mine)
           /\ \A i \in mine : LET f == OnDisk(x, SourceOf(x, i)) IN
                /\ SeqNo(q, Id(x, i)) <= LastOf(q, m) /\ SeqNo(q, Id(x, i)) > (IF before = {} THEN 0 ELSE Max(before))
                /\ \E k \in DOMAIN got : got[k] = << Id(x, i), f[2], f[4] >>
           /\ \A j, k \in DOMAIN got : j < k => SeqNo(q, got[j][1]) < SeqNo(q, got[k][1])

WhatIsWrong(x, rows, q) ==
  { t \in Tables \ Sequences5 : ~TableOk(x, rows, q, t) }
  \union (IF { q.tabs[k][1] : k \in DOMAIN q.tabs } = Tables THEN {} ELSE {"tables"})
  \union (IF SumOk(x, q) THEN {} ELSE {"summary"}) \union (IF StreamsOk(x, q) THEN {} ELSE {"streams"}) \union (IF CabsOk(x, q) THEN {} ELSE {"cabinets"})

(* ---------------------------------- steps -------------------------------- *)
DocEmpty == << >>
(* the index behind the last element inside p *)
Behind(els, p) == IF p = 0 THEN Len(els) + 1 ELSE LET c == { j \in (p + 1)..Len(els) : els[j][2] < p } IN IF c = {} THEN Len(els) + 1 ELSE Min(c)
Added(els, e) ==
  LET at == Behind(els, e[2]) IN
  SubSeq(els, 1, at - 1) \o << e >> \o [ j \in 1..(Len(els) - at + 1) |-> LET y == els[at + j - 1] IN [ y EXCEPT ![2] = IF @ >= at THEN @ + 1 ELSE @ ] ]
Without(q, k) == SelectSeq(q, LAMBDA y : y[1] # k)
DocStep(els, op) ==
  CASE op[1] = "el" -> [s |-> Added(els, << op[2], op[3], op[4], op[5] >>), r |-> << "ok" >>]
    [] op[1] = "els" -> [s |-> els \o op[2], r |-> << "ok" >>]
    [] op[1] = "set" -> [s |-> [els EXCEPT ![op[2]] = [ @ EXCEPT ![3] = IF \E y \in ToSet(@) : y[1] = op[3] THEN [ k \in DOMAIN @ |-> IF @[k][1] = op[3] THEN << op[3], op[4] >> ELSE @[k] ] ELSE Append(@, << op[3], op[4] >>) ] ], r |-> << "ok" >>]
    [] op[1] = "cut" -> [s |-> [els EXCEPT ![op[2]] = [ @ EXCEPT ![3] = Without(@, op[3]) ] ], r |-> << "ok" >>]
    [] op[1] = "build" ->
         LET x == TLCEval(Doc(els, op[2])) IN
         IF Bad(x) THEN [s |-> els, r |-> << "fail" >>]
         ELSE LET rows == TLCEval(AllRows(x)) IN [s |-> els, r |-> IF Clash(rows) THEN << "fail" >> ELSE << "pkg", x, rows >>]
(* the property that is judged: what is in the cabinets and the streams, or  *)
(* the rows of the elements                                                  *)
Contents == {"File", "Media", "MsiFileHash", "Icon", "Binary", "streams", "cabinets", "tables"}
Mine(w) == IF "PROP" \notin DOMAIN IOEnv THEN w ELSE IF IOEnv.PROP = "W02" THEN w \cap Contents ELSE w \ (Contents \ {"File", "Media", "tables"})
Why(w) == Mine(w) = {} \/ (PrintT(<< "WRONG", w >>) /\ FALSE)
DocMatch(op, obs, r) ==
  IF r[1] # "pkg" THEN obs = r
  ELSE obs[1] = "pkg" /\ Why(WhatIsWrong(r[2], r[3], obs[2]))

(* what is built hangs together: rows name rows that are there *)
Column(rows, t, k) == { rows[j][3][k] : j \in { j \in DOMAIN rows : rows[j][1] = t } }
Whole(x, rows) ==
  /\ Column(rows, "FeatureComponents", 1) \subseteq Column(rows, "Feature", 1) /\ Column(rows, "FeatureComponents", 2) \subseteq Column(rows, "Component", 1)
  /\ Column(rows, "Feature", 2) \subseteq Column(rows, "Feature", 1) \union {Null} /\ Column(rows, "Feature", 7) \subseteq Column(rows, "Directory", 1) \union {Null}
  /\ Column(rows, "Component", 3) \subseteq Column(rows, "Directory", 1) /\ Column(rows, "Directory", 2) \subseteq Column(rows, "Directory", 1) \union {Null}
  /\ \A q \in { << "File", 2 >>, << "Registry", 6 >>, << "Shortcut", 4 >>, << "ServiceInstall", 12 >>, << "ServiceControl", 6 >>, << "IniFile", 8 >>, << "RemoveFile", 2 >>, << "CreateFolder", 2 >> } :
       Column(rows, q[1], q[2]) \subseteq Column(rows, "Component", 1)
  /\ Column(rows, "MsiFileHash", 1) \subseteq Column(rows, "File", 1) /\ Column(rows, "CreateFolder", 1) \subseteq Column(rows, "Directory", 1)
  /\ \A i \in Packed(x) : \E m \in Medias(x) : m[1] = Disk(x, i)
  (* siblings are displayed at different places *)
  /\ \A f, g \in All(x, "Feature") : f # g /\ x.p[f] = x.p[g] /\ ~IsTop(x, f) => LET d == [ h \in {f, g} |-> (CHOOSE q \in Displays(x) : q[1] = h)[2] ] IN d[f] = 0 \/ d[f] # d[g] \/ Has(x, f, "Display") \/ Has(x, g, "Display")
DocStepOk(els, op, y) == op[1] = "build" /\ y.r[1] = "pkg" => Whole(y.r[2], y.r[3])
DocOk(els) == \A i \in DOMAIN els : els[i][2] < i /\ \A j \in (els[i][2] + 1)..(i - 1) : els[j][2] >= els[i][2]
=============================================================================
