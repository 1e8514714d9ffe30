------------------------------- MODULE MC_Doc -------------------------------
(* A large document with one or two changes (PART 1), and small documents    *)
(* over one family of elements at a time.                                    *)
EXTENDS WixDoc, MCRun
TheDepth == EnvInt("DEPTH", 2)
ThePart == EnvInt("PART", 1)
El(n, p, a, t) == << "el", n, p, a, t >>
Base == << << "el", "Wix", 0, <<  >>, "" >>,
            << "el", "Product", 1, << << "Id", "*" >>, << "Name", "prod" >>, << "Version", "1.0" >>, << "Manufacturer", "man" >>, << "Language", "1033" >>, << "UpgradeCode", "22222222-2222-2222-2222-222222222222" >>, << "Codepage", "1252" >> >>, "" >>,
            << "el", "Package", 2, << << "Keywords", "k" >>, << "Description", "d" >>, << "Comments", "c" >>, << "InstallerVersion", "200" >>, << "InstallScope", "perMachine" >> >>, "" >>,
            << "el", "Media", 2, << << "Id", "1" >>, << "Cabinet", "a.cab" >>, << "EmbedCab", "yes" >>, << "DiskPrompt", "dp" >> >>, "" >>,
            << "el", "Property", 2, << << "Id", "P1" >>, << "Value", "v1" >> >>, "" >>,
            << "el", "Property", 2, << << "Id", "P2" >> >>, "" >>,
            << "el", "RegistrySearch", 6, << << "Id", "RS1" >>, << "Root", "HKLM" >>, << "Key", "k" >>, << "Name", "n" >>, << "Type", "raw" >>, << "Win64", "no" >> >>, "" >>,
            << "el", "Condition", 2, << << "Message", "msg" >> >>, "VersionNT" >>,
            << "el", "Icon", 2, << << "Id", "I1" >>, << "SourceFile", "f1.txt" >> >>, "" >>,
            << "el", "Binary", 2, << << "Id", "B1" >>, << "SourceFile", "f1.txt" >> >>, "" >>,
            << "el", "CustomAction", 2, << << "Id", "CA1" >>, << "BinaryKey", "B1" >>, << "DllEntry", "e" >>, << "Execute", "deferred" >>, << "Return", "ignore" >>, << "Impersonate", "no" >> >>, "" >>,
            << "el", "CustomAction", 2, << << "Id", "CA2" >>, << "Property", "P1" >>, << "Value", "x" >> >>, "" >>,
            << "el", "CustomAction", 2, << << "Id", "CA3" >>, << "Property", "P1" >>, << "ExeCommand", "x" >> >>, "" >>,
            << "el", "CustomAction", 2, << << "Id", "CA4" >>, << "FileKey", "F1" >>, << "ExeCommand", "x" >> >>, "" >>,
            << "el", "Upgrade", 2, << << "Id", "33333333-3333-3333-3333-333333333333" >> >>, "" >>,
            << "el", "UpgradeVersion", 15, << << "Minimum", "1.0" >>, << "Maximum", "2.0" >>, << "Property", "UP1" >>, << "OnlyDetect", "yes" >> >>, "" >>,
            << "el", "MajorUpgrade", 2, << << "DowngradeErrorMessage", "dem" >> >>, "" >>,
            << "el", "Directory", 2, << << "Id", "TARGETDIR" >>, << "Name", "SourceDir" >> >>, "" >>,
            << "el", "Directory", 18, << << "Id", "PF" >>, << "Name", "PFiles" >> >>, "" >>,
            << "el", "Directory", 19, << << "Id", "D1" >>, << "Name", "dir1" >> >>, "" >>,
            << "el", "Component", 20, << << "Id", "C1" >>, << "Guid", "11111111-1111-1111-1111-111111111111" >> >>, "" >>,
            << "el", "File", 21, << << "Id", "F1" >>, << "Source", "f1.txt" >>, << "Name", "f1.txt" >>, << "KeyPath", "yes" >> >>, "" >>,
            << "el", "Shortcut", 22, << << "Id", "S1" >>, << "Name", "sn" >>, << "Directory", "PF" >>, << "Icon", "I1" >>, << "WorkingDirectory", "D1" >> >>, "" >>,
            << "el", "File", 21, << << "Id", "F2" >>, << "Source", "f2.txt" >>, << "CompanionFile", "F1" >> >>, "" >>,
            << "el", "RegistryValue", 21, << << "Root", "HKLM" >>, << "Key", "rk" >>, << "Name", "rn" >>, << "Type", "string" >>, << "Value", "rv" >> >>, "" >>,
            << "el", "RegistryKey", 21, << << "Root", "HKCU" >>, << "Key", "par" >> >>, "" >>,
            << "el", "RegistryValue", 26, << << "Key", "rk2" >>, << "Name", "rn" >>, << "Type", "integer" >>, << "Value", "5" >> >>, "" >>,
            << "el", "ServiceInstall", 21, << << "Id", "SI1" >>, << "Name", "svc" >>, << "Type", "ownProcess" >>, << "Start", "auto" >>, << "ErrorControl", "normal" >> >>, "" >>,
            << "el", "ServiceDependency", 28, << << "Id", "dep" >>, << "Group", "yes" >> >>, "" >>,
            << "el", "ServiceControl", 21, << << "Id", "SC1" >>, << "Name", "svc" >>, << "Start", "install" >>, << "Stop", "both" >>, << "Remove", "uninstall" >>, << "Wait", "yes" >> >>, "" >>,
            << "el", "ServiceArgument", 30, <<  >>, "arg" >>,
            << "el", "ProgId", 21, << << "Id", "PI" >>, << "Description", "pd" >> >>, "" >>,
            << "el", "Extension", 32, << << "Id", "ext" >>, << "ContentType", "a/b" >> >>, "" >>,
            << "el", "Verb", 33, << << "Id", "open" >>, << "TargetFile", "F1" >>, << "Argument", "\"%1\"" >>, << "Command", "Open" >> >>, "" >>,
            << "el", "MIME", 33, << << "ContentType", "a/b" >>, << "Default", "yes" >> >>, "" >>,
            << "el", "CreateFolder", 21, <<  >>, "" >>,
            << "el", "RemoveFolder", 21, << << "Id", "RF1" >>, << "On", "uninstall" >> >>, "" >>,
            << "el", "Feature", 2, << << "Id", "FE1" >>, << "Title", "t" >>, << "Level", "1" >>, << "Display", "expand" >>, << "ConfigurableDirectory", "D1" >>, << "AllowAdvertise", "no" >>, << "Absent", "disallow" >>, << "InstallDefault", "local" >>, << "TypicalDefault", "install" >> >>, "" >>,
            << "el", "ComponentRef", 38, << << "Id", "C1" >> >>, "" >>,
            << "el", "Feature", 38, << << "Id", "FE2" >>, << "Level", "2" >> >>, "" >>,
            << "el", "ComponentGroupRef", 40, << << "Id", "G1" >> >>, "" >>,
            << "el", "ComponentRef", 38, << << "Id", "C2" >> >>, "" >>,
            << "el", "InstallExecuteSequence", 2, <<  >>, "" >>,
            << "el", "Custom", 43, << << "Action", "CA1" >>, << "After", "InstallFiles" >> >>, "NOT X" >>,
            << "el", "Custom", 43, << << "Action", "CA2" >>, << "Before", "CostInitialize" >> >>, "" >>,
            << "el", "StartServices", 43, << << "Sequence", "5000" >> >>, "" >>,
            << "el", "InstallUISequence", 2, <<  >>, "" >>,
            << "el", "Custom", 47, << << "Action", "CA2" >>, << "After", "CostFinalize" >> >>, "" >>,
            << "el", "Fragment", 1, <<  >>, "" >>,
            << "el", "DirectoryRef", 49, << << "Id", "D1" >> >>, "" >>,
            << "el", "Component", 50, << << "Id", "C2" >>, << "Guid", "*" >> >>, "" >>,
            << "el", "File", 51, << << "Id", "F3" >>, << "Source", "f3.txt" >> >>, "" >>,
            << "el", "ComponentGroup", 49, << << "Id", "G1" >>, << "Directory", "D1" >> >>, "" >>,
            << "el", "Component", 53, << << "Id", "C3" >>, << "Guid", "*" >> >>, "" >>,
            << "el", "File", 54, << << "Id", "F4" >>, << "Source", "f4.txt" >> >>, "" >>,
            << "el", "ComponentRef", 53, << << "Id", "C2" >> >>, "" >>,
            << "el", "ComponentGroupRef", 53, << << "Id", "G2" >> >>, "" >>,
            << "el", "ComponentGroup", 49, << << "Id", "G2" >> >>, "" >>,
            << "el", "ComponentRef", 58, << << "Id", "C1" >> >>, "" >> >>

Disk1(p, hex) == << p, Len(hex) \div 2, << 1, 2, 3, 4 >>, hex, hex >>
Files == << Disk1("f1.txt", "6f6e65"), Disk1("f2.txt", "74776f210a"), Disk1("f3.txt", ""), Disk1("f4.txt", "00ff10"), Disk1("sub/f2.txt", "7375622f7477"), Disk1("sub/f5.txt", "35") >>
World(arch, dirs) == << "build", [arch |-> arch, dirs |-> dirs, files |-> Files] >>
Roots1(x) == Len(SelectSeq(x, LAMBDA e : e[2] = 0))

(* 1: other values *)
Guid1 == "{aaaaaaaa-BBBB-cccc-DDDD-eeeeeeeeeeee}"
Vals(n, k) ==
  CASE k \in {"EmbedCab", "KeyPath", "Impersonate", "Win64", "Secure", "Permanent", "Group", "Wait", "Interactive", "EraseDescription", "OnlyDetect", "MigrateFeatures", "IncludeMinimum", "IncludeMaximum",
              "AllowDowngrades", "AllowSameVersionUpgrades", "Default", "Advertise"} -> {"yes", "no"}
    [] k = "Guid" -> {"*", "", Guid1, "aaaaaaaa-bbbb-cccc-dddd-eeeeeeeeeeee"} [] k = "UpgradeCode" -> {Guid1}
    [] n = "Product" /\ k = "Id" -> {Guid1} [] n = "Upgrade" /\ k = "Id" -> {Guid1}
    [] k = "Root" -> {"HKCR", "hkcu", "HKU", "HKMU", "HKXX"} [] n = "RegistrySearch" /\ k = "Type" -> {"file", "directory", "Raw", "other"}
    [] n = "RegistryValue" /\ k = "Type" -> {"string", "integer", "binary", "expandable", "other"} [] n = "RegistryValue" /\ k = "Value" -> {"#1", "##1", "#x0a", "#%A%", "", "12"}
    [] k = "InstallScope" -> {"perUser", "perMachine"} [] k = "InstallerVersion" -> {"301"} [] k = "Codepage" -> {"1251"}
    [] k = "Execute" -> {"commit", "deferred", "firstSequence", "immediate", "oncePerProcess", "rollback", "clientRepeat"} [] k = "Return" -> {"asyncNoWait", "asyncWait", "check", "ignore"}
    [] k = "On" -> {"install", "uninstall", "both", "never"} [] n = "ServiceControl" /\ k \in {"Start", "Stop", "Remove"} -> {"install", "uninstall", "both", "never"}
    [] n = "ServiceInstall" /\ k = "Type" -> {"ownProcess", "shareProcess", "other"} [] n = "ServiceInstall" /\ k = "Start" -> {"auto", "demand", "disabled", "boot"} [] k = "ErrorControl" -> {"ignore", "normal", "critical", "x"}
    [] k = "AllowAdvertise" -> {"no", "system", "yes"} [] k = "Absent" -> {"allow", "disallow", "x"} [] k = "InstallDefault" -> {"followParent", "followparent", "local", "source"} [] k = "TypicalDefault" -> {"advertise", "install"}
    [] k = "Display" -> {"collapse", "expand", "hidden", "7", "0"} [] k = "Level" -> {"0", "3"} [] n = "IniFile" /\ k = "Action" -> {"addLine", "createLine", "removeLine", "addTag", "removeTag", "x"}
    [] k \in {"ConfigurableDirectory", "BinaryKey", "FileKey", "TargetFile", "CompanionFile", "Icon", "Directory", "DiskId"} -> {"none", "F1", "F3", "D1", "PF", "I1", "B1", "1"}
    [] n \in {"ComponentRef", "ComponentGroupRef", "DirectoryRef"} -> {"none", "C1", "G1", "PF", "C3", "G2"}
    [] k \in {"Source", "SourceFile"} -> {"f2.txt", "f5.txt", "none.txt", "sub/f2.txt"} [] k = "Id" -> {"Other_1"} [] k \in {"Minimum", "Maximum"} -> {"3.1"} [] OTHER -> {"some text", "a'b"}
(* attributes the base document does not use *)
More == << << "Component", {"Permanent", "Win64"} >>, << "File", {"Name", "KeyPath", "DefaultVersion", "DiskId"} >>, << "RegistryValue", {"Id", "KeyPath", "Name"} >>, << "Property", {"Value", "Secure"} >>,
          << "Shortcut", {"Target", "Arguments", "Description", "WorkingDirectory"} >>, << "ServiceInstall", {"DisplayName", "Description", "EraseDescription", "Account", "Password", "Arguments", "LoadOrderGroup", "Interactive"} >>,
          << "Feature", {"Description", "Title", "Display", "Absent", "AllowAdvertise", "InstallDefault", "TypicalDefault", "ConfigurableDirectory"} >>,
          << "CreateFolder", {"Directory"} >>, << "UpgradeVersion", {"MigrateFeatures", "IncludeMinimum", "IncludeMaximum"} >>, << "MajorUpgrade", {"AllowDowngrades", "AllowSameVersionUpgrades"} >>, << "ProgId", {"Advertise"} >>,
          << "CustomAction", {"Execute", "Return", "Impersonate", "JScriptCall", "Value", "Property"} >>, << "Directory", {"Name"} >>, << "Verb", {"Argument", "Command"} >> >>
MoreOf(n) == UNION { q[2] : q \in { q \in ToSet(More) : q[1] = n } }
Excepted == {"InstallExecuteSequence", "InstallUISequence", "Custom", "StartServices", "Wix", "Fragment"}
Changes(x) ==
  UNION { IF x[i][1] \in Excepted THEN {}
          ELSE { << "cut", i, a[1] >> : a \in ToSet(x[i][3]) }
               \union { << "set", i, k, v >> : << k, v >> \in UNION { { << k, v >> : v \in Vals(x[i][1], k) } : k \in { a[1] : a \in ToSet(x[i][3]) } \union MoreOf(x[i][1]) } } : i \in DOMAIN x }
(* what wixl means nothing by, or two parts of the document share by name *)
Sane(x) ==
  /\ \A i \in DOMAIN x : \A a \in ToSet(x[i][3]) :
       /\ a[2] = "" => a[1] \in {"Guid", "Value"} /\ x[i][1] # "Property"
       /\ a[1] = "DiskId" => a[2] \in {"1", "2"} /\ (a[1] = "IconIndex" => FALSE)
       /\ a[1] = "Name" /\ x[i][1] = "Property" => FALSE
  /\ \A i \in DOMAIN x : x[i][1] = "Shortcut" => \A a \in ToSet(x[i][3]) : a[1] \in {"Directory", "WorkingDirectory"} => a[2] \in {"PF", "D1"}

(* 2: features *)
Start == << El("Wix", 0, << >>, ""), El("Product", 1, << << "Id", "*" >>, << "Name", "p" >>, << "Version", "1" >>, << "Manufacturer", "m" >>, << "Language", "1033" >> >>, ""), El("Package", 2, << >>, ""),
            El("Media", 2, << << "Id", "1" >>, << "Cabinet", "a.cab" >>, << "EmbedCab", "yes" >> >>, ""), El("Directory", 2, << << "Id", "TARGETDIR" >>, << "Name", "SourceDir" >> >>, "") >>
Comps == << El("Component", 5, << << "Id", "C1" >>, << "Guid", "*" >> >>, ""), El("File", 6, << << "Id", "F1" >>, << "Source", "f1.txt" >> >>, ""),
            El("Component", 5, << << "Id", "C2" >>, << "Guid", "*" >> >>, ""), El("File", 8, << << "Id", "F2" >>, << "Source", "f2.txt" >> >>, "") >>
Count(x, n) == Len(SelectSeq(x, LAMBDA e : e[1] = n))
Of(x, ns) == { i \in DOMAIN x : x[i][1] \in ns }
FId(x) == << "Id", "A" \o ToString(Count(x, "Feature")) >>
Features(x) ==
  { El("Feature", i, a, "") : i \in Of(x, {"Product", "Feature"}), a \in { << FId(x) >> } \union { << FId(x), << "Display", d >> >> : d \in {"expand", "hidden", "1", "8"} } }
  \union { El("ComponentRef", i, << << "Id", c >> >>, "") : i \in Of(x, {"Feature"}), c \in {"C1", "C2"} }

(* 3: components, groups and directories over two files *)
Two == Start \o << El("Directory", 5, << << "Id", "D1" >>, << "Name", "d1" >> >>, ""), El("Feature", 2, << << "Id", "A" >> >>, ""), El("ComponentGroupRef", 7, << << "Id", "G1" >> >>, ""),
                   El("Wix", 0, << >>, ""), El("Fragment", 9, << >>, ""), El("ComponentGroup", 10, << << "Id", "G1" >>, << "Directory", "D1" >> >>, ""), El("Wix", 0, << >>, ""), El("Fragment", 12, << >>, "") >>
CId(x) == "C" \o ToString(Count(x, "Component") + 1)
Places(x) ==
  UNION { { El("ComponentGroup", i, << << "Id", g >> >> \o d, "") : g \in { y \in {"G1", "G2"} : \A e \in ToSet(x) : e[1] = "ComponentGroup" => << "Id", y >> \notin ToSet(e[3]) }, d \in { << >>, << << "Directory", "D1" >> >> } }
          \union { El("DirectoryRef", i, << << "Id", d >> >>, "") : d \in {"D1", "D2"} } : i \in Of(x, {"Fragment"}) }
  \union { El("Directory", i, << << "Id", "D2" >>, << "Name", "d1" >> >>, "") : i \in IF \E e \in ToSet(x) : e[1] = "Directory" /\ << "Id", "D2" >> \in ToSet(e[3]) THEN {} ELSE Of(x, {"Directory", "DirectoryRef"}) }
  \union { El("Component", i, << << "Id", CId(x) >>, << "Guid", "*" >> >>, "") : i \in IF Count(x, "Component") = 2 THEN {} ELSE Of(x, {"Directory", "DirectoryRef", "ComponentGroup"}) }
  \union { El("File", i, << << "Id", "F" \o ToString(Count(x, "File") + 1) >>, << "Source", "f" \o ToString(Count(x, "File") + 1) \o ".txt" >> >>, "") : i \in IF Count(x, "File") = 3 THEN {} ELSE Of(x, {"Component"}) }
  \union { El(q[1], i, << << "Id", q[2] >> >>, "") : i \in Of(x, {"ComponentGroup"}), q \in { << "ComponentGroupRef", "G1" >>, << "ComponentGroupRef", "G2" >>, << "ComponentRef", "C1" >> } }

(* 4: key paths and registry *)
Keys == Start \o << El("Component", 5, << << "Id", "C1" >>, << "Guid", "*" >> >>, ""), El("Component", 5, << << "Id", "C2" >>, << "Guid", "*" >> >>, ""),
                    El("Feature", 2, << << "Id", "A" >> >>, ""), El("ComponentRef", 8, << << "Id", "C1" >> >>, ""), El("ComponentRef", 8, << << "Id", "C2" >> >>, "") >>
Values(x) ==
  { El("RegistryKey", i, << << "Root", "HKLM" >>, << "Key", "k" >> >>, "") : i \in Of(x, {"Component"}) }
  \union { El("RegistryValue", i, a \o b, "") : i \in Of(x, {"Component"}), b \in { << >>, << << "KeyPath", "yes" >> >> },
             a \in { << << "Root", "HKLM" >>, << "Key", "k" >>, << "Type", "string" >>, << "Value", "v" >> >>, << << "Root", "HKLM" >>, << "Key", "k" >>, << "Name", "n" >>, << "Type", "integer" >>, << "Value", "3" >> >>,
                     << << "Id", "R1" >>, << "Root", "HKLM" >>, << "Key", "k" >>, << "Type", "string" >>, << "Value", "w" >> >> } }
  \union { El("RegistryValue", i, a, "") : i \in Of(x, {"RegistryKey"}),
             a \in { << << "Type", "string" >>, << "Value", "v" >> >>, << << "Key", "l" >>, << "Name", "n" >>, << "Type", "string" >>, << "Value", "v" >>, << "KeyPath", "yes" >> >>, << << "Root", "HKCU" >>, << "Name", "N" >>, << "Type", "string" >>, << "Value", "v" >> >> } }
  \union { El("File", i, << << "Id", "F" \o ToString(Count(x, "File") + 1) >>, << "Source", "f1.txt" >> >> \o b, "") : i \in IF Count(x, "File") = 2 THEN {} ELSE Of(x, {"Component"}), b \in { << >>, << << "KeyPath", "yes" >> >> } }

(* 5: media *)
Discs == SubSeq(Start, 1, 3) \o << El("Directory", 2, << << "Id", "TARGETDIR" >>, << "Name", "SourceDir" >> >>, ""), El("Component", 4, << << "Id", "C1" >>, << "Guid", "*" >> >>, ""), El("File", 5, << << "Id", "F1" >>, << "Source", "f1.txt" >> >>, ""),
            El("Component", 4, << << "Id", "C2" >>, << "Guid", "*" >> >>, ""), El("File", 7, << << "Id", "F2" >>, << "Source", "f2.txt" >>, << "DiskId", "2" >> >>, ""), El("Feature", 2, << << "Id", "A" >> >>, ""), El("ComponentRef", 9, << << "Id", "C1" >> >>, "") >>
MediaIds(x) == { (CHOOSE a \in ToSet(x[i][3]) : a[1] = "Id")[2] : i \in Of(x, {"Media"}) }
Media2(x) ==
  { El("Media", 2, << << "Id", m >>, << "Cabinet", c >> >> \o b, "") : m \in {"1", "2", "3"} \ MediaIds(x), c \in { y \in {"a.cab", "b.cab"} : \A e \in ToSet(x) : e[1] = "Media" => << "Cabinet", y >> \notin ToSet(e[3]) }, b \in { << >>, << << "EmbedCab", "yes" >> >> } }
  \union { El("File", i, << << "Id", "F" \o ToString(Count(x, "File") + 1) >>, << "Source", "f" \o ToString(Count(x, "File") + 1) \o ".txt" >>, << "DiskId", d >> >>, "") : i \in IF Count(x, "File") = 4 THEN {} ELSE Of(x, {"Component"}), d \in {"1", "2", "3"} }
  \union { El("ComponentRef", i, << << "Id", "C2" >> >>, "") : i \in IF Count(x, "ComponentRef") = 2 THEN {} ELSE Of(x, {"Feature"}) }

ThePrelude == CASE ThePart = 1 -> Base [] ThePart = 2 -> Start \o Comps [] ThePart = 3 -> Two [] ThePart = 4 -> Keys [] OTHER -> Discs
Edits(x) == CASE ThePart = 1 -> { c \in Changes(x) : Sane(DocStep(x, c).s) } [] ThePart = 2 -> Features(x) [] ThePart = 3 -> Places(x) [] ThePart = 4 -> Values(x) [] OTHER -> Media2(x)
Builds(x) == IF ThePart = 3 THEN { World("x64", << "sub", ".", "." >>) } ELSE { World(a, [ k \in 1..Roots1(x) |-> "." ]) : a \in IF ThePart = 1 THEN {"x86"} ELSE {"x86"} }
(* (the last states are not left) *)
TheOps(x) == Builds(x) \union (IF Len(hist) + 1 >= TheDepth THEN {} ELSE Edits(x))
=============================================================================
