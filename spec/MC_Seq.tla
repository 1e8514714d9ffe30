------------------------------- MODULE MC_Seq -------------------------------
(* Every set of up to DEPTH - 1 scheduled actions over a few numbers (PART:  *)
(* which table and which neighbours).                                        *)
EXTENDS WixSeq, MCRun
TheDepth == EnvInt("DEPTH", 3)
ThePart == EnvInt("PART", 1)
T == CASE ThePart = 2 -> "InstallUISequence" [] ThePart = 3 -> "AdvtExecuteSequence" [] ThePart = 4 -> "AdminExecuteSequence" [] ThePart = 5 -> "AdminUISequence" [] OTHER -> "InstallExecuteSequence"
(* what can be named *)
Refs == CASE ThePart = 1 -> {"X", "Y", "InstallFiles", "InstallFinalize", "StartServices"} [] ThePart = 2 -> {"X", "D", "ExecuteAction", "CCPSearch"} [] ThePart = 3 -> {"X", "CostFinalize", "CreateShortcuts"}
          [] ThePart = 4 -> {"X", "InstallFiles", "LaunchConditions"} [] ThePart = 5 -> {"X", "D", "ExecuteAction"} [] OTHER -> {"X", "Y", "None", "InstallExecute", "InstallExecuteAgain"}
Attrs == { << >> } \union { << << "After", n >> >> : n \in Refs } \union { << << "Before", n >> >> : n \in Refs } \union { << << "Sequence", k >> >> : k \in {"4001", "6550", "6599"} }
         \union If(ThePart \in {1, 6}, { << << "After", n >>, << "Before", m >> >> : n \in Refs, m \in Refs }) \union { << << "OnExit", "success" >> >>, << << "OnExit", "cancel" >> >>, << << "OnExit", "error" >> >>, << << "OnExit", "suspend" >> >> }
         \union If(ThePart = 1, { << << "Sequence", "4001" >>, << "After", "InstallFiles" >> >>, << << "Sequence", "3000" >>, << "After", "InstallFiles" >> >> })
Elements == CASE ThePart = 1 -> { << "Custom", "X" >>, << "Custom", "Y" >>, << "", "StartServices" >> } [] ThePart = 2 -> { << "Custom", "X" >>, << "Show", "D" >>, << "", "CCPSearch" >>, << "", "ExecuteAction" >> }
              [] ThePart = 3 -> { << "Custom", "X" >>, << "", "CreateShortcuts" >> } [] ThePart = 4 -> { << "Custom", "X" >>, << "", "InstallFiles" >> } [] ThePart = 5 -> { << "Custom", "X" >>, << "Show", "D" >> }
              [] OTHER -> { << "Custom", "X" >>, << "Custom", "Y" >>, << "Custom", "Z" >>, << "Custom", "None" >>, << "", "InstallExecute" >>, << "", "RemoveExistingProducts" >> }
Conds == {"", "A < B"}
ThePrelude == << << "has", "file" >> >>
Kinds == {"upgrade", "major", "launch", "registry", "ini", "removeini", "shortcut", "removefolder", "control", "service", "folder", "search"}
TheOps(x) ==
  { << "build" >> } \union
  (IF Len(hist) + 1 >= TheDepth THEN {}
   ELSE IF ThePart = 7 THEN { << "has", k >> : k \in Kinds \ x.has }
   ELSE { << "sch", T, e[1], e[2], a, c >> : e \in { e \in Elements : \A k \in DOMAIN x.sch : x.sch[k][3] # e[2] }, a \in Attrs, c \in IF Len(hist) = 0 THEN Conds ELSE {""} })
=============================================================================
