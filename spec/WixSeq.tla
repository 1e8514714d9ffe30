------------------------------- MODULE WixSeq -------------------------------
(* The order in which a package's actions run.  A document has kinds of      *)
(* content, which bring standard actions with them, and schedules actions:   *)
(*   <<"has", kind>>                                                         *)
(*   <<"sch", table, element, action, attributes, condition>>                *)
(* where element is "Custom", "Show" or "" for a standard action, and the    *)
(* attributes are <<<<name, value>>, ...>> of After, Before, Sequence,       *)
(* OnExit.  <<"build">> answers <<"fail">> or                                *)
(*   <<"seqs", <<<<table, <<<<action, condition, number>>, ...>>>>, ...>>>>. *)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt, FiniteSetsExt, DecText

Std == [ InstallInitialize |-> << 1500, "" >>,
         InstallExecute |-> << 6500, "NOT Installed" >>,
         InstallExecuteAgain |-> << 6550, "NOT Installed" >>,
         InstallFinalize |-> << 6600, "" >>,
         InstallFiles |-> << 4000, "" >>,
         InstallAdminPackage |-> << 3900, "" >>,
         FileCost |-> << 900, "" >>,
         CostInitialize |-> << 800, "" >>,
         CostFinalize |-> << 1000, "" >>,
         InstallValidate |-> << 1400, "" >>,
         ExecuteAction |-> << 1300, "" >>,
         CreateShortcuts |-> << 4500, "" >>,
         MsiPublishAssemblies |-> << 6250, "" >>,
         PublishComponents |-> << 6200, "" >>,
         PublishFeatures |-> << 6300, "" >>,
         PublishProduct |-> << 6400, "" >>,
         RegisterClassInfo |-> << 4600, "" >>,
         RegisterExtensionInfo |-> << 4700, "" >>,
         RegisterMIMEInfo |-> << 4900, "" >>,
         RegisterProgIdInfo |-> << 4800, "" >>,
         AllocateRegistrySpace |-> << 1550, "NOT Installed" >>,
         AppSearch |-> << 50, "" >>,
         BindImage |-> << 4300, "" >>,
         CCPSearch |-> << 500, "NOT Installed" >>,
         CreateFolders |-> << 3700, "" >>,
         DeleteServices |-> << 2000, "VersionNT" >>,
         DuplicateFiles |-> << 4210, "" >>,
         ExitDialog |-> << -1, "" >>,
         FatalError |-> << -3, "" >>,
         FindRelatedProducts |-> << 25, "" >>,
         InstallODBC |-> << 5400, "" >>,
         InstallServices |-> << 5800, "VersionNT" >>,
         MaintenanceWelcomeDlg |-> << 1295, "" >>,
         MsiConfigureServices |-> << 5850, "VersionNT>=600" >>,
         IsolateComponents |-> << 950, "" >>,
         LaunchConditions |-> << 100, "" >>,
         MigrateFeatureStates |-> << 1200, "" >>,
         MoveFiles |-> << 3800, "" >>,
         PatchFiles |-> << 4090, "" >>,
         PrepareDlg |-> << 49, "" >>,
         ProcessComponents |-> << 1600, "" >>,
         ProgressDlg |-> << 1299, "" >>,
         RegisterComPlus |-> << 5700, "" >>,
         RegisterFonts |-> << 5300, "" >>,
         RegisterProduct |-> << 6100, "" >>,
         RegisterTypeLibraries |-> << 5500, "" >>,
         RegisterUser |-> << 6000, "" >>,
         RemoveDuplicateFiles |-> << 3400, "" >>,
         RemoveEnvironmentStrings |-> << 3300, "" >>,
         RemoveFiles |-> << 3500, "" >>,
         RemoveFolders |-> << 3600, "" >>,
         RemoveIniValues |-> << 3100, "" >>,
         RemoveODBC |-> << 2400, "" >>,
         RemoveRegistryValues |-> << 2600, "" >>,
         RemoveShortcuts |-> << 3200, "" >>,
         ResumeDlg |-> << 1296, "" >>,
         RMCCPSearch |-> << 600, "NOT Installed" >>,
         SelfRegModules |-> << 5600, "" >>,
         SelfUnregModules |-> << 2200, "" >>,
         SetODBCFolders |-> << 1100, "" >>,
         StartServices |-> << 5900, "VersionNT" >>,
         StopServices |-> << 1900, "VersionNT" >>,
         MsiUnpublishAssemblies |-> << 1750, "" >>,
         UnpublishComponents |-> << 1700, "" >>,
         UnpublishFeatures |-> << 1800, "" >>,
         UnregisterClassInfo |-> << 2700, "" >>,
         UnregisterComPlus |-> << 2100, "" >>,
         UnregisterExtensionInfo |-> << 2800, "" >>,
         UnregisterFonts |-> << 2500, "" >>,
         UnregisterMIMEInfo |-> << 3000, "" >>,
         UnregisterProgIdInfo |-> << 2900, "" >>,
         UnregisterTypeLibraries |-> << 2300, "" >>,
         UserExit |-> << -2, "" >>,
         ValidateProductID |-> << 700, "" >>,
         WelcomeDlg |-> << 1297, "" >>,
         WelcomeEulaDlg |-> << 1298, "" >>,
         WriteEnvironmentStrings |-> << 5200, "" >>,
         WriteIniValues |-> << 5100, "" >>,
         WriteRegistryValues |-> << 5000, "" >> ]
Of(b, more) == b \union more
If(c, q) == IF c THEN q ELSE {}
(* the standard actions of a table *)
Defaults(t, has) ==
  CASE t = "AdminExecuteSequence" -> {"CostInitialize", "FileCost", "CostFinalize", "InstallValidate", "InstallInitialize", "InstallAdminPackage", "InstallFiles", "InstallFinalize"}
    [] t = "AdminUISequence" -> {"CostInitialize", "FileCost", "CostFinalize", "ExecuteAction"}
    [] t = "AdvtExecuteSequence" -> {"CostInitialize", "CostFinalize", "InstallValidate", "InstallInitialize", "PublishFeatures", "PublishProduct", "InstallFinalize"} \union If("shortcut" \in has, {"CreateShortcuts"})
    [] t = "InstallUISequence" -> {"ValidateProductID", "CostInitialize", "FileCost", "CostFinalize", "ExecuteAction"} \union If({"upgrade", "major"} \cap has # {}, {"FindRelatedProducts", "MigrateFeatureStates"})
         \union If("launch" \in has, {"LaunchConditions"}) \union If("search" \in has, {"AppSearch"})
    [] OTHER -> {"ValidateProductID", "CostInitialize", "FileCost", "CostFinalize", "InstallValidate", "InstallInitialize", "ProcessComponents", "UnpublishFeatures", "RegisterUser", "RegisterProduct", "PublishFeatures",
                 "PublishProduct", "InstallFinalize"} \union If({"upgrade", "major"} \cap has # {}, {"FindRelatedProducts", "MigrateFeatureStates"}) \union If("launch" \in has, {"LaunchConditions"})
         \union If("registry" \in has, {"RemoveRegistryValues", "WriteRegistryValues"}) \union If("ini" \in has, {"WriteIniValues"}) \union If("removeini" \in has, {"RemoveIniValues"})
         \union If("shortcut" \in has, {"RemoveShortcuts", "CreateShortcuts"}) \union If("file" \in has, {"RemoveFiles", "InstallFiles"}) \union If("removefolder" \in has, {"RemoveFiles"})
         \union If("control" \in has, {"StartServices", "StopServices", "DeleteServices"}) \union If("service" \in has, {"InstallServices"}) \union If("folder" \in has, {"RemoveFolders", "CreateFolders"})
         \union If("search" \in has, {"AppSearch"})
SeqTables == {"AdminExecuteSequence", "AdminUISequence", "AdvtExecuteSequence", "InstallExecuteSequence", "InstallUISequence"}
Defined == {"X", "Y", "Z", "W"}

SeqEmpty == [has |-> {}, sch |-> << >>]
Get(a, k) == LET c == { j \in DOMAIN a : a[j][1] = k } IN IF c = {} THEN "" ELSE a[CHOOSE j \in c : TRUE][2]
Exits == [ e \in {"success", "cancel", "error", "suspend"} |-> CASE e = "success" -> -1 [] e = "cancel" -> -2 [] e = "error" -> -3 [] OTHER -> -4 ]
(* a table: its rows, the numbers that are given and what is before what *)
Table(x, t) ==
  LET mine == { k \in DOMAIN x.sch : x.sch[k][1] = t }
      major == t = "InstallExecuteSequence" /\ "major" \in x.has
      scheduled == { x.sch[k][3] : k \in mine } \union If(major, {"RemoveExistingProducts"})
      named == UNION { { Get(x.sch[k][4], w) : w \in If(Get(x.sch[k][4], "OnExit") = "", {"After", "Before"}) } : k \in mine } \ {""}
      names == scheduled \union Defaults(t, x.has) \union (named \cap DOMAIN Std) \union If(major, {"InstallValidate"})
      how == [ n \in names |-> LET c == { k \in mine : x.sch[k][3] = n } IN IF c = {} THEN 0 ELSE Min(c) ]
      number(n) == IF how[n] = 0 THEN (IF n \in DOMAIN Std THEN << Std[n][1] >> ELSE << >>)
                   ELSE LET a == x.sch[how[n]][4] IN
                        IF Get(a, "OnExit") # "" THEN << Exits[Get(a, "OnExit")] >>
                        ELSE IF Get(a, "Sequence") # "" THEN << DecimalOf(Get(a, "Sequence")) >>
                        ELSE IF Get(a, "After") = "" /\ Get(a, "Before") = "" /\ n \in DOMAIN Std THEN << Std[n][1] >> ELSE << >>
  IN  [ names |-> names, dangling |-> named \ (scheduled \union DOMAIN Std) # {},
        custom |-> \E k \in mine : x.sch[k][2] = "Custom" /\ x.sch[k][3] \notin Defined,
        fixed |-> [ n \in names |-> number(n) ],
        cond |-> [ n \in names |-> IF how[n] = 0 THEN (IF n \in DOMAIN Std THEN Std[n][2] ELSE "") ELSE x.sch[how[n]][5] ],
        (* <<a, b>>: a is before b *)
        before |-> UNION { LET a == x.sch[k][4] IN IF Get(a, "OnExit") # "" THEN {}
                           ELSE If(Get(a, "After") # "", { << Get(a, "After"), x.sch[k][3] >> }) \union If(Get(a, "Before") # "", { << x.sch[k][3], Get(a, "Before") >> }) : k \in mine }
                   \union If(major, { << "InstallValidate", "RemoveExistingProducts" >> }) ]
RECURSIVE Behind(_, _, _)
(* what comes after some actions *)
Behind(rel, from, k) == IF k = 0 THEN from ELSE Behind(rel, from \union { p[2] : p \in { p \in rel : p[1] \in from } }, k - 1)
After(rel, n) == LET next == { p[2] : p \in { p \in rel : p[1] = n } } IN Behind(rel, next, Cardinality(rel))
Free(q) == { n \in q.names : q.fixed[n] = << >> }
(* no order and no numbers do *)
Contradictory(q) ==
  \/ \E p \in q.before : p[1] \in After(q.before, p[2]) \/ p[1] = p[2]
  \/ \E n \in { p[1] : p \in q.before } : q.fixed[n] # << >> /\ \E m \in After(q.before, n) : q.fixed[m] # << >> /\ q.fixed[m][1] <= q.fixed[n][1]
(* there is certainly room for everything *)
Roomy(q) ==
  LET taken == { q.fixed[n][1] : n \in q.names \ Free(q) } IN
  \A n \in Free(q) :
    LET hi == { q.fixed[m][1] : m \in { m \in After(q.before, n) : q.fixed[m] # << >> } }
        lo == { q.fixed[m][1] : m \in { m \in q.names \ Free(q) : n \in After(q.before, m) } } \union {0}
    IN  hi = {} \/ Min(hi) - Max(lo) - 1 - Cardinality({ k \in taken : k > Max(lo) /\ k < Min(hi) }) >= Cardinality(Free(q))
MustFail(q) == q.dangling \/ q.custom \/ Contradictory(q)
(* rows: <<action, condition, number>> *)
RowsOk(q, rows) ==
  /\ Len(rows) = Cardinality(q.names) /\ { rows[k][1] : k \in DOMAIN rows } = q.names
  /\ LET num == [ n \in q.names |-> (CHOOSE r \in ToSet(rows) : r[1] = n)[3] ]
         cond == [ n \in q.names |-> (CHOOSE r \in ToSet(rows) : r[1] = n)[2] ] IN
     /\ \A n \in q.names : cond[n] = q.cond[n] /\ (IF q.fixed[n] # << >> THEN num[n] = q.fixed[n][1] ELSE num[n] > 0 /\ \A m \in q.names : m = n \/ num[m] # num[n])
     /\ \A p \in q.before : num[p[1]] < num[p[2]]
(* the standard actions that nothing moves stay in their order *)
SeqStep(x, op) ==
  CASE op[1] = "has" -> [s |-> [x EXCEPT !.has = @ \union {op[2]}], r |-> << "ok" >>]
    [] op[1] = "sch" -> [s |-> [x EXCEPT !.sch = Append(@, << op[2], op[3], op[4], op[5], op[6] >>)], r |-> << "ok" >>]
    [] OTHER -> [s |-> x, r |-> << "tables", [ t \in SeqTables |-> TLCEval(Table(x, t)) ] >>]
SeqMatch(op, obs, r) ==
  IF r[1] = "ok" THEN obs = r
  ELSE IF \E t \in SeqTables : MustFail(r[2][t]) THEN obs = << "fail" >>
  ELSE IF obs[1] = "fail" THEN Len(obs) = 1 /\ \E t \in SeqTables : ~Roomy(r[2][t])
  ELSE obs[1] = "seqs" /\ Len(obs[2]) = Cardinality(SeqTables) /\ { obs[2][k][1] : k \in DOMAIN obs[2] } = SeqTables
       /\ \A k \in DOMAIN obs[2] : RowsOk(r[2][obs[2][k][1]], obs[2][k][2])

(* an assignment that fits in any table that has to be accepted: the free    *)
(* actions one after the other, each at the lowest number behind what it     *)
(* follows that is not taken and leaves room                                 *)
RECURSIVE Given(_, _)
Given(q, num) ==
  LET left == q.names \ DOMAIN num
      ready == { n \in left : \A p \in q.before : p[2] = n => p[1] \in DOMAIN num } IN
  IF left = {} \/ ready = {} THEN num
  ELSE LET limit(n) == LET c == { q.fixed[m][1] : m \in { m \in After(q.before, n) : q.fixed[m] # << >> } } IN IF c = {} THEN 100000 ELSE Min(c)
           n == CHOOSE n \in ready : \A m \in ready : limit(n) <= limit(m)
           low == Max({0} \union { num[p[1]] : p \in { p \in q.before : p[2] = n } })
           taken == { num[m] : m \in DOMAIN num }
           at == Min({ k \in (low + 1)..(low + Cardinality(q.names) + 1) : k \notin taken })
       IN  Given(q, [ m \in DOMAIN num \union {n} |-> IF m = n THEN at ELSE num[m] ])
Fits(q) ==
  LET num == Given(q, [ n \in q.names \ Free(q) |-> q.fixed[n][1] ]) IN
  DOMAIN num = q.names /\ RowsOk(q, SetToSeq({ << n, q.cond[n], num[n] >> : n \in q.names }))
(* what has to be refused has no assignment, what has to be accepted has one *)
SeqStepOk(x, op, y) ==
  op[1] = "build" => \A t \in SeqTables : LET q == y.r[2][t] IN q.dangling \/ q.custom \/ (IF Contradictory(q) THEN ~Fits(q) ELSE Roomy(q) => Fits(q))
SeqOk(x) == TRUE
=============================================================================
