"""Random documents for spec/WixSeq.tla: mostly such that their constraints can be kept."""
import random

KINDS = ["file", "upgrade", "major", "launch", "registry", "ini", "removeini", "shortcut", "removefolder", "control", "service", "folder", "search"]
CONDS = ["", "", "", "NOT Installed", "A < B", "1", "\"it's\" = X & Y", "VersionNT >= 600"]
# where the standard actions are that a table may have or name
STD = {"InstallExecuteSequence": dict(AppSearch=50, LaunchConditions=100, ValidateProductID=700, CostInitialize=800, FileCost=900, CostFinalize=1000, InstallValidate=1400, InstallInitialize=1500,
                                      ProcessComponents=1600, UnpublishFeatures=1800, StopServices=1900, DeleteServices=2000, RemoveRegistryValues=2600, RemoveIniValues=3100, RemoveShortcuts=3200, RemoveFiles=3500,
                                      RemoveFolders=3600, CreateFolders=3700, MoveFiles=3800, InstallFiles=4000, PatchFiles=4090, DuplicateFiles=4210, BindImage=4300, CreateShortcuts=4500, WriteRegistryValues=5000, WriteIniValues=5100,
                                      InstallServices=5800, StartServices=5900, RegisterUser=6000, RegisterProduct=6100, PublishFeatures=6300, PublishProduct=6400, InstallExecute=6500, InstallExecuteAgain=6550, InstallFinalize=6600),
       "InstallUISequence": dict(FindRelatedProducts=25, PrepareDlg=49, AppSearch=50, LaunchConditions=100, CCPSearch=500, RMCCPSearch=600, ValidateProductID=700, CostInitialize=800, FileCost=900, CostFinalize=1000,
                                 IsolateComponents=950, MigrateFeatureStates=1200, ExecuteAction=1300),
       "AdminExecuteSequence": dict(CostInitialize=800, FileCost=900, CostFinalize=1000, InstallValidate=1400, InstallInitialize=1500, InstallAdminPackage=3900, InstallFiles=4000, InstallFinalize=6600),
       "AdminUISequence": dict(CostInitialize=800, FileCost=900, CostFinalize=1000, ExecuteAction=1300),
       "AdvtExecuteSequence": dict(CostInitialize=800, CostFinalize=1000, InstallValidate=1400, InstallInitialize=1500, CreateShortcuts=4500, PublishFeatures=6300, PublishProduct=6400, InstallFinalize=6600)}
# standard actions that may be scheduled
ELS = {"InstallExecuteSequence": ["RemoveExistingProducts", "InstallExecute", "InstallExecuteAgain", "StartServices", "AppSearch", "CCPSearch", "ScheduleReboot", "ForceReboot", "DisableRollback", "CostFinalize", "InstallFiles", "BindImage",
                                  "PublishProduct", "MoveFiles", "ResolveSource"],
       "InstallUISequence": ["CCPSearch", "RMCCPSearch", "ExecuteAction", "AppSearch", "LaunchConditions", "CostFinalize"],
       "AdminExecuteSequence": ["InstallFiles", "CostFinalize"], "AdminUISequence": ["CostFinalize"], "AdvtExecuteSequence": ["CreateShortcuts", "PublishProduct"]}


def run(seed):
    r = random.Random("seq%d" % seed)
    ops = [["has", k] for k in r.sample(KINDS, r.choice([1, 1, 2, 3, 5]))]
    wild = r.random() < .25
    for t in r.sample(sorted(STD), r.choice([1, 1, 1, 2, 3])):
        std = dict(STD[t])
        pos, todo = {}, []
        free = r.sample("XYZW", r.choice([1, 2, 3, 4])) + (["D", "E"][:r.choice([0, 1, 2])] if "UI" in t else [])
        for a in free + r.sample(ELS[t], r.randrange(min(3, len(ELS[t])) + 1)):
            todo.append(["Custom" if a in "XYZW" else "Show" if a in "DE" else "", a])
            pos[a] = std.get(a) or r.choice(sorted(std.values())) + r.choice([-3, -1, 1, 1, 2, 3]) + r.random() / 2
            if a in std and r.random() < .5:
                pos[a] = r.choice(sorted(std.values())) + r.random()
        for kind, a in todo:
            std.pop(a, None)
        every = {**std, **pos}
        r.shuffle(todo)
        for kind, a in todo:
            k = r.random()
            attrs = []
            lower = sorted([b for b in every if b != a and every[b] < every[a]], key=lambda b: -every[b])
            upper = sorted([b for b in every if b != a and every[b] > every[a]], key=lambda b: every[b])
            mine = [b for b in lower if b in pos], [b for b in upper if b in pos]
            if wild and r.random() < .3:
                lower = upper = sorted(every) + ["X", "Nothing"]
                mine = ([], [])

            def near(l, m):
                return r.choice(m) if m and r.random() < .5 else l[min(len(l) - 1, int(r.expovariate(.7)))]
            if k < .40 and lower:
                attrs = [["After", near(lower, mine[0])]]
            elif k < .72 and upper:
                attrs = [["Before", near(upper, mine[1])]]
            elif k < .84 and upper and lower:
                attrs = [["After", near(lower, mine[0])], ["Before", near(upper, mine[1])]]
            elif k < .93:
                attrs = [["Sequence", str(max(1, int(every[a])))]]
            elif k < .95 and lower:
                attrs = [["Sequence", str(int(every[a]) + 1)], ["After", lower[0]]]
            elif k < .97 and kind:
                attrs = [["OnExit", r.choice(["success", "cancel", "error", "suspend"])]]
            ops.append(["sch", t, kind, a, attrs, r.choice(CONDS)])
    sch = [o for o in ops if o[0] == "sch"]
    if len(sch) > 1:
        rest = ops[:-len(sch)]
        r.shuffle(sch)
        k = r.randrange(len(sch))
        ops = rest + (sch[:k] + [["build"]] if r.random() < .3 else sch[:k]) + sch[k:]
    return ops + [["build"]]
