"""W07: the user interface in the packages wixl builds against spec/WixUi.tla."""
import build, model, toolexec, uiexec, uigen


def run(ck):
    t = build.tools()
    toolexec.bindir(t)
    for part, depth in ((1, 2), (2, 4), (3, 4)) if ck.quick else ((1, 3), (2, 5), (3, 5)):
        pre, beh, st = model.explore("MC_Ui", {"PART": part, "DEPTH": depth}, workers=4)
        ck.model(st)
        items = [pre + b["h"] + [o for o in b["stay"] if o[0] == "build"] for b in beh]
        del beh
        if ck.quick and len(items) > 3500:
            items = ck.rng("part", part).sample(items, 3500)
        for k in range(0, len(items), 4000):
            ck.decide("MC_Ui, part %d" % part, lambda it: uiexec.Runner(t).execute(it[1], it[0]), [(ck.seed * 7919 + k + i, x) for i, x in enumerate(items[k:k + 4000])], module="UiTrace")
            if ck.violations:
                return
    n = 1200 if ck.quick else 20000
    for k in range(0, n, 3000):
        ck.decide("random", lambda sd: uiexec.Runner(t).execute(uigen.run(sd), sd), [ck.seed * 1000003 + k + i for i in range(min(3000, n - k))], module="UiTrace")
        if ck.violations:
            break
    ck.assumptions += ["dialogs of the bundled extension, ToolTip and control names in references are not covered"]
