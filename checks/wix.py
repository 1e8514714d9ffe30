"""W02, W06: the packages wixl builds against spec/WixDoc.tla."""
import build, model, toolexec, wixexec, wixgen


def run(ck):
    t = build.tools()
    toolexec.bindir(t)
    w02 = ck.prop == "W02"
    env = {"PROP": ck.prop}
    quick = ((5, 4), (3, 3)) if w02 else ((1, 2), (2, 3), (3, 4), (4, 3))
    deep = ((5, 5), (3, 5), (1, 2)) if w02 else ((1, 2), (2, 5), (3, 5), (4, 4))
    for part, depth in quick if ck.quick else deep:
        pre, beh, st = model.explore("MC_Doc", {"PART": part, "DEPTH": depth}, workers=4)
        ck.model(st)
        items = [pre + b["h"] + [o for o in b["stay"] if o[0] == "build"] for b in beh]
        del beh
        for k in range(0, len(items), 4000):
            ck.decide("MC_Doc, part %d" % part, lambda it: wixexec.Runner(t).execute(it[1], it[0]), [(ck.seed * 7919 + k + i, x) for i, x in enumerate(items[k:k + 4000])], module="DocTrace", env=env)
    n = 500 if ck.quick else 15000
    for k in range(0, n, 3000):
        ck.decide("random", lambda sd: wixexec.Runner(t).execute(wixgen.run(sd, w02 and sd % 3 > 0), sd), [ck.seed * 1000003 + (500009 if w02 else 0) + i for i in range(k, min(n, k + 3000))], module="DocTrace", env=env)
        if ck.violations:
            break
    ck.assumptions += ["the sequence tables are W03's", "values of generated identifiers are W04's"]
