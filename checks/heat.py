"""W05: wixl-heat against spec/WixHeat.tla."""
import build, model, heatexec, heatgen, toolexec


def run(ck):
    t = build.tools()
    toolexec.bindir(t)
    for part, depth in ((1, 3), (2, 3)) if ck.quick else ((1, 5), (2, 4)):
        pre, beh, st = model.explore("MC_Heat", {"PART": part, "DEPTH": depth}, workers=4)
        ck.model(st)
        items = [pre + b["h"] + b["stay"][k:k + 6] for b in beh for k in range(0, len(b["stay"]), 6)]
        items = [i for i in items if i]
        del beh
        if len(items) > 15000:
            items = ck.rng("part", part).sample(items, 15000)
        for k in range(0, len(items), 5000):
            ck.decide("MC_Heat, part %d" % part, lambda it: heatexec.Runner(t).execute(it[1], it[0]), [(ck.seed * 7919 + k + i, x) for i, x in enumerate(items[k:k + 5000])], module="HeatTrace")
    n = 1000 if ck.quick else 20000
    for k in range(0, n, 4000):
        ck.decide("random", lambda sd: heatexec.Runner(t).execute(heatgen.run(sd), sd), [ck.seed * 1000003 + i for i in range(k, min(n, k + 4000))], module="HeatTrace")
        if ck.violations:
            break
    ck.assumptions += ["the prefix ends at the end of a name", "paths are relative, in UTF-8, and exist"]
