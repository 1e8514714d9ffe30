"""W01: wixl's preprocessor against spec/WixPre.tla."""
import build, model, pregen, preexec, toolexec


def run(ck):
    t = build.tools()
    toolexec.bindir(t)
    for part, depth in ((1, 5), (2, 4), (3, 3), (4, 2)) if ck.quick else ((1, 6), (2, 5), (3, 5), (4, 2)):
        pre, beh, st = model.explore("MC_Pre", {"PART": part, "DEPTH": depth}, workers=1 if ck.quick else 8)
        ck.model(st)
        items = [pre + b["h"] + [o for o in b["stay"] if o[0] == "pp"] for b in beh]
        del beh
        for k in range(0, len(items), 8000):
            ck.decide("MC_Pre, part %d" % part, lambda it: preexec.Runner(t).execute(it[1], it[0]), [(ck.seed * 7919 + k + i, x) for i, x in enumerate(items[k:k + 8000])], module="PreTrace")
    n = 1500 if ck.quick else 40000
    for k in range(0, n, 5000):
        ck.decide("random", lambda sd: preexec.Runner(t).execute(pregen.run(sd), sd), [ck.seed * 1000003 + i for i in range(k, min(n, k + 5000))], module="PreTrace")
        if ck.violations:
            break
    ck.assumptions += ["white space between tags is not compared", "conditions with text behind them are left out"]
