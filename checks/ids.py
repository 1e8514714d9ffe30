"""W04: the identifiers wixl makes up against spec/WixIds.tla."""
import build, model, idsexec, idsgen, toolexec


def run(ck):
    t = build.tools()
    toolexec.bindir(t)
    for part, depth in ((1, 4), (2, 3), (3, 4), (4, 3)) if ck.quick else ((1, 5), (2, 4), (3, 5), (4, 4)):
        pre, beh, st = model.explore("MC_Ids", {"PART": part, "DEPTH": depth}, workers=4)
        ck.model(st)
        # what was built before is built again in both ways
        items = [pre + b["h"] + [o for o in b["stay"] + b["move"] if o[0] == "build"] for b in beh]
        del beh
        if len(items) > 12000:
            items = ck.rng("part", part).sample(items, 12000)
        ck.decide("MC_Ids, part %d" % part, lambda it: idsexec.Runner(t).execute(it[1], it[0]), [(ck.seed * 7919 + i, x) for i, x in enumerate(items)], module="IdTrace")
    n = 1200 if ck.quick else 30000
    for k in range(0, n, 5000):
        ck.decide("random", lambda sd: idsexec.Runner(t).execute(idsgen.run(sd), sd), [ck.seed * 1000003 + i for i in range(k, min(n, k + 5000))], module="IdTrace")
        if ck.violations:
            break
    ck.assumptions += ["the path of a component in a group is that of the group, without directories", "the name of a registry value is not part of its component's key path"]
