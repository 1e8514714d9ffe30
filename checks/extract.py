"""T04: msiextract (and msidiff's file lists) against spec/MsiExtract.tla."""
import build, extexec, extgen, model, toolexec


def run(ck):
    t = build.tools()
    toolexec.bindir(t)
    pre, beh, st = model.explore("MC_Extract", {"DEPTH": 3} if ck.quick else {"DEPTH": 3, "WIDE": 1}, workers=1 if ck.quick else 8)
    ck.model(st)
    items = []
    for b in beh:
        if b["stay"]:
            items.append(pre + b["h"] + b["stay"])
    # (msidiff runs many processes)
    if ck.quick:
        items = [[o for o in it if o[0] != "diffl" or i % 5 == 0] for i, it in enumerate(items)]
    ck.decide("MC_Extract", lambda it: extexec.Runner(t).execute(it[1], it[0]), list(enumerate(items)), module="ExtractTrace")
    n = 200 if ck.quick else 5000
    for k in range(0, n, 500):
        ck.decide("random", lambda sd: extexec.Runner(t).execute(*rearg(extgen.run(sd, 0), sd)), [ck.seed * 1000003 + i for i in range(k, min(n, k + 500))], module="ExtractTrace")
        if ck.violations:
            break
    ck.assumptions += ["the times of extracted files are not compared (libgcab does not set them)"]


def rearg(x, sd):
    return x[0], sd, x[1]
