"""D12: merging databases against MsiSys!DoMerge."""
import build, dbexec, idtgen, model


def run(ck):
    d = build.lib()
    pre, beh, st = model.explore("MC_Merge", {"DEPTH": 2 if ck.quick else 4}, workers=1 if ck.quick else 8)
    ck.model(st)
    runs = model.traces(pre, beh, [["snap", "A"], ["snap", "B"]], independent="AB")
    ck.decide("MC_Merge", lambda it: dbexec.Runner(d, it[0]).execute(it[1]), [(ck.seed * 1009 + i, r) for i, r in enumerate(runs)])
    d = build.lib(asan=True)
    n = 200 if ck.quick else 4000
    for k in range(0, n, 500):
        ck.decide("random", lambda sd: dbexec.Runner(d, sd).execute(idtgen.merges(sd, 60)), [ck.seed * 1000003 + i for i in range(k, min(n, k + 500))])
        if ck.violations:
            break
    ck.assumptions += ["the table that counts conflicts has no rows about the merged tables before the merge"]
