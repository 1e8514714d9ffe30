"""D13: transforms against MsiSys!DoApply."""
import build, dbexec, idtgen, model


def run(ck):
    d = build.lib()
    pre, beh, st = model.explore("MC_Mst", {"DEPTH": 2 if ck.quick else 3}, workers=1 if ck.quick else 8)
    ck.model(st)
    # tables as they were made in the session, and as they are read from the file
    runs = model.traces(pre, beh, [["snap", "A"], ["commit", "A"], ["disk", "p1.msi"]], independent="A")
    again = pre + [["commit", "A"], ["close", "A"], ["open", "A", "p1.msi", "rw", ""]]
    runs += model.traces(again, beh, [["snap", "A"], ["commit", "A"], ["disk", "p1.msi"]], independent="A")
    ck.decide("MC_Mst", lambda it: dbexec.Runner(d, it[0]).execute(it[1]), [(ck.seed * 1009 + i, r) for i, r in enumerate(runs)])
    n = 200 if ck.quick else 4000
    for k in range(0, n, 500):
        ck.decide("random", lambda sd: dbexec.Runner(d, sd).execute(idtgen.transforms(sd, 50)), [ck.seed * 1000003 + i for i in range(k, min(n, k + 500))])
        if ck.violations:
            break
    ck.assumptions += ["transforms fit the database they are applied to: changed rows are there, columns are not made NOT NULL"]
