"""D01-D05, D07-D09: the database against spec/MsiSys.tla."""
import build, dbexec, dbgen, drv, model

MODELS = {
    # property: [(module, quick constants, thorough constants, independent)]
    "D01": [("MC_Dml", {}, {"KEYS": 3}, True)],
    "D02": [("MC_Range", {"DEPTH": 2}, {"DEPTH": 4}, True), ("MC_Dml", {}, {"KEYS": 2}, True),
            ("MC_Keys", {"DEPTH": 2}, {"DEPTH": 3}, True)],
    "D03": [("MC_Query", {"DEPTH": 5}, {"DEPTH": 8}, True)],
    "D04": [("MC_Life", {"DEPTH": 3, "RICH": 1}, {"DEPTH": 4, "RICH": 1}, False), ("MC_Page", {"DEPTH": 3}, {"DEPTH": 5}, False)],
    "D05": [("MC_Life", {"DEPTH": 4}, {"DEPTH": 5}, False)],
    "D07": [("MC_Schema", {}, {"DEPTH": 4}, True)],
    "D08": [("MC_Temp", {"DEPTH": 4}, {"DEPTH": 6}, True)],
    "D09": [("MC_Stream", {"DEPTH": 3}, {"DEPTH": 5}, True)],
}
LOOK = [["disk", "p1.msi"], ["disk", "p2.msi"], ["hash", "p1.msi"]]
RANDOM = {  # quick (count, length), thorough
    "D03": ((200, 70), (2500, 90)),
}


def run(ck):
    d = build.lib()
    for module, q, t, ind in MODELS[ck.prop]:
        pre, beh, st = model.explore(module, q if ck.quick else t, workers=1 if ck.quick else 8)
        ck.model(st)
        runs = model.traces(pre, beh, [["snap", "A"]] if ind else LOOK, independent=ind)
        ck.decide(module, lambda it: dbexec.Runner(d, it[0]).execute(it[1]),
                  [(ck.seed * 100003 + i, r) for i, r in enumerate(runs)])
    n, length = RANDOM.get(ck.prop, ((300, 70), (4000, 90)))[0 if ck.quick else 1]
    step = 800
    for k in range(0, n, step):
        ck.decide("random", lambda sd: dbexec.Runner(d, sd).execute(dbgen.run_profile(sd, ck.prop, length)),
                  [ck.seed * 1000003 + i for i in range(k, min(n, k + step))])
        if ck.violations:
            break
    if ck.prop in SCRIPTS:
        SCRIPTS[ck.prop](ck, d)
    ck.assumptions += [
        "whole-state observations go through libmsi's own SELECT, _Columns and _Streams reads, in the same session and in fresh ones",
        "workloads stay within the documented use described in DESIGN.md (no statement execution after commit/DROP/ALTER of its table, one binary column per table)"]


def d03_known(ck, d):
    """executing or reading a prepared query after its table was rewritten"""
    C = {"n": "K", "t": "int2", "sz": 2, "nn": True, "loc": False, "tmp": False}
    sel = ["select", False, [["*"]], ["T"], ["true"], []]
    for key, op in (("query-after-commit", ["commit", "A"]), ("query-after-drop", ["sql", "A", ["drop", "T"], []]),
                    ("query-after-alter", ["sql", "A", ["addcol", "T", dict(C, n="Z", nn=False)], []])):
        ops = [["open", "A", "p", "create", ""], ["sql", "A", ["create", "T", [C], ["K"], False], []],
               ["sql", "A", ["insert", "T", ["K"], [["i", 1]], False], []], ["prep", "Q", "A", sel], ["run", "Q", []], op, ["run", "Q", []]]
        _, crash = dbexec.Runner(d, 1).execute(ops)
        if crash and not ck.known(key, ""):
            ck.violation("running a prepared query after %s died" % op[:1], {"ops": ops, "stderr": crash[1][-3000:]})
    B = [dict(C), {"n": "D", "t": "bin", "sz": 0, "nn": False, "loc": False, "tmp": False}]
    ops = [["open", "A", "p", "create", ""], ["sql", "A", ["create", "T", B, ["K"], False], []]]
    for k, h in ((1, "00"), (2, "01")):
        ops.append(["sql", "A", ["insert", "T", ["K", "D"], [["i", k], ["?", 1]], False], [["b", h]]])
    ops.append(["sql", "A", ["select", True, [["c", "", "D"]], ["T"], ["true"], []], []])
    tr, crash = dbexec.Runner(d, 1).execute(ops)
    if crash or len(tr[-1][1][2]) != 2:
        if not ck.known("distinct-binary", ""):
            ck.violation("SELECT DISTINCT of a binary column", {"ops": ops, "got": tr[-1:], "crash": crash})


def d01_known(ck, d):
    """an UPDATE of a binary column that is refused for a later row's stream name"""
    cols = [{"n": "K", "t": "str", "sz": 0, "nn": True, "loc": False, "tmp": False}, {"n": "D", "t": "bin", "sz": 0, "nn": False, "loc": False, "tmp": False}]
    ops = [["open", "A", "p", "create", ""], ["sql", "A", ["create", "T", cols, ["K"], False], []]]
    for k in ("a", "z" * 70):
        ops.append(["sql", "A", ["insert", "T", ["K"], [["s", k]], False], []])
    ops += [["sql", "A", ["update", "T", [["D", ["?", 1]]], ["true"]], [["b", "00"]]], ["snap", "A"]]
    tr, crash = dbexec.Runner(d, 1).execute(ops)
    rej, _ = ck.validate("DbTrace", [tr])
    if (crash or rej) and not ck.known("update-stream-name", ""):
        ck.violation("UPDATE of a binary column where one row's stream name does not fit", {"ops": ops, "trace": tr, "crash": crash})


SCRIPTS = {"D03": d03_known, "D01": d01_known}
