"""Executes operations of spec/MsiSum.tla on libmsi's summary information."""
import os, shutil, tempfile
import build, dbexec, drv


def num(r):
    return str(ord(r) - 64)


def execute(d, ops, env=None):
    w = tempfile.mkdtemp(prefix="sum.", dir=build.scratch())
    cmds, plan = [], []

    def add(*c):
        cmds.append(list(c))
        return len(cmds) - 1
    try:
        for op in ops:
            c = op[0]
            if c == "open":
                i = add("open", num(op[1]), w + "/" + op[2] + ".msi", {"ro": 1, "rw": 4, "create": 2}[op[3]], "-")
            elif c in ("close", "commit"):
                i = add(c, num(op[1]))
            elif c == "sinew":
                i = add(c, num(op[1]) if True else "", num(op[2]) if op[2] else -1, op[3])
            elif c == "sisave":
                i = add(c, num(op[1]), num(op[2]))
            elif c == "disk":
                i = add("open", 60, w + "/" + op[1] + ".msi", 1, "-")
                if True:
                    add("sinew", 30, 60, 0)
                    add("sidump", 30)
                    add("sifree", 30)
                    add("close", 60)
            elif c == "siexport":
                i = add("export", num(op[1]), "_SummaryInformation", w + "/x")
                add("rfile", w + "/x")
            elif c == "siimport":
                add("wfile", w, "imp", dbexec.idt_bytes(op[2]).encode("utf8").hex())
                i = add("import", num(op[1]), w + "/imp")
            elif c == "siexim":
                i = add("export", num(op[1]), "_SummaryInformation", w + "/y")
                add("import", num(op[2]), w + "/y")
            else:
                i = add(c, num(op[1]), *op[2:])
            plan.append((op, i))
        res, crash, err = drv.run(d, cmds, w, env=env)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    tr = []
    for k, (op, i) in enumerate(plan):
        last = plan[k + 1][1] - 1 if k + 1 < len(plan) else len(cmds) - 1
        if last >= len(res):
            return tr, (op, err)
        tr.append([op, obs(op, res[i], res[i + 2] if op[0] == "disk" else res[i + 1] if op[0] in ("siexport", "siexim") else None)])
    return tr, (ops[-1], err) if crash else None


def obs(op, r, dump):
    c = op[0]
    if c == "disk":
        return ["ok", dump["res"]] if r["ok"] else ["fail"]
    t = "ok" if r["ok"] else "fail"
    if c == "siexport" and r["ok"]:
        o = dbexec.idt_obs(r, dump, {"files": []})
        return ["ok", o[1], o[2]]
    if c == "siexim":
        return ["ok" if r["ok"] and dump["ok"] else "fail"]
    if c == "sigeti":
        return [t, ["i", r["res"]]]
    if c == "sigets":
        return [t, ["n"] if r["res"] is None else ["s", r["res"]]]
    if c == "sigett":
        return [t, ["t", r["res"]]]
    if c in ("sitype", "siprops"):
        return [t, r["res"]]
    return [t]
