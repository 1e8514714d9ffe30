"""Executes operations of spec/MsiRec.tla on libmsi's records."""
import os, shutil, tempfile
import build, drv

TXT = {"rcount", "rgeti", "rgets", "rnull", "rstream"}


def num(r):
    return str(ord(r) - 64)


def execute(d, ops):
    w = tempfile.mkdtemp(prefix="rec.", dir=build.scratch())
    cmds = []
    try:
        for k, op in enumerate(ops):
            c, r = op[0], num(op[1])
            if c == "rload":
                p = "%s/f%d" % (w, k)
                with open(p, "wb") as o:
                    o.write(bytes.fromhex(op[3]))
                cmds.append(["rload", r, op[2], p])
            elif c == "rnofile":
                cmds.append(["rload", r, op[2], w + "/nothing"])
            elif c == "rstream":
                cmds.append(["rstream", r, op[2]] + ["%s%d" % (a, b) for a, b in op[3]])
            else:
                cmds.append([c, r] + list(op[2:]))
        res, crash, err = drv.run(d, cmds, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    tr = [[op, [op[0], obs(op, r)]] for op, r in zip(ops, res)]
    return tr, ((ops[len(res)] if len(res) < len(ops) else ops[-1]), err) if crash else None


def obs(op, r):
    c = op[0]
    if c == "rstream":
        if not r["ok"]:
            return ["none"]
        out = []
        for x in r["res"]:
            if x[0] == "r":
                h = x[2]
                out.append(["r", x[1], h[1] if isinstance(h, list) else h])
            else:
                out.append(x)
        return ["data", out]
    return r["res"] if c in TXT else r["ok"]
