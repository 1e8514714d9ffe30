"""Executes operations of spec/MsiStg.tla on libmsi's _Storages and _Streams tables."""
import os, shutil, tempfile
import build, drv

LISTS = {"streams", "names", "find", "disk"}


def num(r):
    return str(ord(r) - 64)


def execute(d, ops):
    w = tempfile.mkdtemp(prefix="stg.", dir=build.scratch())
    cmds = []

    def data(f):
        return "n" if f == "null" else "f:%s/%s.cf" % (w, f)
    try:
        with open(w + "/other", "wb") as o:
            o.write(b"other")
        for op in ops:
            c = op[0]
            sql = ["sql", num(op[1])] if c not in ("cfile", "raw", "disk") else None
            if c == "cfile":
                cmds.append(["cfile", "%s/%s.cf" % (w, op[1])] + [x for e in op[2] for x in e])
            elif c == "raw":
                cmds.append(["wfile", w, op[1] + ".cf", "00010203" * 200])
            elif c == "open":
                cmds.append(["open", num(op[1]), "%s/%s.msi" % (w, op[2]), {"ro": 1, "rw": 4, "create": 2}[op[3]], "-"])
            elif c in ("close", "commit"):
                cmds.append([c, num(op[1])])
            elif c == "ins":
                cmds.append(sql + ["INSERT INTO `_Storages` (`Name`, `Data`) VALUES (?, ?)", "s:" + op[2], data(op[3])])
            elif c == "upd":
                cmds.append(sql + ["UPDATE `_Storages` SET `Data` = ? WHERE `Name` = ?", data(op[3]), "s:" + op[2]])
            elif c == "ren":
                cmds.append(sql + ["UPDATE `_Storages` SET `Name` = ? WHERE `Name` = ?", "s:" + op[3], "s:" + op[2]])
            elif c == "del":
                cmds.append(sql + ["DELETE FROM `_Storages` WHERE `Name` = ?", "s:" + op[2]])
            elif c == "clear":
                cmds.append(sql + ["DELETE FROM `_Storages`"])
            elif c == "other":
                cmds.append(sql + ["INSERT INTO `_Streams` (`Name`, `Data`) VALUES (?, ?)", "s:" + op[2], "f:" + w + "/other"])
            elif c == "streams":
                cmds.append(sql + ["SELECT `Name` FROM `_Streams`"])
            elif c == "names":
                cmds.append(sql + ["SELECT `Name` FROM `_Storages`"])
            elif c == "find":
                cmds.append(sql + ["SELECT `Name` FROM `_Storages` WHERE `Name` = ?", "s:" + op[2]])
            elif c == "disk":
                cmds.append(["stgs", "%s/%s.msi" % (w, op[1])])
        res, crash, err = drv.run(d, cmds, w)
    finally:
        shutil.rmtree(w, ignore_errors=True)
    tr = [[op, [op[0], obs(op, r)]] for op, r in zip(ops, res)]
    return tr, ((ops[len(res)] if len(res) < len(ops) else ops[-1]), err) if crash else None


def obs(op, r):
    c = op[0]
    if c == "disk":
        return r["tree"] if r["ok"] else [["!fail", ""]]
    if c in LISTS:
        if not r["ok"]:
            return ["!fail"]
        return [text(x[0]) for x in r["rows"] if not (c == "streams" and text(x[0]).startswith("\x05"))]
    return "ok" if r["ok"] else "fail"


def text(x):
    return x[1] if isinstance(x, list) else x
