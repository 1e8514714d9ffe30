"""Executes specification-level operations (spec/MsiSys.tla) on the real libmsi
and records what it answered.

An operation is a JSON list, see MsiSys!Step.  Paths in operations are symbolic
names; they become files of a scratch directory."""
import hashlib, os, shutil, tempfile
import build, drv, mst, sqltext

SID = {}


def hnum(name):
    """handles are names in the specification, numbers in the driver"""
    return str(abs(hash_name(name)) % 60)


def hash_name(n):
    v = 0
    for c in n:
        v = v * 27 + (ord(c) - 64)
    return v


LONG = 200


def canon(v):
    """long texts are represented by their digest, on both sides"""
    if isinstance(v, str) and len(v) > LONG:
        return "#%d:%s" % (len(v), hashlib.sha1(v.encode("utf8", "surrogateescape")).hexdigest())
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {k: canon(x) for k, x in v.items()}
    return v


def rows_obs(rows):
    return rows


def _types(s):
    return list(s)


def sql_obs(r, ast):
    if r is None:
        return ["crash"]
    if not r.get("ok"):
        return ["fail", r.get("code", 0)]
    if ast[0] == "select":
        return ["rows", _types(r.get("types", "")), r.get("rows", [])]
    return ["ok"]


HIDDEN = "\x05"
CTL = {"~": "\x10", "^": "\x11", "|": "\x19"}      # how spec/Idt.tla writes them


def idt_bytes(text):
    return "".join(CTL.get(c, c) for c in text)


def idt_text(raw):
    back = {v: k for k, v in CTL.items()}
    return "".join(back.get(c, c) for c in raw)


def idt_obs(r, rd, ls):
    """an exported table: its three head lines, its rows, the files beside it"""
    if not r["ok"]:
        return ["fail", r.get("code", 0)]
    lines = idt_text(rd.get("text", "")).split("\r\n")
    tail = lines.pop()
    return ["idt", lines[:3] + ([tail] if tail else []), lines[3:], ls["files"]]


def snap_obs(r):
    if r is None:
        return ["crash"]
    if not r.get("ok"):
        return ["fail", "snap"]
    tabs = []
    for t in r["tabs"]:
        cols = []
        for n, ty in zip(t["names"], t["types"]):
            try:
                cols.append([n, ty[0], int(ty[1:] or 0)])
            except (ValueError, IndexError):
                cols.append([n, ty, -1])
        tabs.append({"name": t["name"], "cols": cols, "pk": t["pk"], "per": t["per"], "rows": t["rows"]})
    cat = [[v[1] if len(v) > 1 else "?" for v in row] for row in r["cat"]]
    st = [[row[0][1] if len(row[0]) > 1 else "?", row[1][1] if len(row[1]) > 1 else "?"] for row in r["str"]]
    st = [x for x in st if not x[0].startswith(HIDDEN)]
    return ["snap", {"tabs": tabs, "cat": cat, "str": st}]


class Runner:
    def __init__(self, drvpath, seed=0, env=None):
        self.drv = drvpath
        self.env = env
        self.prefix = ()
        self.rng = __import__("random").Random(seed)
        self.style = sqltext.Style(self.rng)

    def execute(self, ops, keep=None, dirpath=None):
        """-> (trace [[op, obs]...], crash-or-None).  keep: directory to leave the files in"""
        d = dirpath or tempfile.mkdtemp(prefix="db.", dir=build.scratch())
        trace = []
        crash = None
        try:
            seg = []
            segs = [seg]
            for op in ops:
                seg.append(op)
                if op[0] == "exit":
                    seg = []
                    segs.append(seg)
            for seg in segs:
                if not seg:
                    continue
                done, crash = self._segment(seg, d)
                trace += done
                if crash:
                    break
        finally:
            if dirpath is None and not keep:
                shutil.rmtree(d, ignore_errors=True)
        return trace, crash

    def _path(self, d, p):
        return os.path.join(d, p)

    def _segment(self, seg, d):
        cmds = []
        plan = []          # (op, indices, collector)
        texts = []
        prepast = {}

        def add(*c):
            cmds.append(c)
            return len(cmds) - 1

        for op in seg:
            k = op[0]
            if k == "open":
                fl = {"ro": 1, "rw": 4, "create": 2}[op[3]]
                i = add("open", hnum(op[1]), self._path(d, op[2]), fl, self._path(d, op[4]) if op[4] else "-")
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k in ("close", "commit"):
                i = add(k, hnum(op[1]))
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "fcommit":       # the commit that something happens to
                add("exists", "/commit-begin")
                i = add("commit", hnum(op[1]))
                add("exists", "/commit-end")
                if len(op) > 2:
                    add("okexit")
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "exit":
                i = add("exit")
                plan.append((op, i, lambda r: ["ok"]))
            elif k == "sql":
                text = self.style.sql(op[2])
                texts.append(text)
                i = add("sql", hnum(op[1]), text, *[drv.par(p) for p in op[3]])
                plan.append((op, i, lambda r, a=op[2]: sql_obs(r, a)))
            elif k == "text":
                i = add("sql", hnum(op[1]), op[2], *[drv.par(p) for p in op[3]])
                sel = op[2].lstrip(" \t\n\f").lower().startswith("select")
                plan.append((op, i, lambda r, a=("select" if sel else "",): sql_obs(r, a)))
            elif k == "prep":
                text = self.style.sql(op[3])
                prepast[op[1]] = op[3]
                i = add("prep", hnum(op[1]), hnum(op[2]), text)
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "run":
                a = prepast[op[1]]
                i = add("runall", hnum(op[1]), "s" if a[0] == "select" else "x", *[drv.par(p) for p in op[2]])
                plan.append((op, i, lambda r, a=a: sql_obs(r, a)))
            elif k == "qfree":
                i = add("qfree", hnum(op[1]))
                plan.append((op, i, lambda r: ["ok"]))
            elif k == "snap":
                i = add("snap", hnum(op[1]))
                plan.append((op, i, snap_obs))
            elif k == "disk":
                p = self._path(d, op[1])
                i = add("exists", p)
                add("open", "61", p, 1, "-")
                add("snap", "61")
                add("close", "61")
                plan.append((op, (i, i + 3), None))
            elif k == "hash":
                i = add("sha", self._path(d, op[1]))
                plan.append((op, i, lambda r: ["sha", r["sha"]] if r["ok"] else ["absent"]))
            elif k == "export":
                p = self._path(d, "x%d.idt" % len(plan))
                i = add("export", hnum(op[1]), op[2], p)
                add("rfile", p)
                add("lsdir", self._path(d, op[2]))
                plan.append((op, (i, i + 1, i + 2), idt_obs))
            elif k == "import":
                p = self._path(d, "imp")
                i = add("wfile", d, "imp", idt_bytes(op[2]).encode("utf8").hex())
                i = add("import", hnum(op[1]), p)
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "exim":
                p = self._path(d, "exim")
                i = add("export", hnum(op[1]), op[2], p)
                add("import", hnum(op[3]), p)
                plan.append((op, (i, i + 1), lambda a, b: ["ok"] if a["ok"] and b["ok"] else ["fail", 0]))
            elif k == "merge":
                i = add("merge", hnum(op[1]), hnum(op[2]), op[3] or "-")
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "apply":
                p = self._path(d, "t%d.mst" % len(plan))
                enc = mst.encode(op, self.rng.random() < .3, self.rng.random() < .4)
                add("ole", p, 1, *[x if i == 0 else x.hex() for nm in enc for i, x in enumerate(nm)])
                i = add("transform", hnum(op[1]), p)
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "badmst":        # not a transform
                p = self._path(d, "t%d.mst" % len(plan))
                if op[2] == "text":
                    add("wfile", d, "t%d.mst" % len(plan), b"no compound file\n".hex() * 40)
                elif op[2] != "missing":
                    enc = mst.encode(["apply", op[1], [["New", [{"n": "K", "t": "str", "sz": 8, "nn": True, "loc": False}], 1]], [], [], []],
                                     False, False, op[2] != "nopool")
                    add("ole", p, {"class": 0, "database": 2}.get(op[2], 1), *[x if i == 0 else x.hex() for nm in enc for i, x in enumerate(nm)])
                i = add("transform", hnum(op[1]), p)
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "cp":
                add("wfile", d, "imp", ("\r\n\r\n%d\t_ForceCodepage\r\n" % op[2]).encode().hex())
                i = add("import", hnum(op[1]), self._path(d, "imp"))
                plan.append((op, i, lambda r: ["ok"] if r["ok"] else ["fail", r.get("code", 0)]))
            elif k == "getcp":
                i = add("export", hnum(op[1]), "_ForceCodepage", self._path(d, "exp"))
                add("rfile", self._path(d, "exp"))
                plan.append((op, (i, i + 1), lambda a, b: ["text", b["text"].rstrip("\0")] if a["ok"] else ["fail", 0]))
            elif k == "put":
                i = add("wfile", self._path(d, op[1]), op[2], op[3])
                plan.append((op, i, lambda r: ["ok"]))
            else:
                raise ValueError(op)
        res, crashed, err = drv.run(self.drv, cmds, d, env=self.env, prefix=self.prefix)
        if seg[-1][0] == "exit" and len(res) == len(cmds):
            crashed = False
        out = []
        for op, i, f in plan:
            if f is None:
                a, b = i
                if b >= len(res):
                    return out, (op, err)
                if not res[a]["ok"]:
                    obs = ["absent"]
                elif not res[a + 1]["ok"]:
                    obs = ["fail", "open"]
                else:
                    obs = snap_obs(res[a + 2])
            elif isinstance(i, tuple):
                if i[-1] >= len(res):
                    return out, (op, err)
                obs = f(*[res[k] for k in i])
            else:
                if i >= len(res):
                    return out, (op, err)
                obs = f(res[i])
            if obs[0] == "idt":
                obs[3] = canon(obs[3])
            out.append([op, obs] if op[0] in ("text", "import", "export") else [canon(op), canon(obs)])
        if crashed:
            return out, (seg[-1], err)
        return out, None
