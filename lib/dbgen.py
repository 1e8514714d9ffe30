"""Random workloads over spec/MsiSys.tla operations.

The generator only keeps a rough idea of what exists, to make statements
meaningful; what they must do is decided by the specification alone."""
import random

INTS2 = [0, 1, 2, 3, 5, -1, 7, 32767, -32767, 100]
BAD2 = [32768, -32768, 40000, -40000, 65535, 65536, 65537, 2147483647, -2147483647]
INTS4 = [0, 1, 2, 3, -1, 70000, 32768, -32768, 65536, 2147483647, -2147483647, 65535]
STRS = ["a long key of some 30 letters..", "a", "b", "abc", "A", "x y", "0", "12", "k1", "zz", "%", "NULL", "-1", "a.b"]
UNI = ["日本語", "Ж and €", "\U0001f642 astral", "é", "\u00a0\u2028", "é" * 40, "e\u0301"]
LITBAD = "'"
HEX = ["", "00", "0102", "ff00ff", "68656c6c6f", "00" * 40, "ab" * 300]
TN = ["T", "U", "Wide", "Table", "t2", "Binary", "Key"]
CN = ["K", "A", "B", "C", "D", "Name", "Order", "Value", "k", "L2", "Type"]


def C(n, t, nn=False, sz=0, loc=False, tmp=False):
    return {"n": n, "t": t, "sz": 2 if t == "int2" else 4 if t == "int4" else 0 if t == "bin" else sz,
            "nn": nn, "loc": loc, "tmp": tmp}


class Gen:
    def __init__(self, seed, prof):
        self.r = random.Random(seed)
        self.p = prof
        self.ops = []
        self.tabs = {}      # handle -> {table: {cols, keys, tmp}}
        self.mode = {}
        self.files = {}     # path -> tabs as stored
        self.path = {}
        self.hold = {}
        self.q = {}         # query -> (handle, ast)
        self.nq = 0
        self.strs = list(STRS)
        self.dirty = False
        self.uni = False    # databases hold any Unicode text

    # ------------------------------------------------------------- pieces
    def pick(self, l):
        return self.r.choice(list(l))

    def chance(self, p):
        return self.r.random() < p

    def value(self, c, bad=0.0):
        t = c["t"]
        nullp = 0.12 if not c["nn"] else bad / 2
        if self.chance(nullp):
            return ["n"] if t != "str" or self.chance(.7) else ["s", ""]
        if t == "int2":
            return ["i", self.pick(BAD2) if self.chance(bad) else self.pick(INTS2)]
        if t == "int4":
            return ["i", self.pick(INTS4)]
        if t == "bin":
            return ["b", self.pick(HEX)]
        v = self.pick(self.strs)
        if self.p.get("bigstr") and not c.get("nobig") and self.chance(self.p["bigstr"]):
            v = self.pick(["L", "xyz", "\u00e9\u65e5" if self.uni else "q"]) * self.pick([300, 32767, 65535, 65536, 70001])
        return ["s", v]

    def operand(self, v, par):
        """value -> literal or ? (pushing onto par)"""
        if v[0] in ("n", "b") or (v[0] == "s" and LITBAD in v[1]) or self.chance(.5):
            par.append(v)
            return ["?", len(par)]
        return v

    def coldef(self, n, temp):
        t = self.pick(["int2", "int2", "int4", "str", "str", "str"] + (["bin"] if self.p.get("bin", True) and not temp else []))
        c = C(n, t, nn=self.chance(.4))
        if t == "str":
            c["sz"] = self.pick([0, -1, 1, 8, 64, 72, 255])
        if t != "bin" or True:
            if temp:
                c["tmp"] = True
            elif self.chance(.15):
                c["loc"] = t == "str" and True
        return c

    def create(self, h, t=None, temp=None, wide=False):
        t = t or (self.longname() if self.chance(self.p.get("longname", 0)) else self.pick(TN))
        temp = self.chance(self.p.get("temp", 0)) if temp is None else temp
        n = self.r.randint(25, 32) if wide else self.r.randint(1, 5)
        names = self.r.sample(CN, min(n, len(CN)))
        names += ["X%d" % i for i in range(n - len(names))]
        cols = [self.coldef(x, temp) for x in names]
        # a table's binary cells share one stream per row: only one such column
        for i in [i for i, c in enumerate(cols) if c["t"] == "bin"][1:]:
            cols[i] = C(cols[i]["n"], "int2", tmp=temp)
        nk = 1 if n == 1 or self.chance(.65) else min(n, self.pick([2, 2, 3]))
        cand = [c for c in cols if c["t"] != "bin"]
        if not cand:
            cols[0] = C(cols[0]["n"], "str", True, 10, tmp=temp)
            cand = [cols[0]]
        ks = self.r.sample(cand, min(nk, len(cand)))
        for k in ks:
            if not self.chance(.15):
                k["nn"] = True
        if self.p.get("baddef") and self.chance(self.p["baddef"]):
            z = self.r.randint(0, 3)
            if z == 0:
                cols.append(dict(cols[0]))
            elif z == 1:
                ks = [C("Nope", "int2")]
            elif z == 2 and len(cols) > 1:
                # a temporary key in a table that is not temporary
                cols[0] = C(cols[0]["n"], "int2", True, tmp=True)
                for c in cols[1:]:
                    c["tmp"] = False
                ks = [cols[0]]
            else:
                ks = ks + [ks[0]]
        if any(c["t"] == "bin" for c in cols):
            for k in ks:
                k["nn"] = True
                k["nobig"] = True
        keys = [k["n"] for k in ks]
        hold = temp and not self.chance(.1) or (not temp and self.chance(.05))
        self.sql(h, ["create", t, cols, keys, hold], [])
        if t in self.tabs[h] or len(set(c["n"] for c in cols)) < len(cols) or not set(keys) <= set(c["n"] for c in cols) \
                or len(set(keys)) < len(keys):
            return
        if temp and not hold:
            return
        cols = [dict(c) for c in cols]
        for i, k in enumerate(keys):
            j = [c["n"] for c in cols].index(k)
            cols[i], cols[j] = cols[j], cols[i]
        if any(c["tmp"] for c in cols) and not all(c["tmp"] for c in cols):
            if any(c["tmp"] for c in cols[:len(keys)]):
                return
        tmp = all(c["tmp"] for c in cols)
        self.tabs[h][t] = {"cols": cols, "keys": keys, "tmp": tmp}
        self.hold[(h, t)] = 1

    def cond(self, h, tabs, par, depth=2, joins=()):
        """condition over tables; columns are qualified when several tables are named"""
        if depth > 0 and self.chance(.4):
            return [self.pick(["and", "or"]), self.cond(h, tabs, par, depth - 1), self.cond(h, tabs, par, depth - 1)]
        t = self.pick(tabs)
        cs = self.colsof(h, t)
        c = self.pick(cs)
        ref = ["c", t if len(tabs) > 1 or self.chance(.2) else "", c["n"]]
        if c["t"] == "bin" or self.chance(.12):
            return [self.pick(["null", "notnull"]), ref]
        if len(tabs) > 1 and self.chance(.4):
            o = self.pick([x for x in tabs if x != t])
            oc = [x for x in self.colsof(h, o) if x["t"] != "bin" and (x["t"] == "str") == (c["t"] == "str")]
            if oc:
                op = "=" if self.chance(.7) else "<>" if c["t"] == "str" else self.pick(["<", ">", "<=", ">=", "<>"])
                return ["cmp", op, ref, ["c", o, self.pick(oc)["n"]]]
        if len(tabs) == 1 and self.chance(.15):
            oc = [x for x in cs if x["t"] != "bin" and (x["t"] == "str") == (c["t"] == "str")]
            op = self.pick(["=", "<>"]) if c["t"] == "str" else self.pick(["=", "<", ">", "<=", ">=", "<>"])
            return ["cmp", op, ref, ["c", ref[1], self.pick(oc)["n"]]]
        v = self.value(dict(c, nn=False), 0.05)
        if v[0] == "s" and len(v[1]) > 200:
            v = ["s", "a"]
        op = self.pick(["=", "=", "<>"]) if c["t"] == "str" else self.pick(["=", "=", "<", ">", "<=", ">=", "<>"])
        # parameters are consumed in textual order
        return ["cmp", op, ref, self.operand(v, par)]

    def colsof(self, h, t):
        if t == "_Tables":
            return [C("Name", "str", True)]
        if t == "_Columns":
            return [C("Table", "str", True), C("Number", "int2", True), C("Name", "str", True), C("Type", "int2", True)]
        if t == "_Streams":
            return [C("Name", "str", True)]
        return self.tabs[h][t]["cols"]

    def keycond(self, h, t, par):
        tb = self.tabs[h][t]
        c = None
        for k in tb["keys"]:
            d = [x for x in tb["cols"] if x["n"] == k][0]
            v = self.value(d)
            if v[0] == "s" and len(v[1]) > 200:
                v = ["s", "a"]
            e = ["cmp", "=", ["c", "", k], self.operand(v, par)]
            c = e if c is None else ["and", c, e]
        return c

    def given(self, c, bad):
        """a value supplied for a column: now and then of another type"""
        if c["t"] != "bin" and self.chance(self.p.get("cross", 0)):
            if c["t"] == "str":
                return ["i", self.pick(INTS4)]
            return ["s", self.pick(["7", "-3", "0", "007", "x", "1x", " 1", "-", "70000", "32768", "-32768", "4294967297", "2147483648", "2147483649"])]
        return self.value(c, bad)

    def insert(self, h, t, temp=False, bad=0.05):
        tb = self.tabs[h][t]
        cols = tb["cols"]
        use = list(cols)
        if self.chance(.3):
            use = [c for c in cols if c["n"] in tb["keys"] or (self.chance(.6)) or (c["nn"] and self.chance(.9))]
        if self.chance(.3):
            self.r.shuffle(use)
        par = []
        again = self.p.get("again", 0)
        seen = tb.setdefault("seen", [])
        old = dict(self.pick(seen)) if seen and self.chance(again) else {}
        given = [old[c["n"]] if c["n"] in old and not self.chance(.15) else self.given(c, bad) for c in use]
        keys = {c["n"]: v for c, v in zip(use, given) if c["n"] in tb["keys"]}
        if len(seen) < 40:
            seen.append([(k, v) for k, v in keys.items()])
        if any(v[0] == "s" and len(v[1]) > 20 for v in keys.values()):
            tb["long"] = True
        vals = [self.operand(v, par) for v in given]
        names = [c["n"] for c in use]
        if self.chance(bad / 3):
            names[0] = "Missing"
        if self.chance(bad / 3) and len(vals) > 1:
            vals.pop()
            par = par[:sum(1 for v in vals if v[0] == "?")]
        self.sql(h, ["insert", t, names, vals, temp], par)

    def update(self, h, t, bad=0.05):
        tb = self.tabs[h][t]
        free = [c for c in tb["cols"] if c["n"] not in tb["keys"]]
        if not free or self.chance(bad / 2):
            free = tb["cols"]
        use = self.r.sample(free, self.r.randint(1, min(3, len(free))))
        par = []
        if tb.get("long"):      # the known finding update-stream-name
            use = [c for c in use if c["t"] != "bin"] or [c for c in tb["cols"] if c["t"] != "bin"][:1]
        sets = [[c["n"], self.operand(self.given(c, bad), par)] for c in use]
        cond = self.keycond(h, t, par) if self.chance(.4) else ["true"] if self.chance(.15) else self.cond(h, [t], par)
        self.sql(h, ["update", t, sets, cond], par)

    def delete(self, h, t):
        par = []
        z = self.r.random()
        cond = ["true"] if z < self.p.get("delall", .04) else self.keycond(h, t, par) if z < .6 else self.cond(h, [t], par)
        self.sql(h, ["delete", t, cond], par)

    def select_ast(self, h, par):
        names = list(self.tabs[h])
        sys = ["_Tables", "_Columns", "_Streams"]
        z = self.r.random()
        if not names or z < .06:
            ts = [self.pick(sys)]
        elif z < .55 or len(names) == 1:
            ts = [self.pick(names)]
            if len(names) and self.chance(.05):
                ts = [ts[0], self.pick(["_Tables", "_Columns"])]
        else:
            ts = self.r.sample(names, 2 if len(names) == 2 or self.chance(.8) else 3)
        multi = len(ts) > 1
        refs = []
        for t in ts:
            for c in self.colsof(h, t):
                refs.append((["c", t if multi or self.chance(.1) else "", c["n"]], c))
        distinct = self.chance(.2)
        if distinct:
            refs2 = [x for x in refs if x[1]["t"] != "bin"]
        else:
            refs2 = refs
        if self.chance(.35) and not (distinct and any(c["t"] == "bin" for _, c in refs)) and not (distinct and "_Streams" in ts):
            cols = [["*"]]
        else:
            cols = [x[0] for x in self.r.sample(refs2, self.r.randint(1, min(4, len(refs2))))]
            if self.chance(.1):
                cols.append(cols[0])
        cond = ["true"] if self.chance(.2) else self.cond(h, ts, par)
        if multi and self.chance(.5):
            j = self.joincond(h, ts)
            if j:
                cond = j if cond == ["true"] else ["and", j, cond]
        order = []
        if self.chance(.35):
            order = [x[0] for x in self.r.sample(refs2, self.r.randint(1, min(3, len(refs2))))]
        return ["select", distinct, cols, ts, cond, order]

    def joincond(self, h, ts):
        pairs = [(a, b) for a in self.colsof(h, ts[0]) for b in self.colsof(h, ts[1])
                 if a["t"] != "bin" and b["t"] != "bin" and (a["t"] == "str") == (b["t"] == "str")]
        if not pairs:
            return None
        a, b = self.pick(pairs)
        return ["cmp", "=", ["c", ts[0], a["n"]], ["c", ts[1], b["n"]]]

    # --------------------------------------------------------- operations
    def sql(self, h, ast, par):
        self.ops.append(["sql", h, ast, par])

    def qclear(self, h=None, table=None):
        for q, (qh, ast) in list(self.q.items()):
            if (h is None or qh == h) and (table is None or self.uses(ast, table)):
                self.ops.append(["qfree", q])
                del self.q[q]

    def uses(self, ast, table):
        return table in (ast[3] if ast[0] == "select" else [ast[1]])

    def open(self, h, path, mode, out=""):
        self.ops.append(["open", h, path, mode, out])
        if mode == "create":
            self.tabs[h] = {}
            if self.uni:
                self.ops.append(["cp", h, 65001])
        elif path in self.files:
            self.tabs[h] = {k: dict(v) for k, v in self.files[path].items()}
        else:
            return False
        self.mode[h] = mode
        self.path[h] = (path, out if mode != "ro" else "")
        for t in self.tabs[h]:
            self.hold[(h, t)] = 1
        return True

    def close(self, h):
        self.qclear(h)
        self.ops.append(["close", h])
        p, out = self.path[h]
        if out:
            self.files.pop(out, None)
        del self.tabs[h], self.mode[h], self.path[h]

    def exit(self):
        self.ops.append(["exit"])
        self.q.clear()
        self.tabs.clear(), self.mode.clear(), self.path.clear()

    def commit(self, h):
        self.qclear(h)
        self.ops.append(["commit", h])
        if self.mode[h] == "ro":
            return
        p, out = self.path[h]
        tgt = out or p
        self.tabs[h] = {k: v for k, v in self.tabs[h].items() if not v["tmp"]}
        self.files[tgt] = {k: dict(v) for k, v in self.tabs[h].items()}
        self.path[h] = (tgt, "")
        for t in self.tabs[h]:
            self.hold[(h, t)] = 1

    def snap(self, h):
        self.ops.append(["snap", h])

    def prep(self, h):
        par = []
        z = self.r.random()
        names = list(self.tabs[h])
        self.nq += 1
        q = "Q" + "ABCDEFGHIJKLMNOPQRSTUVWXYZ"[self.nq % 26]
        if q in self.q:
            return
        if z < .7:
            ast = self.select_ast(h, par)
            if any(t.startswith("_") for t in ast[3]) or any(self.tabs[h][t]["tmp"] for t in ast[3]):
                return
        else:
            t = self.pick(names)
            if self.tabs[h][t]["tmp"]:
                return
            n0 = len(self.ops)
            if z < .9:
                self.insert(h, t, bad=0)
            elif z < .95:
                self.update(h, t, bad=0)
            else:
                self.delete(h, t)
            op = self.ops.pop()
            assert len(self.ops) == n0
            ast, par = op[2], op[3]
        self.ops.append(["prep", q, h, ast])
        self.q[q] = (h, ast)
        self.ops.append(["run", q, par])
        self.shape = par
        self.q[q] = (h, ast)
        self.qpar = getattr(self, "qpar", {})
        self.qpar[q] = par

    def rerun(self):
        if not self.q:
            return
        q = self.pick(self.q)
        h, ast = self.q[q]
        par = []
        for v in self.qpar[q]:
            t = {"i": "int2", "s": "str", "b": "bin", "n": "n"}[v[0]]
            par.append(v if t == "n" else self.value(C("", t, True)))
        self.ops.append(["run", q, par])

    def dml(self, h, bad):
        names = [t for t in self.tabs[h]]
        if not names:
            return self.create(h)
        t = self.pick(names)
        z = self.r.random()
        if z < .6:
            self.insert(h, t, self.chance(self.p.get("temprow", .03)), bad)
        elif z < .82:
            self.update(h, t, bad)
        else:
            self.delete(h, t)

    def longname(self, space=False):
        return "".join(self.pick(["ab", "Z", "_", " " if space else "+", "x", "-", "0."]) for _ in range(self.pick([20, 26, 30, 31, 32, 40, 45])))

    def streams(self, h):
        n = self.longname(True) if self.chance(.1) else self.pick(["s1", "s2", "Binary.a", "T.1", "x_y.z", "Foo Bar"])
        z = self.r.random()
        if z < .6:
            self.sql(h, ["insert", "_Streams", ["Name", "Data"], [["?", 1], ["?", 2]], False], [["s", n], ["b", self.pick(HEX)]])
        elif z < .8:
            self.sql(h, ["delete", "_Streams", ["cmp", "=", ["c", "", "Name"], ["?", 1]]], [["s", n]])
        elif z < .9:
            self.sql(h, ["select", False, [["*"]], ["_Streams"], ["cmp", "=", ["c", "", "Name"], ["?", 1]], []], [["s", n]])
        else:
            self.sql(h, ["insert", "_Streams", ["Data", "Name"], [["?", 1], ["?", 2]], False], [["n"], ["s", n]])

    def schema(self, h):
        z = self.r.random()
        names = list(self.tabs[h])
        if z < .35 or not names:
            self.create(h, wide=self.chance(self.p.get("wide", 0)))
            return
        t = self.pick(names)
        if z < .6:
            if self.tabs[h][t]["tmp"] and self.chance(.8):
                return
            n = self.pick(CN + ["Z1", "Z2", "Z3"])
            c = self.coldef(n, False)
            if c["t"] == "bin" and any(x["t"] == "bin" or (x["n"] in self.tabs[h][t]["keys"] and not (x["nn"] and x["t"] != "str"))
                                       for x in self.tabs[h][t]["cols"]):
                c = C(n, "int4")
            self.qclear(h, t)
            self.sql(h, ["addcol", t, c], [])
            tb = self.tabs[h][t]
            if not tb["tmp"] and n not in [x["n"] for x in tb["cols"]] and len(tb["cols"]) < 32:
                tb["cols"] = tb["cols"] + [c]
        elif z < .8:
            if self.chance(.1):
                t = self.pick(["Nope", "_Tables", "_Columns"])
                self.sql(h, ["drop", t], [])
                return
            self.qclear(h, t)
            self.sql(h, ["drop", t], [])
            del self.tabs[h][t]
        else:
            self.holdfree(h, t)

    def holdfree(self, h, t):
        k = self.pick(["hold", "free", "free"])
        self.qclear(h, t)
        self.sql(h, [k, t], [])
        if not self.tabs[h][t]["tmp"]:
            return
        n = self.hold[(h, t)] + (1 if k == "hold" else -1)
        self.hold[(h, t)] = n
        if n == 0:
            del self.tabs[h][t]


def run_profile(seed, name, n):
    """-> list of operations"""
    P = PROFILES[name]
    g = Gen(seed, P)
    r = g.r
    paths = ["p1.msi", "p2.msi"] if P.get("multi") else ["p1.msi"]
    H = ["A", "B", "C"] if P.get("multi") else ["A"]
    if r.random() < P.get("uni", 0):
        g.uni = True
        g.strs += UNI
    g.open("A", "p1.msi", "create")
    for _ in range(r.randint(1, P.get("tables", 2))):
        g.create("A", wide=r.random() < P.get("wide", 0))
    if name in ("D03",):
        for _ in range(r.randint(4, 25)):
            if g.tabs["A"]:
                g.insert("A", g.pick(g.tabs["A"]), bad=.02)
    if P.get("multi") or P.get("commit"):
        g.commit("A")
    W = P["w"]
    kinds = [k for k in W for _ in range(W[k])]
    while len(g.ops) < n:
        if not g.tabs:
            h = g.pick(H)
            p = g.pick(paths)
            g.open(h, p, g.pick(["rw", "ro", "rw"]) if p in g.files else "create", "")
            continue
        h = g.pick(g.tabs)
        k = g.pick(kinds)
        if k == "dml":
            g.dml(h, P.get("bad", .05))
        elif k == "select":
            par = []
            ast = g.select_ast(h, par)
            g.sql(h, ast, par)
        elif k == "prep" and g.tabs[h]:
            g.prep(h)
        elif k == "rerun":
            g.rerun()
        elif k == "snap":
            g.snap(h)
        elif k == "schema":
            g.schema(h)
        elif k == "stream":
            g.streams(h)
        elif k == "temp":
            t = [x for x in g.tabs[h]]
            z = r.random()
            if z < .3 or not t:
                g.create(h, temp=True)
            elif z < .6:
                g.holdfree(h, g.pick(t))
            else:
                g.insert(h, g.pick(t), temp=r.random() < .6)
        elif k == "commit":
            g.commit(h)
            if r.random() < .6:
                g.ops.append(["disk", g.path[h][0]])
        elif k == "reopen":
            p = g.path[h][0]
            g.close(h)
            m = r.choice(["rw", "rw", "ro"]) if not P.get("multi") else r.choice(["rw", "ro"])
            if p in g.files:
                g.open(h, p, m)
                g.snap(h)
        elif k == "open":
            fr = [x for x in H if x not in g.tabs]
            if fr:
                p = g.pick(paths)
                m = r.choice(["rw", "ro", "rw", "create"])
                out = g.pick(paths) if r.random() < .3 else ""
                if out == p:
                    out = ""
                if p not in g.files:
                    if m != "create" and r.random() < .7:
                        m = "create"
                g.open(fr[0], p, m, out)
        elif k == "close":
            g.close(h)
        elif k == "exit" and r.random() < .4:
            g.exit()
        elif k == "hash":
            g.ops.append(["hash", g.pick(paths)])
        elif k == "disk":
            g.ops.append(["disk", g.pick(paths)])
    for h in list(g.tabs):
        g.snap(h)
    for p in paths:
        g.ops.append(["disk", p])
        if P.get("multi"):
            g.ops.append(["hash", p])
    return g.ops


PROFILES = {
    "D01": {"w": {"dml": 20, "snap": 1, "select": 1, "commit": 1}, "bad": .04, "delall": .06, "tables": 3, "cross": .02, "again": .1},
    "D02": {"w": {"dml": 20, "snap": 2, "commit": 1}, "bad": .3, "delall": .01, "tables": 2, "cross": .05, "again": .35},
    "D03": {"w": {"select": 20, "dml": 3, "prep": 3, "rerun": 5, "snap": 1}, "bad": .02, "tables": 3},
    "D04": {"w": {"dml": 12, "commit": 3, "reopen": 2, "schema": 2, "stream": 2, "snap": 1}, "bad": .03,
            "delall": .1, "tables": 3, "bigstr": .02, "wide": .1, "commit": 1, "longname": .1, "uni": .4},
    "D05": {"w": {"dml": 12, "commit": 2, "open": 5, "close": 3, "exit": 1, "hash": 3, "disk": 2, "snap": 4, "stream": 1,
                  "schema": 2}, "multi": True, "longname": .02, "bad": .03, "tables": 2, "temp": .1},
    "D07": {"w": {"schema": 12, "dml": 5, "snap": 3, "commit": 1, "reopen": 1, "select": 1}, "bad": .02, "tables": 3,
            "wide": .15, "longname": .1, "baddef": .1, "temp": .1},
    "D08": {"w": {"temp": 10, "dml": 6, "snap": 3, "commit": 1, "reopen": 1, "select": 1, "schema": 1}, "bad": .03,
            "temprow": .4, "temp": .5, "tables": 3},
    "D09": {"w": {"dml": 8, "stream": 6, "snap": 2, "commit": 1, "reopen": 1, "select": 2}, "bad": .02, "tables": 2},
}
