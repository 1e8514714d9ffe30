"""Random workloads around text archives (spec/Idt.tla)."""
import copy
import dbgen

PROFILE = {"bad": .03, "delall": .05, "tables": 3}
SPECIAL = ["tab\there", "line\nbreak", "cr\rlf\r\n", "'quoted' \"text\"", "\t", "\n", " lead", "trail ", "ünï©ödé", "\r", "a\\b", "`x`", "\n\n\t", "x" * 130]
CELLS = ["a", "b", "x y", "p~q", "^|", "~", "it's", "é", "0", "12", "-1", " s", "q\"", "zz"]
INTS = ["0", "1", "-1", "7", "-32767", "32767", "007", "3", "4", "5", "6"]
BADINTS = ["x", "1z", "1.5", "-", "99999999999", "2147483648", "--1", "0x10"]


class Gen(dbgen.Gen):
    def __init__(self, seed):
        super().__init__(seed, PROFILE)
        self.strs = dbgen.STRS + SPECIAL + SPECIAL
        self.files = {}
        self.dir = set()
        self.maybe = set()      # tables an import may have made

    def plain(self, h):
        return [t for t, b in self.tabs[h].items() if not any(c["tmp"] for c in b["cols"])]

    def exim(self, h, g):
        ok = [t for t in self.plain(h)
              if (g, t) not in self.maybe and (t not in self.tabs[g] or (self.tabs[g][t]["cols"] == self.tabs[h][t]["cols"] and self.tabs[g][t]["keys"] == self.tabs[h][t]["keys"]))
              and not (len(self.tabs[h][t]["cols"]) == 1 and not self.tabs[h][t]["cols"][0]["nn"])]
        if ok:
            t = self.pick(ok)
            self.ops.append(["exim", h, t, g])
            # (a refused import leaves no table: later statements then fail on both sides)
            self.tabs[g].setdefault(t, copy.deepcopy(self.tabs[h][t]))
            self.hold.setdefault((g, t), 1)

    def text(self, h):
        r = self.r
        old = [t for t in self.plain(h)]
        if old and self.chance(.35):
            t = self.pick(old)
            cols, keys = [dict(c) for c in self.tabs[h][t]["cols"]], list(self.tabs[h][t]["keys"])
            new = False
        else:
            t = self.pick(dbgen.TN + ["Order", "New_1", "Select"])
            if t in self.tabs[h]:
                return
            new = True
            names = r.sample(dbgen.CN, r.randint(1, 5))
            cols = [self.coldef(n, False) for n in names]
            for c in cols:
                c["sz"] = max(c["sz"], 0)
                c["tmp"] = False
            for c in [c for c in cols if c["t"] == "bin"][1:]:
                c.update(t="str", sz=72)
            cand = [c for c in cols if c["t"] != "bin"]
            if not cand:
                cols.append(dbgen.C("Id", "str", True, 72))
                cand = cols[-1:]
            ks = r.sample(cand, 1 if self.chance(.7) else min(2, len(cand)))
            if self.chance(.8) or any(c["t"] == "bin" for c in cols):
                for c in ks:
                    c["nn"] = True
            keys = [c["n"] for c in ks]
            if self.chance(.5):
                cols = ks + [c for c in cols if c not in ks]
        if not new and self.chance(.3):
            r.shuffle(cols)
        hasbin = any(c["t"] == "bin" for c in cols)
        letters = {"str": "s", "int2": "i", "int4": "i", "bin": "v"}
        names, types = [], []
        for c in cols:
            l = "l" if c["loc"] and c["t"] == "str" else letters[c["t"]]
            names.append(c["n"])
            types.append((l if c["nn"] else l.upper()) + str({"int2": r.choice([2, 2, 2, 1]), "int4": 4, "bin": 0}.get(c["t"], max(c["sz"], 0))))
        rows, used = [], set()
        for _ in range(r.choice([0, 1, 2, 3, 6])):
            row = []
            for c in cols:
                if c["t"] == "bin":
                    row.append(self.pick(["", "f1", "f2", "f3"]))
                elif not c["nn"] and self.chance(.2):
                    row.append("")
                elif c["t"] == "str":
                    row.append(self.pick(CELLS))
                else:
                    row.append(self.pick(INTS + (["70000", "-2147483647", "2147483647"] if c["t"] == "int4" else [])))
            k = tuple(str(int(x)) if x and c["t"].startswith("int") else x for c, x in zip(cols, row) if c["n"] in keys)
            if (k in used or "" in k and len(cols) == 1) and (hasbin or self.chance(.8)):
                continue
            used.add(k)
            rows.append(row)
        bad = self.chance(.3)
        if bad:
            z = r.randint(0, 9)
            if z == 0 and rows:
                self.pick(rows).append("more")
            elif z == 1 and rows and len(cols) > 1:
                self.pick(rows).pop()
            elif z == 2:
                types[r.randrange(len(types))] = self.pick(["x1", "", "i3", "i8", "s", "sx", "s300", "S-1", "q"])
                if not new:
                    return
            elif z == 3:
                keys = self.pick([[], ["Nope"], keys + keys])
                if not new:
                    return
            elif z == 4:
                types.append("i2")
            elif z == 5 and rows and not hasbin:
                ints = [i for i, c in enumerate(cols) if c["t"].startswith("int")]
                if ints:
                    self.pick(rows)[self.pick(ints)] = self.pick(BADINTS)
            elif z == 6 and rows and not hasbin:
                ints = [i for i, c in enumerate(cols) if c["t"] == "int2"]
                if ints:
                    self.pick(rows)[self.pick(ints)] = self.pick(["32768", "-32768", "70000"])
            elif z == 7 and rows and not hasbin:
                rows.append(list(self.pick(rows)))
            elif z == 8 and rows and hasbin:
                self.pick(rows)[[c["t"] for c in cols].index("bin")] = "missing"
            elif z == 9 and rows and not hasbin:
                nn = [i for i, c in enumerate(cols) if c["nn"]]
                if nn:
                    self.pick(rows)[self.pick(nn)] = ""
        if not new and not rows and bad and self.chance(.5):
            names[0] = "Other"
        if hasbin:
            for n, hx in (("f1", "00ff"), ("f2", ""), ("f3", "ab" * 600)):
                if (t, n) not in self.dir:
                    self.dir.add((t, n))
                    self.ops.append(["put", t, n, hx])
        nl = self.pick(["\r\n", "\n", "\r\n"])
        lines = ["\t".join(x) for x in [names, types, [t] + keys] + rows]
        text = nl.join(lines) + ("" if self.chance(.15) else nl)
        if self.chance(.05):
            text += nl
        if self.chance(.03):
            text = nl.join(text.split(nl)[:r.randint(0, 3)])
            bad = True
        self.ops.append(["import", h, text])
        if new and bad:
            self.maybe.add((h, t))
        if new and not bad and (h, t) not in self.maybe:
            cs = [dict(c) for c in cols]
            for i, k in enumerate(keys):
                j = [c["n"] for c in cs].index(k)
                cs[i], cs[j] = cs[j], cs[i]
            self.tabs[h][t] = {"cols": cs, "keys": keys, "tmp": False}
            self.hold[(h, t)] = 1


def run(seed, n):
    g = Gen(seed)
    r = g.r
    g.open("A", "p1.msi", "create")
    g.open("B", "p2.msi", "create")
    if r.random() < .5:
        g.strs += ["日本語", "Ж and €", "\U0001f642 astral"]
        for h in ("A", "B"):
            g.ops.append(["cp", h, 65001])
            g.ops.append(["getcp", h])
    for _ in range(r.randint(1, 3)):
        g.create("A", wide=r.random() < .1)
    while len(g.ops) < n:
        h = r.choice(["A", "B"])
        o = "B" if h == "A" else "A"
        k = r.choice(["dml"] * 8 + ["exim"] * 4 + ["text"] * 5 + ["export"] * 4 + ["commit", "snap", "create", "schema"])
        if k == "dml":
            g.dml(h, .03)
        elif k == "exim":
            g.exim(h, o)
            if r.random() < .3:
                g.snap(o)
        elif k == "text":
            g.text(h)
        elif k == "export":
            ts = g.plain(h)
            if ts:
                g.ops.append(["export", h, g.pick(ts) if r.random() < .97 else "Missing"])
        elif k == "commit":
            g.commit(h)
            g.ops.append(["disk", g.path[h][0]])
        elif k == "snap":
            g.snap(h)
        elif k == "create":
            g.create(h)
        elif k == "schema":
            g.schema(h)
    for h in ("A", "B"):
        g.snap(h)
        g.commit(h)
        g.ops.append(["disk", g.path[h][0]])
    return g.ops


def merges(seed, n):
    """two or three databases whose tables resemble each other, merged now and then"""
    g = Gen(seed)
    r = g.r
    hs = ["A", "B", "C"][:r.choice([2, 2, 3])]
    for i, h in enumerate(hs):
        g.open(h, "p%d.msi" % i, "create")
    errs = 0
    def vary(t, b):
        b = copy.deepcopy(b)
        z = r.random()
        cs = b["cols"]
        extra = dbgen.C(r.choice([c for c in dbgen.CN if c not in [x["n"] for x in cs]]), r.choice(["str", "int2", "int4"]), r.random() < .2, 20)
        if z < .6:
            pass
        elif z < .75:
            cs.append(extra)
        elif z < .85:
            for c in cs:
                if c["t"] == "str":
                    c["loc"] = not c["loc"]
        else:
            c = r.choice(cs)
            c["nn"] = c["n"] in b["keys"] or not c["nn"]
        return b
    while len(g.ops) < n:
        h = r.choice(hs)
        o = r.choice([x for x in hs if x != h])
        k = r.choice(["dml"] * 9 + ["like"] * 4 + ["copy"] * 3 + ["merge"] * 4 + ["commit", "snap", "create", "create"])
        if k == "dml":
            g.dml(h, .03)
        elif k == "copy":
            g.exim(h, o)
        elif k == "like":
            ts = [t for t in g.plain(h) if t not in g.tabs[o] and (o, t) not in g.maybe]
            if ts:
                t = g.pick(ts)
                b = vary(t, g.tabs[h][t])
                sql = ["create", t, [dict(c, sz=max(c["sz"], 0)) for c in b["cols"]], b["keys"], False]
                g.ops.append(["sql", o, sql, []])
                g.tabs[o][t] = {"cols": [dict(c) for c in b["cols"]], "keys": list(b["keys"]), "tmp": False}
                g.hold[(o, t)] = 1
        elif k == "merge":
            errs += 1
            g.ops.append(["merge", h, o, r.choice(["", "Errs%d" % errs])])
            g.snap(h)
            for t in g.plain(o):
                if t not in g.tabs[h]:
                    g.maybe.add((h, t))
                    g.tabs[h][t] = copy.deepcopy(g.tabs[o][t])
                    g.hold[(h, t)] = 1
        elif k == "commit":
            g.commit(h)
            g.ops.append(["disk", g.path[h][0]])
        elif k == "snap":
            g.snap(h)
        elif k == "create":
            ns = [x for x in dbgen.TN if (h, x) not in g.maybe]
            if ns:
                g.create(h, g.pick(ns), temp=r.random() < .04)
    for h in hs:
        g.snap(h)
        g.commit(h)
        g.ops.append(["disk", g.path[h][0]])
    return g.ops


def transforms(seed, n):
    g = Gen(seed)
    r = g.r
    g.open("A", "p1.msi", "create")
    if r.random() < .6:
        g.ops.append(["cp", "A", 65001])
        g.strs += ["日本語", "Ж and €", "\U0001f642 astral", "it's"]
    keys = {}

    def row(t, cols, nk):
        vals = []
        t = str([t] + [c["t"] for c in cols[:nk]])
        for i, c in enumerate(cols):
            v = g.value(dict(c, nobig=True))
            if i < nk and keys.get(t) and len(keys[t][-1]) == nk and g.chance(.6):
                v = g.pick([x for x in keys[t] if len(x) == nk])[i]
            if v == ["s", ""]:
                v = ["n"]
            if c["nn"] and v == ["n"]:
                v = {"str": ["s", "z"], "bin": ["b", ""]}.get(c["t"], ["i", 1])
            if i < nk and v[0] == "s" and len(v[1]) > 20 and (c["t"] == "str"):
                v = ["s", v[1][:20]]
            if i >= nk and v[0] == "s" and c["t"] == "str" and not c["sz"] and g.chance(.05):
                v = ["s", "x" * 70000]
            vals.append(v)
        keys.setdefault(t, []).append(vals[:nk])
        return vals

    def usable(t):
        b = g.tabs["A"][t]
        return not b["tmp"] and not any(c["tmp"] for c in b["cols"]) and [c["n"] for c in b["cols"]][:len(b["keys"])] == b["keys"]

    for _ in range(r.randint(1, 3)):
        g.create("A", temp=False, wide=r.random() < .1)
    while len(g.ops) < n:
        k = r.choice(["dml"] * 4 + ["apply"] * 8 + ["commit", "snap", "create", "schema", "bad", "reopen"])
        if k == "dml":
            g.dml("A", .03)
        elif k == "apply":
            news, adds, changes, drops = [], [], [], []
            named = set()
            if g.chance(.25):
                t = g.pick(dbgen.TN + ["New_1", "Select", "a_name.of_more_than_32_characters_"])
                if t not in g.tabs["A"]:
                    cols = [g.coldef(x, False) for x in r.sample(dbgen.CN, r.randint(1, 5))]
                    for c in cols:
                        c["sz"] = max(c["sz"], 0)
                    bins = [c for c in cols if c["t"] == "bin"]
                    for c in bins[1:]:
                        c.update(t="str", sz=72)
                    cols = [c for c in cols if c["t"] != "bin"] + bins[:1]
                    if cols[0]["t"] == "bin":
                        cols.insert(0, dbgen.C("Id", "int2", True))
                    nk = r.randint(1, min(2, len(cols) - len(bins[:1])))
                    for c in cols[:nk]:
                        c["nn"] = c["nn"] or bool(bins)
                    news.append([t, cols, nk])
                    g.tabs["A"][t] = {"cols": cols, "keys": [c["n"] for c in cols[:nk]], "tmp": False}
                    g.hold[("A", t)] = 0
            old = [t for t in g.tabs["A"] if usable(t) and t not in [x[0] for x in news]]
            if old and g.chance(.15):
                t = g.pick(old)
                b = g.tabs["A"][t]
                for _ in range(r.choice([1, 1, 2])):
                    x = g.pick(dbgen.CN)
                    if x not in [c["n"] for c in b["cols"]] and len(b["cols"]) < 14:
                        c = dbgen.C(x, g.pick(["int2", "int4", "str"]), False, 30)
                        adds.append([t, c, len(b["cols"]) + 1])
                        b["cols"] = b["cols"] + [c]
            for t in [t for t in g.tabs["A"] if usable(t) and (g.chance(.5) or t in [x[0] for x in news])]:
                b = g.tabs["A"][t]
                cols, nk = b["cols"], len(b["keys"])
                for _ in range(r.choice([1, 1, 2, 4])):
                    what = g.pick(["add", "add", "set", "set", "del"])
                    vals = row(t, cols, nk)
                    which = []
                    if what == "add" and g.chance(.2):
                        k = r.randint(nk, len(vals))
                        if not any(c["nn"] for c in cols[k:]):
                            vals = vals[:k]
                    if what == "set":
                        cand = [i + 1 for i in range(nk, min(len(cols), 16))]
                        if not cand:
                            continue
                        which = sorted(r.sample(cand, r.randint(1, len(cand))))
                    if any(c["t"] == "bin" for c in cols):
                        # the transform has one stream per name
                        name = ".".join([t] + [str(x[1]) if len(x) > 1 else "" for x in vals[:nk]])
                        if name in named:
                            continue
                        named.add(name)
                    changes.append([t, cols, nk, what, which, vals])
            if old and g.chance(.08):
                t = g.pick(old)
                if t not in [x[0] for x in adds]:
                    drops.append([t, len(g.tabs["A"][t]["cols"])])
                    changes = [c for c in changes if c[0] != t]
                    del g.tabs["A"][t]
                    g.qclear("A", t)
            g.ops.append(["apply", "A", news, adds, changes, drops])
            if g.chance(.5):
                g.snap("A")
        elif k == "commit":
            g.commit("A")
            g.ops.append(["disk", "p1.msi"])
        elif k == "reopen":
            g.commit("A")
            g.close("A")
            g.open("A", "p1.msi", "rw")
        elif k == "snap":
            g.snap("A")
        elif k == "create":
            g.create("A", temp=g.chance(.1))
        elif k == "schema":
            g.schema("A")
        elif k == "bad":
            g.ops.append(["badmst", "A", g.pick(["missing", "text", "class", "database", "nopool"])])
    g.snap("A")
    g.commit("A")
    g.ops.append(["disk", "p1.msi"])
    return g.ops
