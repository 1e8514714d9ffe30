"""Random workloads for the command line tools (spec/MsiTool.tla)."""
import random

TN = ["A", "Bee", "Property", "T_1", "x.y", "Order", "Very_long_table_name_of_31_chars"[:31]]
CN = ["K", "Name", "Val", "A1", "Order", "n_o", "Z"]
STR = ["x", "y", "a;b", "two words", "tab\there", "insert into", "SELECT", "-dash", "x`y", "\"dq\"", "é ü", "0", "-5", " lead", "trail ", "%s", "a\\b", "q" * 150,
       "line\nbreak", "@x", "[Prop]", "select;", "~", "1;2;3"]
STREAMS = ["Strm", "Binary.x", "s-1", "A long stream name of thirty-1", "é", "sp ace", "_q", "Tbl.K.x", "1"]


def q(n):
    return "`%s`" % n


class Gen:
    def __init__(self, seed):
        self.r = random.Random("tool/%s" % seed)
        self.p, self.sum, self.ops = {}, set(), []

    def chance(self, x):
        return self.r.random() < x

    def value(self, c, lit=True):
        r = self.r
        if not c["nn"] and self.chance(.2):
            return None
        if c["t"] == "str":
            return r.choice(STR) if self.chance(.8) else "r%d" % r.randrange(10 ** 6)
        if c["t"] == "int2":
            return r.choice([0, 1, -1, 7, 32767, -32767, r.randrange(-30000, 30000)])
        return r.choice([0, 1, -70000, 2147483647, -2147483647, r.randrange(10 ** 9)])

    def cols(self, bin=True):
        r = self.r
        names = r.sample(CN, r.randint(1, 4))
        cs = [{"n": n, "t": r.choice(["str", "str", "int2", "int4"]), "nn": self.chance(.4), "loc": self.chance(.2), "sz": r.choice([0, 1, 38, 72, 255])} for n in names]
        nk = 1 if len(cs) == 1 or self.chance(.7) else 2
        for c in cs[:nk]:
            c["nn"] = True
        if bin and len(cs) > nk and self.chance(.35):
            cs[-1].update(t="bin", nn=self.chance(.5))
        return cs, [c["n"] for c in cs[:nk]]

    def lit(self, v):
        return "NULL" if v is None else str(v) if isinstance(v, int) else "'%s'" % v

    def kw(self, s):
        r = self.r
        return s if self.chance(.7) else s.lower() if self.chance(.5) else "".join(r.choice([c.upper(), c.lower()]) for c in s)

    def statement(self, d):
        """d: the tables of the package; returns SQL text"""
        r = self.r
        z = r.random()
        if z < .25 or not d:
            t = r.choice(TN)
            cs, ks = self.cols(bin=self.chance(.3))
            ty = {"str": lambda c: "CHAR(%d)" % c["sz"] if c["sz"] else "LONGCHAR", "int2": lambda c: r.choice(["SHORT", "INT", "INTEGER"]),
                  "int4": lambda c: "LONG", "bin": lambda c: "OBJECT"}
            sql = "CREATE TABLE %s (%s PRIMARY KEY %s)" % (q(t), ", ".join(
                "%s %s%s%s" % (q(c["n"]), ty[c["t"]](c), " NOT NULL" if c["nn"] else "", " LOCALIZABLE" if c["loc"] and c["t"] == "str" else "") for c in cs),
                ", ".join(map(q, ks)))
            if t not in d:
                d[t] = (cs, ks)
            return sql
        t = r.choice(sorted(d))
        cs, ks = d[t]
        plain = [c for c in cs if c["t"] != "bin"]
        if any(c["t"] == "bin" and c["nn"] for c in cs) or z > .97:
            if self.chance(.1):
                del d[t]
                return self.kw("DROP TABLE ") + q(t)
            return "SELECT * FROM %s" % q(t)
        if z < .75:
            cc = list(plain)
            if self.chance(.3):
                cc = [c for c in cc if c["nn"] or self.chance(.7)]
            if self.chance(.3):
                r.shuffle(cc)
            return self.kw("INSERT INTO ") + "%s (%s) " % (q(t), ", ".join(q(c["n"]) for c in cc)) + self.kw("VALUES") + " (%s)" % ", ".join(self.lit(self.value(c)) for c in cc)
        c = r.choice(plain)
        w = " WHERE %s = %s" % (q(c["n"]), self.lit(self.value(dict(c, nn=True)))) if self.chance(.8) else ""
        if z < .85:
            return self.kw("DELETE FROM ") + q(t) + w
        s = [x for x in plain if x["n"] not in ks]
        if not s:
            return self.kw("SELECT") + " * FROM " + q(t)
        x = r.choice(s)
        return self.kw("UPDATE ") + q(t) + self.kw(" SET ") + "%s = %s" % (q(x["n"]), self.lit(self.value(x))) + w

    def script(self, d):
        r = self.r
        out = ""
        for i in range(r.choice([0, 1, 1, 1, 2, 3, 5])):
            s = self.statement(d)
            if out:
                out += r.choice([";", " ", "\n", "; ", ";;", " ; ", ";\n"])
            elif self.chance(.1):
                out += r.choice([" ", "\n", ";"])
            out += s
        return out + r.choice(["", "", "", ";", " ", ";\n"])

    def cell(self, v):
        return "" if v is None else str(v).replace("\t", "~").replace("\n", "|")

    def text(self, d, files):
        r = self.r
        if self.chance(.12):
            ls = ["%d\t%s" % (p, v) for p, v in r.sample([(2, "A title"), (3, "Sub~ject"), (4, "Who"), (7, "Intel;1031"), (9, "{00000000-0000-0000-0000-00000000000B}"),
                  (12, "2013/02/26 05:06:07"), (13, "1999/12/31 23:59:59"), (14, "500"), (15, "-2"), (19, "2"), (6, ""), (18, "me")], r.randint(0, 4))]
            if self.chance(.1):
                ls.append("12\tyesterday")
            return "PropertyId\tValue\r\ni2\tl255\r\n_SummaryInformation\tPropertyId\r\n" + "".join(x + "\r\n" for x in ls)
        t = r.choice(TN)
        if t in d and not self.chance(.1):
            cs, ks = d[t]
            cs = [c for c in cs if c["n"] in ks] + [c for c in cs if c["n"] not in ks]
        else:
            cs, ks = self.cols()
            if t in d:
                return self.text(d, files)
        lt = {"str": lambda c: ("l" if c["loc"] else "s") + str(c["sz"]), "int2": lambda c: "i2", "int4": lambda c: "i4", "bin": lambda c: "v0"}
        rows, used = [], set()
        for _ in range(r.choice([0, 1, 2, 4])):
            row = []
            for c in cs:
                if c["t"] == "bin":
                    n = r.choice(["f1", "f2", "f 3"] + ([] if c["nn"] else [""]))
                    if n and (t, n) not in files:
                        files[(t, n)] = {"f1": "00ff0d0a", "f2": "", "f 3": "%02x" % r.randrange(256) * r.choice([1, 50, 3000])}[n]
                    row.append(n)
                else:
                    v = self.value(c)
                    row.append(self.cell(v))
            k = tuple(row[:len(ks)])
            if k in used:
                continue
            # binary streams are named after the keys
            if any(c["t"] == "bin" for c in cs) and (len("".join(k)) > 20 or any(x in y for y in k for x in "/\\;~|")):
                continue
            used.add(k)
            if row != [""]:
                rows.append(row)
        if self.chance(.04) and rows:
            rows.append(rows[0])
        bad = self.chance(.03)
        if bad:
            return r.choice(["", "K\n", "K\ts\nx\n", t + "\nZ9\n" + t + "\tK\n"])
        if t not in d:
            d[t] = (cs, ks)
        return "".join("\t".join(x) + "\r\n" for x in [[c["n"] for c in cs], [lt[c["t"]](c).upper() if not c["nn"] else lt[c["t"]](c) for c in cs], [t] + ks] + rows)

    def build(self, p):
        r = self.r
        d = self.p.setdefault(p, {})
        steps, files = [], {}
        for _ in range(r.choice([1, 1, 2, 3, 4])):
            z = r.random()
            if z < .15:
                steps.append(["s", [r.choice(["T", "Long name", "é", ""]), "Someone", r.choice(["Intel;1033", "x64;1031", ""]), "{00000000-0000-0000-0000-00000000000A}"][:r.randint(1, 4)]])
            elif z < .5:
                steps.append(["i", [self.text(d, files) for _ in range(r.choice([1, 1, 2, 3]))], None])
            elif z < .82:
                steps.append(["q", [self.script(d) for _ in range(r.choice([1, 1, 2]))]])
            elif z < .95:
                steps.append(["a", r.choice(STREAMS), "%02x" % r.randrange(256) * r.choice([0, 1, 10, 80]) if self.chance(.95) else "missing"])
            elif z < .97:
                steps.append(["q", [r.choice(["NONSENSE", "INSERT INTO `A` (`K`) VALUES ('lone", "SELECT * FROM Nowhere", "CREATE TABLE", "`x", "'"])]])
            elif z < .98:
                steps.append(["z"])
        fs = [[t, n, h] for (t, n), h in sorted(files.items())]
        for s in steps:
            if s[0] == "i":
                s[2] = fs
        self.ops.append(["build", p, steps])

    def look(self, p):
        r = self.r
        z = r.random()
        d = self.p.get(p, {})
        if z < .15:
            self.ops.append([r.choice(["tables", "streams", "suminfo"]), p])
        elif z < .3:
            self.ops.append(["stream", p, r.choice(STREAMS)])
        elif z < .55:
            self.ops.append(["export", p, r.choice(sorted(d) or ["A"]) if self.chance(.85) else r.choice(TN + ["_SummaryInformation", "_ForceCodepage"])])
        elif z < .75:
            self.ops.append(["dump", p, r.choice(["", "t", "s", "ts"])])
        elif z < .9:
            self.ops.append(["diff", p, r.choice("pqr")])
        else:
            ok = [t for t, (cs, _) in d.items() if all(c["t"] != "bin" for c in cs)]
            o = "w%d" % len(self.ops)
            if ok:
                self.ops.append(["copysql", p, r.choice(ok), o])
                self.ops.append(["disk", o])


def run(seed, n):
    g = Gen(seed)
    r = g.r
    while len(g.ops) < n:
        p = r.choice("ppq" if g.p else "p")
        if r.random() < .4:
            g.build(p)
            g.ops.append(["disk", p])
            if r.random() < .1:
                g.ops.append(["build", "r", []])
        else:
            g.look(p if r.random() < .98 else "r")
    return g.ops
