"""Executes operations of spec/WixPre.tla with wixl -E."""
import os, random, re, subprocess
import xml.parsers.expat
import toolexec

SAID = re.compile(r"^(\S+):\d+: (warning|error): (.*)$", re.M)


def esc(r, s, q=None):
    o = ""
    for c in s:
        if c == "&" or c == "<" or c == q or (c == ">" and r.random() < .5) or c in "\n\t" and q:
            o += {"&": "&amp;", "<": "&lt;", ">": "&gt;", '"': "&quot;", "'": "&apos;"}.get(c) or "&#%d;" % ord(c)
        elif c.isalnum() and r.random() < .02:
            o += "&#x%x;" % ord(c)
        else:
            o += c
    return o


def template(t):
    return "".join({"lit": lambda: p[1], "ref": lambda: "$(%s.%s)" % (p[1], p[2]), "esc": lambda: "$$(%s.%s)" % (p[1], p[2]), "two": lambda: "$$" + p[1],
                    "bad": lambda: {"nodot": "$(A)", "space": "$(fun.A)", "open": "$(var.A", "call": "$(var.A(x))"}[p[1]]}[p[0]]() for p in t)


def condition(r, c):
    o = ""
    for t in c:
        k = t[0]
        if k == "int":
            x = str(t[1])
        elif k == "str":
            q = '"' if "'" in t[1] else "'" if '"' in t[1] else r.choice("'\"")
            x = q + t[1] + q
        elif k == "id":
            x = t[1]
        elif k == "ref":
            x = "$(%s)" % (t[1] + "." + t[2] if t[1] else t[2])
        elif k == "op":
            x = t[1]
        elif k == "junk":
            x = "&"
        elif k in ("and", "or", "not"):
            x = r.choice([k, k, k.upper(), k.capitalize()])
        else:
            x = k
        word = lambda y: y and (y[-1].isalnum() or y[-1] in "_.")
        if o and (word(o) and (x[0].isalnum() or x[0] == "_") or r.random() < .6):
            o += r.choice([" ", " ", "  ", "\n"])
        o += x
    return r.choice(["", " "]) + o + r.choice(["", " "])


def quoted(r, v):
    """a value of a define"""
    must = v == "" or v != v.strip() or (v[0] == v[-1] and v[0] in "'\"")
    q = '"' if must or r.random() < .5 else r.choice(["", "'"])
    return q + v + q


def pi(n, v):
    return "<?%s%s?>" % (n, " " + v if v else "")


def token(r, t):
    k = t[0]
    if k == "open":
        o = "<" + t[1]
        for a, v in t[2]:
            q = r.choice("'\"")
            o += r.choice([" ", "\n"]) + a + r.choice(["=", " = "]) + q + esc(r, template(v), q) + q
        return o + r.choice(["", " "]) + ">"
    if k == "close":
        return "</%s>" % t[1]
    if k == "text":
        x = template(t[1])
        return "<![CDATA[%s]]>" % x if r.random() < .2 and "]]>" not in x else esc(r, x)
    if k == "comment":
        return "<!--%s-->" % t[1]
    if k == "define":
        if not t[1]:
            return r.choice(["<?define?>", "<?define = 1?>", "<?define A?>"])
        return pi("define", r.choice(["", "var."]) + t[1] + r.choice(["=", " = ", " =", "= "]) + quoted(r, template(t[2])) + r.choice(["", " "]))
    if k == "undef":
        return pi("undef", r.choice(["", "var."]) + t[1] + r.choice(["", " "]))
    if k in ("ifdef", "ifndef"):
        return pi(k, (t[1] + "." if t[1] else "") + t[2] + r.choice(["", " "]))
    if k in ("if", "elseif"):
        return pi(k, condition(r, t[1]).strip() if t[1] else "")
    if k in ("else", "endif"):
        return pi(k, "")
    if k in ("include", "require"):
        return pi(k, template(t[1]) + (r.choice(["", " "]) if t[1] else ""))
    return pi(k, template(t[1]))


def document(r, toks):
    o = r.choice(["", "<?xml version='1.0'?>", '<?xml version="1.0" encoding="utf-8"?>\n'])
    bare = False
    for i, t in enumerate(toks):
        x = token(r, t)
        nx = toks[i + 1] if i + 1 < len(toks) else None
        if t[0] == "close" and i and toks[i - 1][0] == "open" and bare:
            o = o[:-1] + "/>"
            continue
        o += x
        bare = t[0] == "open" and nx and nx[0] == "close" and r.random() < .5
        if bare:
            continue
        nxt = toks[i + 1][0] if i + 1 < len(toks) else "end"
        # (space between tags means nothing; beside text it does)
        if t[0] != "text" and nxt != "text" and r.random() < .5:
            o += r.choice(["\n", "  ", "\n\t"])
        if r.random() < .05:
            o += "<!-- $(var.NONE) <?else?> -->"
    return o


def parse(x):
    out = []

    def start(n, a):
        out.append(["open", n, [[a[i], a[i + 1]] for i in range(0, len(a), 2)]])

    def data(d):
        if out and out[-1][0] == "text":
            out[-1][1] += d
        else:
            out.append(["text", d])
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = True
    p.buffer_text = True
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: out.append(["close"])
    p.CharacterDataHandler = data
    p.Parse(x, True)
    return [t for t in out if t[0] != "text" or t[1].strip()]


class Runner(toolexec.Runner):
    def one(self, op):
        c = op[0]
        if c in ("file", "add"):
            f = self.files.get(op[1])
            self.files[op[1]] = op[2] if c == "file" else f[:-1] + op[2] + f[-1:]
            return ["ok"]
        for n, toks in self.files.items():
            f = self.w + "/" + n
            os.makedirs(os.path.dirname(f), exist_ok=True)
            with open(f, "w", encoding="utf8") as o:
                o.write(document(self.r, toks))
        args = []
        for n, v in op[2]:
            args += ["-D", n if v == "1" and self.r.random() < .5 else n + "=" + v]
        for d in op[5]:
            os.makedirs(self.w + "/" + d, exist_ok=True)
            args += ["-I", d]
        if op[4] != "x86" or self.r.random() < .3:
            args += ["-a", op[4]]
        args = ["-E", op[1]] + args if self.r.random() < .5 else args + ["-E", op[1]]
        self.env = dict(map(tuple, op[3]))
        rc, out = self.run("wixl", *args)
        clean = lambda v: v.replace(os.path.realpath(self.w), "@").replace(self.w, "@")
        said = [[k, f, clean(m)] for f, k, m in SAID.findall(self.err) if not (k == "error" and m.startswith("Failed to include"))]
        if rc == 1 and not out:
            return ["fail", said]
        if rc:
            return ["exit %d" % rc, out]
        try:
            toks = parse(out)
        except xml.parsers.expat.ExpatError as e:
            return ["bad output: %s" % e, out]
        for t in toks:
            if t[0] == "text":
                t[1] = clean(t[1])
            elif t[0] == "open":
                for a in t[2]:
                    a[1] = clean(a[1])
        return ["doc", toks, said]

    def execute(self, ops, seed=0):
        self.r = random.Random(str(seed))
        self.files = {}
        return toolexec.Runner.execute(self, ops)
