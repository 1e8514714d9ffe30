"""Random documents for spec/WixPre.tla."""
import random

NAMES = ["A", "B", "Cc", "a", "X.Y", "_n", "Zig1", "wIn"]
TEXTS = ["1", "2", "10", "9", "x", "Hello World", "<&>", "a\"b", "it's", "Ünï€", "-3", "yes", "X64", "x64", "0", "100%", "]]", "a=b", "=", "{0}", "12abc"]
ELEMS = ["b", "Property", "Directory", "c.d", "Include", "Ünit"]
ATTRS = ["Id", "Value", "x", "xml-y", "Name"]
OPS = ["=", "!=", "~=", "<", "<=", ">", ">="]


class Gen:
    def __init__(self, seed):
        self.r = random.Random("pre%d" % seed)
        self.bad = self.r.random() < .35
        self.likely = self.r.sample(NAMES, 4)

    def name(self):
        return self.r.choice(self.likely if self.r.random() < .85 else NAMES)

    def ref(self, kind="ref", cond=False):
        r = self.r
        k = r.random()
        if k < .75:
            return [kind, "var", self.name()]
        if k < .87:
            return [kind, "env", r.choice(["WXA", "WXB", "WXNONE"]) if r.random() < (.9 if self.bad or cond else 0) else r.choice(["WXA", "WXB"])]
        if k < .98 or not self.bad:
            return [kind, "sys", r.choice(["BUILDARCH"] if cond else ["BUILDARCH", "CURRENTDIR", "SOURCEFILEPATH"])]
        return [kind, r.choice(["fun", "sys", "loc", "VAR"]), "BUILDARCHX"]

    def template(self, empty=False):
        r = self.r
        if empty and r.random() < .1:
            return []
        q = []
        for _ in range(r.choice([1, 1, 1, 2, 2, 3, 4])):
            k = r.random()
            if k < .46:
                q.append(["lit", r.choice(TEXTS)])
            elif k < .48:
                q.append(["lit", r.choice(["a$b", "$5", "US$ 5"])])
            elif k < .5:
                q.append(["two", r.choice(["b", "5$x", " ", ".)"])])
            elif k < .9:
                q.append(self.ref())
            elif k < .97 or not self.bad:
                q.append(self.ref("esc"))
            else:
                q.append(["bad", r.choice(["nodot", "space", "open", "call"])])
        # (what follows an open parenthesis might close it)
        for i, p in enumerate(q):
            if p == ["bad", "open"]:
                return q[:i + 1]
        return q

    def term(self):
        r = self.r
        k = r.random()
        if k < .45:
            return [self.ref(cond=True)]
        if k < .65:
            return [["int", r.choice([0, 1, 2, 3, 9, 10, 11, 100])]]
        if k < .85:
            return [["str", r.choice([t for t in TEXTS if "\\" not in t and not ('"' in t and "'" in t)] + [""])]]
        return [["id", r.choice(["x", "X64", "x64", "Hello", "a.b", "yes", "_n1", "x86"])]]

    def cond(self, d=0):
        r = self.r
        k = r.random()
        if d > 3 or k < .5:
            return self.term() + [["op", r.choice(OPS)]] + self.term() if r.random() < .8 else [["int", r.choice([0, 1, 2])]] if r.random() < .7 else self.term()
        if k < .7:
            return [["("]] + self.cond(d + 1) + [[")"]]
        if k < .8:
            return [["not"]] + self.cond(d + 1)
        return self.cond(d + 1) + [[r.choice(["and", "or"])]] + self.cond(d + 1)

    def condition(self):
        c = self.cond()
        if self.bad and self.r.random() < .06:
            c = list(c)
            i = self.r.randrange(len(c))
            x = self.r.random()
            if x < .4:
                del c[i]
            elif x < .7:
                c.insert(i, self.r.choice([["junk"], ["("], [")"], ["and"], ["op", "="]]))
            else:
                c = []
        return c

    def body(self, d, n, inc):
        r = self.r
        q = []
        for _ in range(r.randint(0, n)):
            k = r.random()
            if k < .2 and d < 4:
                e = r.choice(ELEMS)
                q += [["open", e, [[a, self.template(True)] for a in r.sample(ATTRS, r.choice([0, 1, 1, 2, 3]))]]] + self.body(d + 1, n - 1, inc) + [["close", e]]
            elif k < .32:
                t = self.template()
                # (white space alone may vanish)
                q.append(["text", [["lit", "t"]] + t])
            elif k < .5:
                q.append(["define", self.name(), self.template(True)] if r.random() < .97 or not self.bad else ["define", "", []])
            elif k < .56:
                q.append(["undef", self.name()])
            elif k < .80 and d < 5:
                if r.random() < .4:
                    ns, nm = ("var", self.name()) if r.random() < .8 else ("env", r.choice(["WXA", "WXNONE"]))
                    if self.bad and r.random() < .05:
                        ns, nm = r.choice([("", ""), ("", "A"), ("fun", "A"), ("sys", "NONE")])
                    q.append([r.choice(["ifdef", "ifndef"]), ns, nm])
                else:
                    q.append(["if", self.condition()])
                q += self.body(d + 1, n - 1, inc)
                while r.random() < .35:
                    q += [["elseif", self.condition()]] + self.body(d + 1, n - 1, inc)
                if r.random() < .5:
                    q += [["else"]] + self.body(d + 1, n - 1, inc)
                    if self.bad and r.random() < .05:
                        q.append(r.choice([["else"], ["elseif", [["int", 1]]]]))
                if not (self.bad and r.random() < .03):
                    q.append(["endif"])
            elif k < .9 and inc:
                f = r.choice(inc)
                q.append([r.choice(["include", "include", "require"]), f])
            elif k < .95:
                q.append(["warning", [["lit", r.choice(["note", "w x"])], self.ref()] if r.random() < .7 else [["lit", "plain"]]])
            elif k < .97 and self.bad:
                q.append(r.choice([["error", [["lit", "stop"]]], ["else"], ["endif"], ["error", []], ["include", [["lit", "nofile"]]], ["include", []]]))
        return q

    def run(self):
        r = self.r
        ops = []
        places = ["", "i/", "j/k/", "src/"]
        incs = []
        for i in range(r.choice([0, 0, 1, 2, 3, 4])):
            base = "f%d.wxi" % r.randint(0, 2)
            path = r.choice(places) + base
            b = self.body(2, 4, list(incs))
            root = r.random()
            if root < .8:
                b = [["open", "Include", [["v", [["lit", "1"]]]] if r.random() < .2 else []]] + b + [["close", "Include"]]
            else:
                b = [["open", "Part", []]] + b + [["close", "Part"]]
            ops.append(["file", path, b])
            incs.append([["lit", base]] if r.random() < .8 else [["lit", path]])
            if base[1] in "01" and r.random() < .2:
                incs.append([["lit", "f"], ["ref", "var", "IDX"], ["lit", ".wxi"]])
        main = r.choice(["main.wxs", "src/main.wxs", "i/a.wxs"])
        vals = [["define", self.name(), [["lit", r.choice(TEXTS)]]] for _ in range(r.randint(0, 6))]
        ops.append(["file", main, [["open", "Wix", []]] + vals + self.body(0, 7, incs) + [["close", "Wix"]]])
        for _ in range(r.choice([1, 1, 2])):
            defs = [[n, r.choice([t for t in TEXTS if "\x00" not in t])] for n in self.likely if r.random() < .6] + [["IDX", r.choice("01")]]
            if r.random() < .2:
                defs.append([r.choice(self.likely), "again"])
            env = [["WXA", r.choice(TEXTS)], ["WXB", "7"]]
            ops.append(["pp", main, defs, env, r.choice(["x86", "x86", "x64"]), r.sample(["i", "j/k", "src", "empty"], r.choice([0, 1, 2, 2]))])
        return ops


def run(seed):
    return Gen(seed).run()
