"""Renders specification statements (the ASTs of spec/MsiDb.tla) as SQL text.

The meaning of a statement must not depend on how it is spelt, so keyword case,
white space, optional quoting of names, redundant parentheses and the two
spellings of <> are drawn at random."""
import re

KEYWORDS = set("""ADD ALTER AND BY CHAR CHARACTER CREATE DELETE DISTINCT DROP FREE FROM HOLD INSERT INT INTEGER
INTO IS KEY LIKE LOCALIZABLE LONG LONGCHAR NOT NULL OBJECT OR ORDER PRIMARY SELECT SET SHORT TABLE TEMPORARY
UPDATE VALUES WHERE""".split())
PLAIN = re.compile(r"^[A-Za-z_][A-Za-z0-9_]*$")


class Style:
    def __init__(self, rng, plain=False):
        self.r = rng
        self.plain = plain

    def kw(self, w):
        if self.plain:
            return w
        return "".join(c.upper() if self.r.random() < .5 else c.lower() for c in w) if self.r.random() < .3 \
            else (w.lower() if self.r.random() < .3 else w)

    def ws(self):
        if self.plain:
            return " "
        return "".join(self.r.choice(" \t\n") for _ in range(self.r.randint(1, 2))) if self.r.random() < .2 else " "

    def ows(self):
        return "" if self.plain or self.r.random() < .7 else self.ws()

    def name(self, n):
        if PLAIN.match(n) and n.upper() not in KEYWORDS and (self.plain or self.r.random() < .4):
            return n
        return "`%s`" % n

    def col(self, c):
        if c[0] == "*":
            return "*"
        if c[1]:
            return self.name(c[1]) + "." + self.name(c[2])
        return self.name(c[2])

    def operand(self, o, neg=True):
        if o[0] == "i":
            return str(o[1])
        if o[0] == "s":
            assert "'" not in o[1]
            return "'%s'" % o[1]
        if o[0] == "?":
            return "?"
        if o[0] == "c":
            return self.col(o)
        raise ValueError(o)

    def cond(self, c, level=0):
        """level 0: or allowed, 1: only and, 2: primary"""
        k = c[0]
        if k == "or":
            t = self.cond(c[1], 0) + self.ws() + self.kw("OR") + self.ws() + self.cond(c[2], 1)
            need = level > 0
        elif k == "and":
            t = self.cond(c[1], 1) + self.ws() + self.kw("AND") + self.ws() + self.cond(c[2], 2)
            need = level > 1
        elif k == "null":
            t = self.col(c[1]) + self.ws() + self.kw("IS") + self.ws() + self.kw("NULL")
            need = False
        elif k == "notnull":
            t = self.col(c[1]) + self.ws() + self.kw("IS") + self.ws() + self.kw("NOT") + self.ws() + self.kw("NULL")
            need = False
        elif k == "cmp":
            op = c[1]
            if op == "<>" and not self.plain and self.r.random() < .3:
                op = "!="
            t = self.col(c[2]) + self.ows() + op + self.ows() + self.operand(c[3])
            need = False
        else:
            raise ValueError(c)
        if need or (not self.plain and self.r.random() < .1):
            t = "(" + self.ows() + t + self.ows() + ")"
        return t

    def where(self, c):
        if c == ["true"]:
            return ""
        return self.ws() + self.kw("WHERE") + self.ws() + self.cond(c)

    def sep(self):
        return self.ows() + "," + self.ows()

    def coldef(self, c):
        t = c["t"]
        if t == "int2":
            s = self.kw("SHORT" if self.plain else self.r.choice(["SHORT", "INT", "INTEGER"]))
        elif t == "int4":
            s = self.kw("LONG")
        elif t == "bin":
            s = self.kw("OBJECT")
        elif c["sz"] == -1:
            s = self.kw("CHAR")
        elif c["sz"] == 0:
            s = self.kw("LONGCHAR")
        else:
            s = self.kw("CHAR") + self.ows() + "(" + self.ows() + str(c["sz"]) + self.ows() + ")"
        s = self.name(c["n"]) + self.ws() + s
        if c["nn"]:
            s += self.ws() + self.kw("NOT") + self.ws() + self.kw("NULL")
        if c["loc"]:
            s += self.ws() + self.kw("LOCALIZABLE")
        if c["tmp"]:
            s += self.ws() + self.kw("TEMPORARY")
        return s

    def sql(self, a):
        w, kw = self.ws, self.kw
        k = a[0]
        if k == "raw":
            return a[1]
        if k == "insert":
            t = kw("INSERT") + w() + kw("INTO") + w() + self.name(a[1]) + w() + "(" + \
                self.sep().join(self.name(c) for c in a[2]) + ")" + w() + kw("VALUES") + w() + "(" + \
                self.sep().join(self.operand(o) for o in a[3]) + ")"
            if a[4]:
                t += w() + kw("TEMPORARY")
            return t
        if k == "update":
            return kw("UPDATE") + w() + self.name(a[1]) + w() + kw("SET") + w() + \
                self.sep().join(self.name(c) + self.ows() + "=" + self.ows() + self.operand(o) for c, o in a[2]) + \
                self.where(a[3])
        if k == "delete":
            return kw("DELETE") + w() + kw("FROM") + w() + self.name(a[1]) + self.where(a[2])
        if k == "select":
            t = kw("SELECT") + w()
            if a[1]:
                t += kw("DISTINCT") + w()
            t += self.sep().join(self.col(c) for c in a[2])
            t += w() + kw("FROM") + w() + self.sep().join(self.name(x) for x in a[3]) + self.where(a[4])
            if a[5]:
                t += w() + kw("ORDER") + w() + kw("BY") + w() + self.sep().join(self.col(c) for c in a[5])
            return t
        if k == "create":
            t = kw("CREATE") + w() + kw("TABLE") + w() + self.name(a[1]) + w() + "(" + \
                self.sep().join(self.coldef(c) for c in a[2]) + w() + kw("PRIMARY") + w() + kw("KEY") + w() + \
                self.sep().join(self.name(n) for n in a[3]) + ")"
            if a[4]:
                t += w() + kw("HOLD")
            return t
        if k == "addcol":
            return kw("ALTER") + w() + kw("TABLE") + w() + self.name(a[1]) + w() + kw("ADD") + w() + self.coldef(a[2])
        if k in ("hold", "free"):
            return kw("ALTER") + w() + kw("TABLE") + w() + self.name(a[1]) + w() + kw(k.upper())
        if k == "drop":
            return kw("DROP") + w() + kw("TABLE") + w() + self.name(a[1])
        raise ValueError(a)
