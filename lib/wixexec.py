"""Executes operations of spec/WixDoc.tla with wixl."""
import hashlib, os, random, re, struct
import cab, dbexec, drv, toolexec
from preexec import esc

GEN = re.compile(r"^reg[0-9A-F]{32}$")
UUID = re.compile(r"^\{[0-9A-F]{8}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{12}\}$")
ENV = re.compile(r"[^A-Za-z0-9_. -]")


def digest(b):
    return "%d:%s" % (len(b), hashlib.sha1(b).hexdigest()[:16])


def known(path, b):
    """what the specification is told about a file on the disk"""
    h = struct.unpack("<4i", hashlib.md5(b).digest())
    return [path, len(b), list(h), digest(b)]


def behind(els, p):
    for j in range(p, len(els)):
        if els[j][1] < p:
            return j
    return len(els)


def element(r, els, i, ind):
    n, p, at, text = els[i]
    at = list(at)
    r.shuffle(at)
    o = "<" + n
    for a, v in at:
        q = r.choice("'\"")
        o += r.choice([" ", "\n"]) + a + "=" + q + esc(r, v, q) + q
    kids = [j for j in range(i + 1, len(els)) if els[j][1] == i + 1]
    if not kids and not text:
        return o + r.choice(["/>", "></%s>" % n])
    cut = r.randrange(len(text)) if text and r.random() < .2 else 0
    o += ">" + "".join("<![CDATA[%s]]>" % y if y and r.random() < .3 else esc(r, y) for y in (text[:cut], text[cut:]))
    for j in kids:
        o += ind if r.random() < .8 else ""
        if r.random() < .03:
            o += "<!-- <File/> -->"
        o += element(r, els, j, ind + " " if ind else "")
    return o + (ind if kids and r.random() < .8 else "") + "</%s>" % n


class Runner(toolexec.Runner):
    def packed(self, p):
        """the package as the specification sees it"""
        ops = [["open", 1, p, 1, "-"], ["snap", 1], ["sinew", 1, 1, 0], ["sidump", 1], ["sifree", 1], ["close", 1]]
        res, crash, err = drv.run(self.t.drv, ops, self.w)
        if crash or not res[0]["ok"]:
            return ["unreadable package", err[-500:]]
        s = dbexec.snap_obs(res[1])
        if s[0] != "snap":
            return ["unreadable package"]
        tabs = []
        for t in s[1]["tabs"]:
            rows = []
            for row in t["rows"]:
                q = []
                for k, v in enumerate(row):
                    if v[0] == "s" and (t["name"], k) in (("Registry", 0), ("Component", 5)) and GEN.match(v[1]):
                        v = ["g", v[1]]
                    elif v[0] == "s" and UUID.match(v[1]):
                        v = ["u", v[1]]
                    elif v[0] == "b" and len(v) > 1:
                        v = ["b", digest(bytes.fromhex(v[1]))]
                    q.append(v)
                rows.append(q)
            tabs.append([t["name"], rows])
        return {"tabs": tabs, "streams": [[n, bytes.fromhex(h)] for n, h in s[1]["str"] if n != toolexec.SUMMARY],
                "sum": self.summary(res[3]["res"])}

    def summary(self, si):
        out = []
        for k, v in si:
            if k in (12, 13, 18):
                continue
            if v[0] == "s" and UUID.match(v[1]):
                v = ["u", v[1]]
            out.append([k, v[:2]])
        return out

    def look_at(self, p, beside):
        q = self.packed(p)
        if isinstance(q, list):
            return q
        st, cabs = [], []
        media = [r for n, rows in q["tabs"] if n == "Media" for r in rows]
        inside = {r[3][1][1:] for r in media if r[3][0] == "s" and r[3][1].startswith("#")}
        for n, b in q["streams"]:
            st.append([n, digest(b)])
            if n in inside:
                cabs.append([n, True, self.cabinet(b)])
        for f in sorted(set(os.listdir(self.w)) - beside):
            with open(self.w + "/" + f, "rb") as o:
                cabs.append([f, False, self.cabinet(o.read())])
        q["streams"], q["cabs"] = st, cabs
        return ["pkg", q]

    def cabinet(self, b):
        try:
            return [[n, len(d), digest(d)] for n, d, _ in cab.read(b)]
        except Exception as e:
            return [["unreadable", str(e)]]

    def one(self, op):
        c = op[0]
        e = self.els
        if c == "el":
            at = behind(e, op[2]) if op[2] else len(e)
            for y in e[at:]:
                if y[1] > at:
                    y[1] += 1
            e.insert(at, [op[1], op[2], [list(a) for a in op[3]], op[4]])
            return ["ok"]
        if c == "els":
            e += [[y[0], y[1], [list(a) for a in y[2]], y[3]] for y in op[1]]
            return ["ok"]
        if c == "set":
            at = e[op[1] - 1][2]
            for a in at:
                if a[0] == op[2]:
                    a[1] = op[3]
                    break
            else:
                at.append([op[2], op[3]])
            return ["ok"]
        if c == "cut":
            e[op[1] - 1][2] = [a for a in e[op[1] - 1][2] if a[0] != op[2]]
            return ["ok"]
        w = op[1]
        r = self.r
        for d in os.listdir(self.w):
            if d != "tmp":
                toolexec.shutil.rmtree(self.w + "/" + d) if os.path.isdir(self.w + "/" + d) else os.unlink(self.w + "/" + d)
        told = []
        for f in w["files"]:
            b = bytes.fromhex(f[4])
            os.makedirs(os.path.dirname(self.w + "/" + f[0]) or ".", exist_ok=True)
            with open(self.w + "/" + f[0], "wb") as o:
                o.write(b)
            told.append(known(f[0], b))
        roots = [i for i, y in enumerate(e) if y[1] == 0]
        names = []
        for k, i in enumerate(roots):
            d = w["dirs"][k]
            os.makedirs(self.w + "/" + d, exist_ok=True)
            n = ("" if d == "." else d + "/") + "doc%d.wxs" % k
            names.append(n)
            with open(self.w + "/" + n, "w", encoding="utf8") as o:
                o.write(r.choice(["", '<?xml version="1.0"?>', '<?xml version="1.0" encoding="utf-8"?>\n']) + element(r, e, i, r.choice(["", "\n", "\n  "])))
        pkg = "out.msi"
        args = list(names)
        if r.random() < .2:
            pkg = "doc0.msi"
            args += ["-o", pkg]
        else:
            args = args + ["-o", pkg] if r.random() < .5 else ["-o", pkg] + args
        if w["arch"] != "x86" or r.random() < .2:
            args += ["-a", w["arch"]]
        # (there may be an old package of that name)
        stale = r.random() < .1
        if stale:
            with open(self.w + "/" + pkg, "w") as o:
                o.write("old")
        self.pkg = pkg
        self.world = {"arch": w["arch"], "dirs": w["dirs"], "files": told}
        beside = set(os.listdir(self.w)) | {pkg}
        try:
            rc, out = self.run("wixl", *args)
        except toolexec.Hung as x:
            # (some things are refused by stopping where they are found)
            if not str(x).startswith("died with -5:"):
                raise
            rc, out, self.said, self.err = 1, "", True, str(x)
        there = os.path.exists(self.w + "/" + pkg)
        if rc == 1:
            if there and stale:
                with open(self.w + "/" + pkg, "rb") as o:
                    there = o.read() != b"old"
            return ["fail"] if not there else ["fail", "but a package is left"]
        if rc or not there:
            return ["exit %d" % rc, "" if there else "no package"]
        return self.look_at(self.w + "/" + pkg, beside)

    def told(self, op):
        return ["build", self.world] if op[0] == "build" else op

    def execute(self, ops, seed=0):
        self.r = random.Random(str(seed))
        self.els = []
        tr, crash = toolexec.Runner.execute(self, ops)
        return tr, crash
