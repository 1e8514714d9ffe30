"""Executes operations of spec/MsiTool.tla with the command line tools."""
import os, re, shutil, subprocess, tempfile
import build, dbexec, drv

SUMMARY = "\x05SummaryInformation"
UUID = re.compile(r"\{[0-9A-F]{8}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{4}-[0-9A-F]{12}\}")


def bindir(t):
    """the tools as they are installed: in one directory of PATH"""
    b = build.scratch() + "/bin"
    if not os.path.isdir(b):
        os.makedirs(b + ".new", exist_ok=True)
        for n in ("msibuild", "msiinfo", "msiextract", "wixl", "heat"):
            f = getattr(t, n)
            os.symlink(f, b + ".new/" + os.path.basename(f))
        for n in ("msidump", "msidiff"):
            shutil.copy(getattr(t, n), b + ".new/" + n)
            os.chmod(b + ".new/" + n, 0o755)
        os.rename(b + ".new", b)
    return b


def read(f):
    with open(f, "rb") as o:
        return o.read().decode("utf8", "surrogateescape")


def hexof(f):
    with open(f, "rb") as o:
        return o.read().hex()


def idt(text):
    """three head lines and the rows of an exported table"""
    # an exported code page ends in a null byte (tests/testdatabase.c counts on it)
    text = text[:-1] if text.endswith("\t_ForceCodepage\r\n\0") else text
    lines = dbexec.idt_text(text).split("\r\n")
    tail = lines.pop()
    return [lines[:3] + ([tail] if tail else []), lines[3:]]


def tree(d, skip=()):
    r = []
    for p, _, fs in os.walk(d):
        for f in fs:
            x = os.path.relpath(os.path.join(p, f), d)
            if x not in skip:
                r.append(x)
    return sorted(r)


def short(op):
    """what the specification is told: contents by their digests"""
    if op[0] != "build":
        return op
    st = [[s[0], s[1], dbexec.canon(s[2])] if s[0] == "a" else [s[0], s[1], [f[:2] + [dbexec.canon(f[2])] for f in s[2]]] if s[0] == "i" else s for s in op[2]]
    return op[:2] + [st]


def unquote(n):
    """names as diff writes them"""
    if n.startswith('"') and n.endswith('"') and len(n) > 1:
        n = re.sub(rb"\\(?:([0-7]{3})|(.))", lambda m: bytes([int(m.group(1), 8)]) if m.group(1) else m.group(2), n[1:-1].encode("utf8", "surrogateescape")).decode("utf8", "surrogateescape")
    return n


class Hung(Exception):
    pass


class Runner:
    env = {}

    def __init__(self, t):
        self.t, self.bin = t, bindir(t)

    def run(self, *cmd, cwd=None, raw=False):
        e = {"PATH": self.bin + ":/usr/local/bin:/usr/bin:/bin", "LC_ALL": "C.UTF-8", "TZ": "UTC", "HOME": self.w, "TMPDIR": self.tmp,
             "MALLOC_PERTURB_": "165", **self.env}
        p = subprocess.Popen(list(cmd), cwd=cwd or self.w, env=e, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
        try:
            out, err = p.communicate(timeout=60)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, 9)
            p.communicate()
            raise Hung("hung: " + " ".join(cmd)[:300])
        if p.returncode < 0 or p.returncode >= 128:
            raise Hung("died with %d: %s\n%s" % (p.returncode, " ".join(cmd)[:300], err.decode("utf8", "replace")[-2000:]))
        # a failure is told on the error output, a wrong command line may show the usage instead
        self.err = err.decode("utf8", "replace")
        self.said = bool(err.strip() or out.strip())
        return p.returncode, out if raw else out.decode("utf8", "surrogateescape")

    def told(self, op):
        return short(op)

    def path(self, p):
        return "%s/%s.msi" % (self.w, p)

    def fresh(self, x):
        """codes of new packages, by the order of their making"""
        if isinstance(x, str):
            for u, k in self.codes.items():
                x = x.replace(u, "{fresh %d}" % k)
            return x
        if isinstance(x, list):
            return [self.fresh(y) for y in x]
        if isinstance(x, dict):
            return {k: self.fresh(v) for k, v in x.items()}
        return x

    def look(self, p):
        c = [["open", 1, self.path(p), 1, "-"], ["snap", 1], ["sinew", 1, 1, 0], ["sidump", 1], ["sifree", 1], ["close", 1]]
        res, crash, err = drv.run(self.t.drv, c, self.w)
        if crash:
            raise Hung("driver died: " + err[-1000:])
        if not res[0]["ok"]:
            return None
        s = dbexec.canon(dbexec.snap_obs(res[1]))
        if s[0] == "snap":
            s[1]["si"] = res[3]["res"]
        return s

    def binary(self, p, t):
        """whether SQL could not express a table"""
        s = self.look(p) if os.path.exists(self.path(p)) else None
        return bool(s) and s[0] == "snap" and any(x["name"] == t and any(c[1] in "vV" for c in x["cols"]) for x in s[1]["tabs"])

    def put(self, d, files):
        for t, n, hx in files:
            os.makedirs("%s/%s" % (d, t), exist_ok=True)
            with open("%s/%s/%s" % (d, t, n), "wb") as f:
                f.write(bytes.fromhex(hx))

    def one(self, op):
        c = op[0]
        if c == "build":
            new = not os.path.exists(self.path(op[1]))
            self.k += 1
            d = "%s/c%d" % (self.w, self.k)
            os.mkdir(d)
            args = []
            for i, st in enumerate(op[2]):
                if st[0] == "s":
                    args += ["-s"] + st[1]
                elif st[0] == "i":
                    self.put(d, st[2])
                    fs = []
                    for j, text in enumerate(st[1]):
                        fs.append("%d.%d.idt" % (i, j))
                        with open(d + "/" + fs[-1], "wb") as f:
                            f.write(dbexec.idt_bytes(text).encode("utf8", "surrogateescape"))
                    args += ["-i"] + fs
                elif st[0] == "q":
                    args += ["-q"] + st[1]
                elif st[0] == "a":
                    f = "%d.bin" % i
                    if st[2] != "missing":
                        with open(d + "/" + f, "wb") as o:
                            o.write(bytes.fromhex(st[2]))
                    args += ["-a", st[1], f]
                else:
                    args += ["-z", "x"]
            rc, _ = self.run("msibuild", self.path(op[1]), *args, cwd=d)
            shutil.rmtree(d)
            self.made(op[1], new, op[2] != [], str(op))
            return ["fail"] if rc else ["ok"]
        if c == "copysql":
            p, t, q = op[1:]
            if not os.path.exists(self.path(p)):
                rc, _ = self.run("msiinfo", "export", "-s", self.path(p), t)
                return ["fail"] if rc else ["ok"]
            rc, sql = self.run("msiinfo", "export", "-s", self.path(p), t)
            if rc:
                return ["fail"]
            new = not os.path.exists(self.path(q))
            rc, _ = self.run("msibuild", self.path(q), "-q", "")
            self.made(q, new, True, sql)
            if rc:
                return ["fail"]
            rc, _ = self.run("msibuild", self.path(q), "-q", sql)
            return ["fail"] if rc else ["ok"]
        f = self.path(op[1])
        if c == "disk":
            if not os.path.exists(f):
                return ["absent"]
            return self.look(op[1]) or ["fail"]
        if c in ("tables", "streams"):
            rc, out = self.run("msiinfo", c, f)
            ls = out.split("\n")
            if not rc and ls.pop() != "":
                ls.append("no line end")
            return ["fail"] if rc else ["names", ["{summary}" if x == SUMMARY else x for x in ls]]
        if c == "stream":
            rc, out = self.run("msiinfo", "extract", f, op[2], raw=True)
            return ["fail"] if rc else ["bytes", dbexec.canon(out.hex())]
        if c == "suminfo":
            rc, out = self.run("msiinfo", "suminfo", f)
            return ["fail"] if rc else ["text", out]
        if c == "export":
            self.k += 1
            d = "%s/x%d" % (self.w, self.k)
            os.mkdir(d)
            rc, out = self.run("msiinfo", "export", f, op[2], cwd=d)
            fs = [x.split("/", 1) + [dbexec.canon(hexof(d + "/" + x))] for x in tree(d)]
            shutil.rmtree(d)
            return ["fail"] if rc else ["idt", idt(out), fs]
        if c == "dump":
            self.k += 1
            d = "%s/d%d" % (self.w, self.k)
            os.mkdir(d)
            rc, out = self.run("msidump", *["-" + x for x in op[2]], "-d", d, f)
            tabs, files, strs = [], [], []
            for x in tree(d):
                if x.startswith("_Streams/"):
                    n = x[9:]
                    strs.append(["{summary}", ""] if n == SUMMARY else [n, dbexec.canon(hexof(d + "/" + x))])
                elif "/" not in x and x.endswith(".idt"):
                    tabs.append([x[:-4]] + idt(read(d + "/" + x)))
                else:
                    files.append(x.split("/", 1) + [dbexec.canon(hexof(d + "/" + x))])
            stray = [x for x in os.listdir(self.tmp)]
            shutil.rmtree(d)
            if stray:
                return ["stray", stray]
            return ["fail"] if rc else ["dump", tabs, files, strs]
        if c == "diff":
            rc, out = self.run("msidiff", f, self.path(op[2]), raw=True)
            stray = os.listdir(self.tmp)
            if stray:
                return ["stray", stray]
            # a failure is told apart from a difference
            if rc and not out:
                return ["fail"]
            return self.diff(out.decode("utf8", "surrogateescape"))
        raise ValueError(op)

    def made(self, p, new, any, given):
        if new and any:
            self.n += 1
            s = self.look(p) if os.path.exists(self.path(p)) else None
            v = dict((a, b) for a, b in s[1]["si"]).get(9) if s else None
            if v and v[0] == "s" and UUID.fullmatch(v[1]) and v[1] not in self.codes and v[1] not in given:
                self.codes[v[1]] = self.n

    def diff(self, out):
        """the output of diff -r -N -u -p as changes by file"""
        tabs, files = {}, []
        ls = [l.rstrip("\r") for l in dbexec.idt_text(out).split("\n")]
        i, cur = 0, None
        while i < len(ls):
            l = ls[i]
            if l.startswith("Binary files "):
                m = re.match(r"Binary files (.*) and (.*) differ$", l)
                files.append(unquote(m.group(1)).split("/", 1)[1].split("/", 1))
            elif l.startswith("diff "):
                cur = None
            elif l.startswith("--- "):
                a = unquote(l[4:].split("\t")[0])
                i += 1
                n = a.split("/", 1)[1]
                cur = n[:-4] if "/" not in n and n.endswith(".idt") else None
                if cur is None:
                    files.append(n.split("/", 1))
                else:
                    tabs[cur] = [[], []]
            elif l.startswith("@@ "):
                m = re.match(r"@@ -\d+(?:,(\d+))? \+\d+(?:,(\d+))? @@", l)
                a, b = int(m.group(1) or 1), int(m.group(2) or 1)
                while a or b:
                    i += 1
                    x = ls[i]
                    if x.startswith("-"):
                        a -= 1
                        if cur is not None:
                            tabs[cur][0].append(x[1:])
                    elif x.startswith("+"):
                        b -= 1
                        if cur is not None:
                            tabs[cur][1].append(x[1:])
                    elif x.startswith("\\"):
                        pass
                    else:
                        a -= 1
                        b -= 1
            elif l and not l.startswith("\\") and cur is None:
                tabs.setdefault("?", [[], []])[0].append(l)
            i += 1
        return ["diff", [[t] + v for t, v in sorted(tabs.items())], files]

    def execute(self, ops):
        self.w = tempfile.mkdtemp(prefix="tool.", dir=build.scratch())
        self.tmp = self.w + "/tmp"
        os.mkdir(self.tmp)
        self.codes, self.n, self.k = {}, 0, 0
        tr = []
        try:
            for op in ops:
                if op[0] == "copysql" and self.binary(op[1], op[2]):
                    continue
                o = self.fresh(self.one(op))
                if o[0] == "fail" and not self.said and op[0] != "disk":
                    o = ["fail silently"]
                tr.append([self.told(op), o])
            return tr, None
        except Hung as e:
            return tr, (op, str(e))
        finally:
            shutil.rmtree(self.w, ignore_errors=True)
