"""Executes operations of spec/MsiExtract.tla with msiextract and msidiff."""
import os, random, re, shutil, tempfile
import build, cab, dbexec, toolexec

WHEN = [(2001, 2, 3, 4, 6, 8), (2013, 5, 6, 7, 8, 10)]


class Runner(toolexec.Runner):
    def pack(self, p, k):
        d = os.path.dirname(self.path(p))
        shutil.rmtree(d, ignore_errors=True)
        os.makedirs(d)
        args = []

        def table(name, head, types, key, rows):
            if name in k["tabs"]:
                with open("%s/%s.idt" % (d, name), "w", encoding="utf8", newline="") as f:
                    f.write("".join("\t".join(map(str, r)) + "\r\n" for r in [head, types, [name, key]] + rows))
                args.extend(["-i", "%s.idt" % name])
        table("Directory", ["Directory", "Directory_Parent", "DefaultDir"], ["s72", "S72", "l255"], "Directory", k["dirs"])
        table("Component", ["Component", "ComponentId", "Directory_", "Attributes"], ["s72", "S38", "s72", "i2"], "Component",
              [[c[0], "", c[1], 0] for c in k["comps"]])
        table("File", ["File", "Component_", "FileName", "FileSize", "Sequence"], ["s72", "s72", "l255", "i4", "i2"], "File",
              [f + [0, i + 1] for i, f in enumerate(k["files"])])
        table("Media", ["DiskId", "LastSequence", "DiskPrompt", "Cabinet"], ["i2", "i2", "L64", "S255"], "DiskId",
              [[m[0], 99, "", m[1]] for m in k["media"]])
        with open(d + "/cp.idt", "w", newline="") as f:
            f.write("\r\n\r\n65001\t_ForceCodepage\r\n")
        args = ["-i", "cp.idt"] + args
        for i, (n, es) in enumerate(k["streams"]):
            self.cabinet("%s/%d.tmp" % (d, i), es)
            args += ["-a", n, "%d.tmp" % i]
        rc, _ = self.run("msibuild", self.path(p), *args, cwd=d)
        for f in os.listdir(d):
            if f.endswith((".idt", ".tmp")):
                os.remove(d + "/" + f)
        for n, es in k["exts"]:
            self.cabinet(d + "/" + n, es)
        return ["fail"] if rc else ["ok"]

    def cabinet(self, f, es):
        with open(f, "wb") as o:
            o.write(cab.write([(e[0], self.body[e[1]] if e[1] in self.body else bytes.fromhex(e[1]), self.r.choice(WHEN)) for e in es], zip=self.r.random() < .5, split=self.r.choice([0, 0, 1, 2])))

    def path(self, p):
        return "%s/%s/%s.msi" % (self.w, p, p)

    def out(self, o):
        # (deep enough for paths that lead out of it)
        return "%s/x/%s/y/z" % (self.w, o)

    def listing(self, o):
        top = "%s/x/%s" % (self.w, o)
        r = []
        for x in toolexec.tree(top):
            if not x.startswith("y/z/"):
                r.append(["../" + x, "", 0])
                continue
            f = top + "/" + x
            r.append([x[4:], dbexec.canon(toolexec.hexof(f)), os.path.getsize(f)])
        return r

    def one(self, op):
        c = op[0]
        if c == "pack":
            return self.pack(op[1], op[2])
        if c == "list":
            rc, out = self.run("msiextract", "-l", *[self.path(p) for p in op[1]])
            ls = out.split("\n")
            if ls.pop() != "":
                ls.append("no line end")
            return ["fail"] if rc else ["list", ls]
        if c == "extract":
            os.makedirs(self.out(op[2]), exist_ok=True)
            if self.r.random() < .3:
                rc, _ = self.run("msiextract", *[self.path(p) for p in op[1]], cwd=self.out(op[2]))
            else:
                rc, _ = self.run("msiextract", "-C", self.out(op[2]), *[self.path(p) for p in op[1]])
            return ["fail"] if rc else ["ok"]
        if c == "tree":
            return ["tree", self.listing(op[1])]
        if c == "diffl":
            rc, out = self.run("msidiff", "-" + op[1], self.path(op[2]), self.path(op[3]))
            if os.listdir(self.tmp):
                return ["stray", os.listdir(self.tmp)]
            if rc:
                return ["fail"]
            sides = [[], []]
            for l in out.split("\n"):
                if l[:1] not in "+-" or l[:3] in ("---", "+++") or not l:
                    continue
                if op[1] == "l":
                    e = [l[1:]]
                else:
                    m = re.match(r"(\S)(\S+)\s+\S+\s+\S+\s+(\d+) (\w+ +\d+ +[\d:]+) (.*)$", l[1:])
                    if not m:
                        # the directory itself
                        e = [l[1:], "?", 0]
                    elif m.group(1) == "d":
                        e = [toolexec.unquote('"%s"' % m.group(5)), "d", 0]
                    else:
                        e = [toolexec.unquote('"%s"' % m.group(5)), "f", int(m.group(3))]
                if e[0] not in ("", "?") and e[1:2] != ["?"]:
                    sides[l[0] == "+"].append(e)
            return ["diff"] + sides
        raise ValueError(op)

    def execute(self, ops, seed=0, body={}):
        self.r = random.Random(str(seed))
        self.body = body
        return toolexec.Runner.execute(self, ops)
