"""Executes operations of spec/WixIds.tla with wixl: every build writes the document anew, in another order and form."""
import random
import drv, toolexec, wixexec


class Runner(toolexec.Runner):
    def document(self):
        r = self.r
        els = []

        def el(p, name, text="", **a):
            els.append([name, p, [list(x) for x in a.items()], text])
            return len(els)

        def value(p, root, key, name, form, keypath=None):
            a = {} if name == "none" else {"Name": name}
            if keypath:
                a["KeyPath"] = "yes"
            if form == "nested":
                q = el(p, "RegistryKey", Root=root, Key=key)
            elif form == "split" and "\\" in key:
                x, y = key.split("\\", 1)
                q = el(p, "RegistryKey", Root=root, Key=x)
                a["Key"] = y
            elif form == "over":
                q = el(p, "RegistryKey", Root="HKCR" if root != "HKCR" else "HKLM", Key=key)
                a["Root"] = root
            else:
                q = p
                a.update(Root=root, Key=key)
            el(q, "RegistryValue", Type=r.choice(["string", "integer"]), Value=r.choice("123"), **a)

        def component(p, c):
            i, place, key, guid = c
            a = {"Guid": guid}
            if r.random() < .3:
                a["Permanent"] = "yes"
            q = el(p, "Component", Id=i, **a)
            if key[0] == "file":
                a = {"Source": "s/" + key[1]} if r.random() < .5 else {"Source": "t/" + key[1]} if r.random() < .5 else {"Source": "s/x", "Name": key[1]}
                el(q, "File", Id="F" + i, KeyPath="yes", **a)
            else:
                value(q, *key[1:5], "yes")

            def more(k):
                if k[0] == "v":
                    value(q, *k[1][1:5])
                else:
                    _, g, ext, ctype, verb, mime = k[1]
                    pr = el(q, "ProgId", Id=g, Description=r.choice(["d", "e"]))
                    if ext:
                        e = el(pr, "Extension", Id=ext, **({"ContentType": ctype} if ctype else {}))
                        if verb:
                            el(e, "Verb", Id=verb, Command="c", TargetFile="F" + self.files[0])
                        if mime:
                            el(e, "MIME", ContentType=mime)
            rest = [["v", v] for v in self.vals if v[0] == i] + [["p", v] for v in self.progs if v[0] == i]
            r.shuffle(rest)
            for k in rest:
                more(k)
            # things that have nothing to do with it
            if r.random() < .3:
                el(q, "CreateFolder")
            if r.random() < .3:
                el(q, "RemoveFolder", Id="RF" + i, On="uninstall")

        def at(p, place):
            cs = [c for c in self.comps if c[1] == place]
            r.shuffle(cs)
            for c in cs:
                component(p, c)
        self.files = [c[0] for c in self.comps if c[2][0] == "file"]
        w = el(0, "Wix")
        frs = []

        def fragment(k):
            f = el(w, "Fragment")
            if k == "group":
                g = el(f, "ComponentGroup", Id="G", Directory=r.choice(["TARGETDIR", "D2"]))
                at(g, "group")
            else:
                d = el(f, "DirectoryRef", Id=k[4:])
                at(d, k)
        frs = [k for k in ("group", "ref:D1", "ref:D2", "ref:D3") if any(c[1] == k for c in self.comps)]
        r.shuffle(frs)
        cut = r.randrange(len(frs) + 1)
        for k in frs[:cut]:
            fragment(k)
        a = {"UpgradeCode": self.codes_[1]} if self.codes_[1] else {}
        p = el(w, "Product", Id=self.codes_[0], Name=r.choice(["p", "q"]), Version=r.choice(["1", "2.0"]), Manufacturer="m", Language="1033", **a)

        def directories():
            def kids(d, l):
                todo = list(l)
                r.shuffle(todo)
                for f in todo:
                    f(d)
            two = lambda d: at(el(d, "Directory", Id="D2", Name="Two"), "D2")

            def one(d):
                q = el(d, "Directory", Id="D1", Name="One")
                kids(q, [two, lambda q: at(q, "D1")])
            t = el(p, "Directory", Id="TARGETDIR", Name="SourceDir")
            kids(t, [one, lambda d: at(el(d, "Directory", Id="D3", Name="Two"), "D3"), lambda d: at(el(d, "Directory", Id="D4"), "D4"), lambda d: at(d, "TARGETDIR")])

        def feature():
            f = el(p, "Feature", Id="A", Level="1")
            cs = [c for c in self.comps if c[1] != "group"]
            r.shuffle(cs)
            for c in cs:
                el(f, "ComponentRef", Id=c[0])
            if "group" in frs:
                el(f, "ComponentGroupRef", Id="G")

        def upgrades():
            for k, u in enumerate(self.ups):
                q = el(p, "Upgrade", Id=u)
                el(q, "UpgradeVersion", Minimum=str(k), Property="UP%d" % k)

        def rest():
            for k in range(r.randrange(3)):
                el(p, "Property", Id="PROP%d" % k, Value="v")
            if r.random() < .3:
                el(p, "Condition", "VersionNT", Message="m")
        el(p, "Package", **({"Comments": "c"} if r.random() < .5 else {}))
        if self.files:
            el(p, "Media", Id="1", Cabinet="a.cab", EmbedCab="yes")
        parts = [directories, feature, upgrades, rest]
        r.shuffle(parts)
        for f in parts:
            f()
        for k in frs[cut:]:
            fragment(k)
        return els

    def told(self, op):
        return op + [self.got] if op[0] == "build" and self.got is not None else op

    def one(self, op):
        self.got = None
        k = op[0]
        if k == "comp":
            self.comps.append(op[1:])
        elif k == "value":
            self.vals.append(op[1:])
        elif k == "prog":
            self.progs.append(op[1:])
        elif k == "drop":
            for l in (self.comps, self.vals, self.progs):
                l[:] = [c for c in l if c[0] != op[1]]
        elif k == "move":
            self.comps = [[c[0], op[2], c[2], c[3]] if c[0] == op[1] else c for c in self.comps]
        elif k == "codes":
            self.codes_ = op[1:]
        elif k == "upgrade":
            self.ups.append(op[1])
        else:
            return self.build(op[1])
        return ["ok"]

    def build(self, arch):
        os = toolexec.os
        for c in self.comps:
            for d in ("s", "t"):
                os.makedirs(self.w + "/" + d, exist_ok=True)
                for f in ["x"] + ([c[2][1]] if c[2][0] == "file" else []):
                    with open(self.w + "/%s/%s" % (d, f), "w") as o:
                        o.write(str(self.r.random()))
        doc = self.r.choice(["d.wxs", "e.wxs"])
        with open(self.w + "/" + doc, "w") as o:
            o.write(wixexec.element(self.r, self.document(), 0, self.r.choice(["", "\n"])))
        pkg = self.w + "/o.msi"
        if os.path.exists(pkg):
            os.unlink(pkg)
        rc, out = self.run("wixl", "-o", "o.msi", "-a", arch, doc)
        there = os.path.exists(pkg)
        if rc == 1 and not there:
            return ["fail"]
        if rc or not there:
            return ["exit %d" % rc]
        res, crash, err = drv.run(self.t.drv, [["open", 1, pkg, 1, "-"], ["snap", 1], ["sinew", 1, 1, 0], ["sidump", 1], ["sifree", 1], ["close", 1]], self.w)
        s = toolexec.dbexec.snap_obs(res[1])
        if crash or s[0] != "snap":
            return ["unreadable package"]
        tabs = {t["name"]: t["rows"] for t in s[1]["tabs"]}
        code = [v[1] for k, v in res[3]["res"] if k == 9]
        txt = lambda v: v[1] if len(v) > 1 else "none"
        props = {txt(v[0]): txt(v[1]) for v in tabs["Property"]}
        self.got = [code[0] if code else "", props.get("ProductCode", ""), props.get("UpgradeCode", ""), [[txt(v[0]), v[1][1] if len(v[1]) > 1 else ""] for v in tabs.get("Component", [])],
                    [[txt(v[0]), v[1][1], txt(v[2]), txt(v[3]), txt(v[5])] for v in tabs.get("Registry", [])], [txt(v[0]) for v in tabs.get("Upgrade", [])]]
        return ["ok"]

    def execute(self, ops, seed=0):
        self.r = random.Random(str(seed))
        self.comps, self.vals, self.progs, self.ups, self.codes_ = [], [], [], [], ["*", ""]
        return toolexec.Runner.execute(self, ops)
