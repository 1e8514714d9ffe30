"""Executes operations of spec/WixSeq.tla with wixl."""
import random
import drv, toolexec, wixexec

TABLES = ["AdminExecuteSequence", "AdminUISequence", "AdvtExecuteSequence", "InstallExecuteSequence", "InstallUISequence"]


class Runner(toolexec.Runner):
    def document(self):
        r, has = self.r, self.has
        els = []

        def el(p, name, text="", **a):
            els.append([name, p, [list(x) for x in a.items()], text])
            return len(els)
        # (in document order, so every part is complete before the next one)
        w = el(0, "Wix")
        p = el(w, "Product", Id="*", Name="p", Version="1", Manufacturer="m", Language="1033", UpgradeCode="22222222-2222-2222-2222-222222222222")
        el(p, "Package")
        if "file" in has:
            el(p, "Media", Id="1", Cabinet="a.cab", EmbedCab="yes")

        def sequences():
            for t in sorted({s[0] for s in self.sch}, key=lambda t: r.random()):
                # the actions of a table may come in several parts
                mine = [s for s in self.sch if s[0] == t]
                cut = r.randrange(len(mine) + 1) if r.random() < .3 else len(mine)
                for part in (mine[:cut], mine[cut:]):
                    if not part:
                        continue
                    q = el(p, "AdvertiseExecuteSequence" if t == "AdvtExecuteSequence" else t)
                    for _, kind, action, attrs, cond in part:
                        a = {k: v for k, v in attrs}
                        if kind:
                            a["Action" if kind == "Custom" else "Dialog"] = action
                        if cond and r.random() < .3:
                            a["Condition"] = cond
                            el(q, kind or action, **a)
                        else:
                            el(q, kind or action, cond and r.choice(["", " ", "\n "]) + cond + r.choice(["", " "]), **a)

        def rest():
            for x in "XYZW":
                el(p, "CustomAction", Id=x, Property="P", Value="v")
            if "upgrade" in has:
                u = el(p, "Upgrade", Id="33333333-3333-3333-3333-333333333333")
                el(u, "UpgradeVersion", Minimum="1", Property="UP")
            if "major" in has:
                el(p, "MajorUpgrade")
            if "launch" in has:
                el(p, "Condition", "VersionNT", Message="m")
            if "search" in has:
                q = el(p, "Property", Id="P2")
                el(q, "RegistrySearch", Id="RS", Root="HKLM", Key="k", Type="raw")

        def content():
            d = el(p, "Directory", Id="TARGETDIR", Name="SourceDir")
            c = el(d, "Component", Id="C", Guid="11111111-1111-1111-1111-111111111111")
            if "file" in has:
                el(c, "File", Id="F", Source="f.txt")
            if "registry" in has:
                el(c, "RegistryValue", Root="HKLM", Key="k", Type="string", Value="v")
            if "ini" in has:
                el(c, "IniFile", Id="I1", Action="addLine", Name="n", Section="s", Key="k", Value="v")
            if "removeini" in has:
                el(c, "IniFile", Id="I2", Action="removeLine", Name="n", Section="s", Key="k", Value="v")
            if "shortcut" in has:
                el(c, "Shortcut", Id="S", Name="s", Target="t", Directory="TARGETDIR")
            if "removefolder" in has:
                el(c, "RemoveFolder", Id="R", On="uninstall")
            if "control" in has:
                el(c, "ServiceControl", Id="SC", Name="s", Start="install")
            if "service" in has:
                el(c, "ServiceInstall", Id="SI", Name="s", Type="ownProcess", Start="auto", ErrorControl="normal")
            if "folder" in has:
                el(c, "CreateFolder")

        def feature():
            f = el(p, "Feature", Id="A", Level="1")
            el(f, "ComponentRef", Id="C")
        parts = [sequences, rest, content, feature]
        r.shuffle(parts)
        for f in parts:
            f()
        return els

    def told(self, op):
        return op

    def one(self, op):
        if op[0] == "has":
            self.has.add(op[1])
            return ["ok"]
        if op[0] == "sch":
            self.sch.append(op[1:])
            return ["ok"]
        with open(self.w + "/f.txt", "w") as o:
            o.write("f")
        with open(self.w + "/d.wxs", "w") as o:
            o.write(wixexec.element(self.r, self.document(), 0, self.r.choice(["", "\n"])))
        pkg = self.w + "/d.msi"
        if toolexec.os.path.exists(pkg):
            toolexec.os.unlink(pkg)
        rc, out = self.run("wixl", "d.wxs")
        there = toolexec.os.path.exists(pkg)
        if rc == 1:
            return ["fail"] if not there else ["fail", "but a package is left"]
        if rc or not there:
            return ["exit %d" % rc]
        c = [["open", 1, pkg, 1, "-"]] + [["snap", 1], ["close", 1]]
        res, crash, err = drv.run(self.t.drv, c, self.w)
        s = toolexec.dbexec.snap_obs(res[1])
        if crash or s[0] != "snap":
            return ["unreadable package"]
        tabs = {t["name"]: t["rows"] for t in s[1]["tabs"]}
        return ["seqs", [[t, [[v[0][1], v[1][1] if len(v[1]) > 1 else "", v[2][1] if len(v[2]) > 1 else 0] for v in tabs[t]]] for t in TABLES if t in tabs]]

    def execute(self, ops, seed=0):
        self.r = random.Random(str(seed))
        self.has, self.sch = set(), []
        return toolexec.Runner.execute(self, ops)
