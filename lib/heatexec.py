"""Executes operations of spec/WixHeat.tla with wixl-heat and wixl."""
import random
import xml.etree.ElementTree as ET
import cab, drv, toolexec
from xml.sax.saxutils import escape

NS = "{http://schemas.microsoft.com/wix/2006/wi}"
HEAD = ('<Wix><Product Id="*" Name="p" Version="1" Manufacturer="m" Language="1033" UpgradeCode="22222222-2222-2222-2222-222222222222"><Package/>'
        '<Media Id="1" Cabinet="a.cab" EmbedCab="yes"/><Directory Id="TARGETDIR" Name="SourceDir"><Directory Id="INST" Name="Base"/></Directory>'
        '<Feature Id="A" Level="1">%s</Feature></Product></Wix>')


class Runner(toolexec.Runner):
    def told(self, op):
        return op

    def one(self, op):
        os, r = toolexec.os, self.r
        if op[0] != "heat":
            p = self.w + "/" + "/".join(op[1])
            os.makedirs(p if op[0] == "dir" else os.path.dirname(p), exist_ok=True)
            if op[0] == "file":
                with open(p, "w") as o:
                    o.write(op[2])
            self.lines.append("/".join(op[1]))
            return ["ok"]
        _, prefix, ex, opts = op
        cmd = ["-p", prefix] if r.random() < .5 else ["--prefix=" + prefix] if r.random() < .5 else ["--prefix", prefix]
        for x in ex:
            cmd += ["-x", x] if r.random() < .5 else ["--exclude=" + x]
        if "group" in opts:
            cmd += ["--component-group", "G.1"]
        if "var" in opts:
            cmd += ["--var", "var.Src"]
        if "win64" in opts:
            cmd += ["--win64"]
        if "ref" in opts:
            cmd += ["--directory-ref", "INST"]
        with open(self.w + "/list", "w") as o:
            o.write("\n".join(self.lines) + ("\n" if self.lines and r.random() < .8 else ""))
        out = self.heat(cmd)
        if isinstance(out, list):
            return out
        try:
            x = ET.fromstring(out)
        except ET.ParseError as e:
            return ["not a document", str(e)]
        comps = [c.get("Id") for c in x.iter(NS + "Component")]
        refs = [c.get("Id") for g in x.iter(NS + "ComponentGroup") if g.get("Id") == "G.1" for c in g.iter(NS + "ComponentRef")]
        ids = [e.get("Id") for e in x.iter() if e.tag in (NS + "Component", NS + "File", NS + "Directory")]
        if "group" in opts and sorted(refs) != sorted(comps):
            return ["the group has other components", refs, comps]
        if any(len(list(c.iter(NS + "File"))) != 1 for c in x.iter(NS + "Component")):
            return ["components without a file or with several"]
        with open(self.w + "/h.wxs", "wb") as o:
            o.write(out)
        with open(self.w + "/m.wxs", "w") as o:
            o.write(HEAD % ('<ComponentGroupRef Id="G.1"/>' if "group" in opts and comps else "".join('<ComponentRef Id="%s"/>' % escape(c, {'"': "&quot;"}) for c in comps)))
        # where the sources are: below the prefix
        src = prefix.rstrip("/") or "."
        if "var" not in opts:
            os.symlink(src, self.w + "/SourceDir")
        for f in ("o.msi",):
            if os.path.exists(self.w + "/" + f):
                os.unlink(self.w + "/" + f)
        try:
            files = ["h.wxs", "m.wxs"] if r.random() < .5 else ["m.wxs", "h.wxs"]
            rc, said = self.run("wixl", "-o", "o.msi", "-D", "Src=" + src, "-D", "Win64=yes", *files)
        finally:
            if os.path.islink(self.w + "/SourceDir"):
                os.unlink(self.w + "/SourceDir")
        if rc or not os.path.exists(self.w + "/o.msi"):
            return ["wixl refused it", rc]
        res, crash, err = drv.run(self.t.drv, [["open", 1, self.w + "/o.msi", 1, "-"], ["snap", 1], ["close", 1]], self.w)
        s = toolexec.dbexec.snap_obs(res[1])
        if crash or s[0] != "snap":
            return ["unreadable package"]
        tabs = {t["name"]: t["rows"] for t in s[1]["tabs"]}
        txt = lambda v: v[1] if len(v) > 1 else None
        dirs = {txt(v[0]): (txt(v[1]), txt(v[2])) for v in tabs["Directory"]}
        comp = {txt(v[0]): (txt(v[2]), v[3][1]) for v in tabs.get("Component", [])}
        data = {n: bytes.fromhex(h) for n, h in s[1]["str"]}
        cont = {}
        if "a.cab" in data:
            cont = {n: d for n, d, _ in cab.read(data["a.cab"])}
        got = []
        for f in tabs.get("File", []):
            d, bits = comp[txt(f[1])]
            way = []
            while d != "TARGETDIR":
                up, name = dirs[d]
                if name != ".":
                    way.insert(0, name)
                d = up
            c = cont.get(txt(f[0]))
            got.append([way, txt(f[2]), c.decode() if c is not None else "missing", bool(bits & 256)])
        return ["heat", len(comps), len(refs), len(ids) - len(set(ids)), got]

    def heat(self, cmd):
        rc, out = self.run("sh", "-c", 'exec wixl-heat "$@" <list', "-", *cmd, raw=True)
        return ["exit %d" % rc] if rc else out

    def execute(self, ops, seed=0):
        self.r = random.Random(str(seed))
        self.lines = []
        return toolexec.Runner.execute(self, ops)
