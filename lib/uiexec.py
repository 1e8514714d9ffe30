"""Executes operations of spec/WixUi.tla with wixl."""
import os, random
import toolexec, wixexec

TABS = {"Dialog", "Control", "ControlCondition", "ControlEvent", "EventMapping", "CheckBox", "RadioButton", "TextStyle", "UIText", "ActionText"}


class Runner(wixexec.Runner):
    def one(self, op):
        if op[0] != "build":
            return wixexec.Runner.one(self, op)
        r, e = self.r, self.els
        for d in os.listdir(self.w):
            if d != "tmp":
                toolexec.shutil.rmtree(self.w + "/" + d) if os.path.isdir(self.w + "/" + d) else os.unlink(self.w + "/" + d)
        args = []
        w = op[1]
        if w["ext"]:
            os.makedirs(self.w + "/lib/ui")
            args = ["--ext", "ui", "--extdir", r.choice(["lib", self.w + "/lib"])]
            for n, le in w["lib"]:
                with open(self.w + "/lib/ui/" + n + ".wxs", "w", encoding="utf8") as o:
                    o.write(wixexec.element(r, le, 0, r.choice(["", "\n"])))
        for n, t in w["files"]:
            with open(self.w + ("/lib/" if w["ext"] and r.random() < .2 else "/") + n, "w", encoding="utf8", newline="") as o:
                o.write(t)
        names = []
        for k, i in enumerate(j for j, y in enumerate(e) if y[1] == 0):
            names.append("doc%d.wxs" % k)
            with open(self.w + "/" + names[k], "w", encoding="utf8") as o:
                o.write(r.choice(["", '<?xml version="1.0" encoding="utf-8"?>\n']) + wixexec.element(r, e, i, r.choice(["", "\n", "\n  "])))
        try:
            rc, out = self.run("wixl", *r.choice([args + ["-o", "out.msi"] + names, names + args + ["-o", "out.msi"]]))
        except toolexec.Hung as x:
            # (some things are refused by stopping where they are found)
            if not str(x).startswith("died with -5:"):
                raise
            rc, self.said, self.err = 1, True, str(x)
        there = os.path.exists(self.w + "/out.msi")
        if rc == 1:
            return ["fail", "but a package is left"] if there else ["fail"]
        if rc or not there:
            return ["exit %d" % rc, "" if there else "no package"]
        q = self.packed(self.w + "/out.msi")
        if isinstance(q, list):
            return q
        return ["pkg", {"tabs": [[n, [[["s", v[1]] if v[0] in "ug" else v for v in row] for row in rows]] for n, rows in q["tabs"] if n in TABS]}]

    def told(self, op):
        return op
