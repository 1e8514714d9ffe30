"""Random user interfaces for spec/WixUi.tla."""
import random
import wixgen

TYPES = ["PushButton", "Text", "Line", "Bitmap", "Icon", "CheckBox", "Edit", "RadioButtonGroup", "PathEdit", "ProgressBar", "PushButton", "Edit"]
FLAGS = ["Disabled", "ElevationShield", "Hidden", "NoPrefix", "Remote", "Fixed", "FixedSize", "Sunken", "Indirect", "Icon", "Bitmap", "Transparent", "ProgressBlocks", "ShowRollbackCost"]
YES = ["yes", "no", "Yes", "y", "No"]
START = [["Wix", 0, [], ""], ["Product", 1, [["Id", "*"], ["Name", "p"], ["Version", "1"], ["Manufacturer", "m"], ["Language", "1033"]], ""]]


class Gen(wixgen.Gen):
    def num(self):
        return self.pick("0", "5", "17", "300", "32767", "40", "40", "40", "40", "40", "40") if self.p(.9985) else self.pick("32768", "40000", "-40000")

    def yes(self, *names, q=.15):
        return [[n, self.r.choice(YES)] for n in names if self.p(q)]

    def space(self, t):
        return self.pick("", "", " ", "\n  ") + t + self.pick("", "", "\n") if t.strip() == t else t.strip()

    def cond(self):
        return self.pick("Installed", "NOT Installed AND A < 5", 'X = "1"', "A <> B & C", "1")

    def publish(self, where):
        a = []
        if where:
            a += [["Dialog", self.pick(*self.dialogs) if self.p(.995) else "nowhere"], ["Control", self.pick("C1", "C2", "Next")]]
        if self.p(.3):
            a.append(["Property", self.pick("P1", "P2", "P3")])
        elif self.p(.995):
            a.append(["Event", self.pick("NewDialog", "SpawnDialog", "EndDialog", "DoAction", "[x]")])
        self.n += 1
        if self.p(.997 if len(a) and a[-1][0] == "Event" else .9):
            a.append(["Value", (self.pick("D%d", "Return%d", "[P%d]") % self.n) if self.p(.9) else self.pick("D1", "Exit", "{}", self.text())])
        if self.p(.3):
            a.append(["Order", self.pick("1", "2", "7", "30", "999")] if self.p(.99) else ["Order", self.pick("32767", "32768")])
        text = ""
        if self.p(.3):
            a.append(["Condition", self.cond()])
        elif self.p(.4):
            text = self.space(self.cond())
        return self.el("Publish", a, text=text)

    def control(self, k):
        t = self.pick(*TYPES)
        a = [["Id", self.pick("C%d", "C%d", "the_%d.x") % k], ["Type", t]]
        if self.p(.007):
            a[0][1] = "C1"
        a += [[n, self.num()] for n in ("X", "Y", "Width", "Height") if self.p(.8)]
        a += self.yes(*FLAGS, q=.1) + self.yes("TabSkip", q=.2) + self.yes("Default", "Cancel", q=.1)
        if self.p(.15):
            a.append(["IconSize", self.pick("16", "32", "48", "64")])
        if self.p(.99) if t == "CheckBox" else self.p(.3):
            self.n += 1
            a.append(["Property", "P%d" % (self.n if self.p(.98) else 1)])
        if t == "CheckBox" and self.p(.5) or self.p(.05):
            a.append(["CheckBoxValue", self.text()])
        if self.p(.4):
            a.append(["Text", self.text()])
        a += [[c + "Condition", self.cond()] for c in ("Default", "Disable", "Enable", "Hide", "Show") if self.p(.1)]
        kids = []
        for _ in range(self.pick(0, 0, 1, 2)):
            kids.append(self.publish(False))
        for _ in range(self.pick(0, 0, 0, 1, 2)):
            self.n += 1
            kids.append(self.el("Subscribe", [["Event", self.pick("SetProgress", "E%d" % self.n, "ActionData%d" % self.n, "E%d" % self.n)], ["Attribute", self.pick("Text", "Progress")]]))
        for _ in range(self.pick(0, 0, 0, 1)):
            kids.append(self.el("Text", [["SourceFile", self.pick("t1.txt", "t2.rtf", "t1.txt", "t2.rtf", "t1.txt", "t3.txt") if self.p(.99) else "none.txt"]]) if self.p(.4) else self.el("Text", [], text=self.space(self.text())))
        if self.p(.05):
            kids.append(self.el("Text", []))
        if self.p(.6 if t == "RadioButtonGroup" else .02):
            self.n += 1
            kids.append(self.el("RadioButtonGroup", [["Property", "R%d" % (self.n if self.p(.97) else 1)]],
                                *[self.el("RadioButton", [["Value", self.text()]] + [[n, self.num()] for n in ("X", "Y", "Width", "Height")] + self.attrs(Text=None, Help=None)) for _ in range(self.r.randrange(5))]))
        self.r.shuffle(kids)
        return self.el("Control", a, *kids)

    def dialog(self, name):
        a = [["Id", name], ["Width", self.num()], ["Height", self.num()]] + self.attrs(Title=None)
        a += self.yes("CustomPalette", "ErrorDialog", "Hidden", "KeepModeless", "LeftScroll", "Modeless", "NoMinimize", "RightAligned", "RightToLeft", "TrackDiskSpace")
        n = self.pick(1, 2, 3, 4, 5, 8) if self.p(.99) else 0
        return self.el("Dialog", a, *[self.control(k + 1) for k in range(n)])

    def reference(self):
        k = self.r.random()
        n = self.pick("CancelDlg", "Lib1", "Lib2", "Lib3") if self.p(.99) else "nowhere"
        if k < .5:
            return self.el("DialogRef", [["Id", n]])
        return self.el("Publish", [["Dialog", n], ["Control", "C1"], ["Event", "E%d" % self.r.randrange(100)], ["Value", "D1"]] + ([["Order", self.num()]] if self.p(.3) else []))

    def library(self, name):
        kids = []
        if name != "Common":
            self.dialogs = [name]
            kids.append(self.dialog(name))
        if self.p(.3):
            self.n += 1
            kids.append(self.el("UIText", [["Id", "U%d" % self.n]], text="lib"))
        if self.p(.4):
            kids.append(self.reference())
        self.r.shuffle(kids)
        return self.el("Wix", [], self.el("Fragment", [], self.el("UI", [["Id", name]] if self.p(.9) else [], *kids)))

    def plain(self):
        kids = []
        for _ in range(self.pick(0, 1, 2)):
            self.n += 1
            kids.append(self.el("ProgressText", self.attrs(["Action", "A%d" % self.n], Template=None), text=self.text().strip()))
        return [self.el("Wix", [], self.el("Product", START[1][2]), self.el("Fragment", [], self.el("UI", [["Id", "U"]], *kids), *[self.el("UIRef", [["Id", self.pick("U", "U", "Lib1")]])][:self.pick(0, 1)]))]

    def interface(self):
        r = self.r
        self.dialogs = ["D%d" % k for k in range(1, self.pick(1, 2, 3, 4) + 1)]
        uis = [[] for _ in range(self.pick(1, 1, 2, 3))]
        for d in self.dialogs:
            r.choice(uis).append(self.dialog(d))
            if self.p(.3):
                r.choice(uis).append(self.el("DialogRef", [["Id", d]]))
        for _ in range(self.pick(0, 1, 2, 4)):
            r.choice(uis).append(self.publish(True))
        for _ in range(self.pick(0, 0, 1, 2)):
            r.choice(uis).append(self.reference())
        for k in range(self.pick(0, 0, 1, 2)):
            self.n += 1
            r.choice(uis).append(self.el("TextStyle", self.attrs(["Id", "S%d" % self.n], ["FaceName", "Tahoma"], ["Size", self.num()], Red=["0", "255", "16"], Green=["0", "255"], Blue=["7", "255"], Bold=YES, Italic=YES, Underline=YES, Strike=YES)))
        for k in range(self.pick(0, 0, 1, 2)):
            self.n += 1
            r.choice(uis).append(self.el("UIText", [["Id", "U%d" % self.n]] + ([["Value", self.text()]] if self.p(.4) else []), text=self.space(self.text()) if self.p(.5) else ""))
        for k in range(self.pick(0, 0, 1, 2)):
            self.n += 1
            r.choice(uis).append(self.el("ProgressText", self.attrs(["Action", "A%d" % self.n], Template=None), text=self.space(self.text()) if self.p(.7) else ""))
        named = []
        for k, u in enumerate(uis):
            r.shuffle(u)
            u[:] = [self.el("UI", [["Id", "UI%d" % k]] if self.p(.6) else [], *u)]
            if u[0][1]:
                named.append("UI%d" % k)
        roots = [self.el("Wix", [], self.el("Product", START[1][2]))]
        for u in uis:
            f = self.el("Fragment", [], *u)
            if self.p(.5):
                roots.append(self.el("Wix", [], f))
            else:
                r.choice(roots)[2].append(f)
        if named and self.p(.5):
            r.choice([roots[0][2][0], r.choice(roots)[2][-1]])[2].append(self.el("UIRef", [["Id", r.choice(named + ["Lib1", "Common"]) if self.p(.95) else "nowhere"]]))
        r.shuffle(roots)
        if self.p(.06):
            els = [t for x in roots for t in self.walk(x) if t[1] and t[0] not in ("Product", "Publish")]
            if els:
                t = r.choice(els)
                t[1].remove(r.choice(t[1]))
        return roots


def run(seed):
    g = Gen(seed)
    files = [["t1.txt", g.pick("", "a license\nof two lines\n", "one")], ["t2.rtf", "{\\rtf1 é}"]] + ([["t3.txt", g.text()]] if g.p(.9) else [])
    roots = g.interface()
    ext = g.p(.95)
    lib = []
    if ext:
        for n in (["CancelDlg", "Common"] if g.p(.99) else ["Common"]) + (["Lib1", "Lib2", "Lib3"] if g.p(.95) else []):
            g.n += 50
            lib.append([n, wixgen.flat([g.library(n)])[0][1]])
    if not ext and g.p(.8):
        roots = g.plain()
    return wixgen.flat(roots) + [["build", {"ext": ext, "files": files, "lib": lib}]]
