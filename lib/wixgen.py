"""Random wixl documents for spec/WixDoc.tla."""
import random, uuid

TEXTS = ["some text", "a & b < c", "it's", 'say "x"', "[ProductName]", "#5", "100%", "a;b|c", "é ü", "x" * 70, "0", " lead", "~", "1.0", "^a|b", "a\\b\\c", "{x}"]
YES = ["yes", "no", "Yes", "y"]


class Gen:
    def __init__(self, seed, files=False):
        self.many = files
        self.r = random.Random(seed)
        self.n = 0

    def pick(self, *a):
        return self.r.choice(a)

    def p(self, x):
        return self.r.random() < x

    def id(self, kind):
        self.n += 1
        return "%s%s%d" % (self.pick("", "_", "My.", "the_"), kind, self.n)

    def text(self):
        t = self.r.choice(TEXTS)
        if self.p(.2):
            t += " " + self.r.choice(TEXTS)
        if self.p(.15):
            t = self.pick("#", "##", "#x", "#%", "~", "*", "+", "-", "!", "[", "]", ".", "/", "%") + self.pick(t, t[:2])
        if self.p(.1):
            t += self.pick("#", "##", "*", "+", "-", "]", "/", ".", ";", "|", "0", t)
        return t

    def guid(self):
        g = str(uuid.UUID(int=self.r.getrandbits(128)))
        g = self.pick(g, g.upper(), g)
        return self.pick(g, "{" + g + "}")

    def attrs(self, *must, **may):
        """the attributes that must be there, and some of the others (None: any text)"""
        a = [list(x) for x in must]
        for k, v in may.items():
            if self.p(.4):
                a.append([k, self.text() if v is None else self.r.choice(v)])
        return a

    def el(self, name, attrs, *kids, text=""):
        return [name, attrs, [k for k in kids if k], text]

    # -------------------------------------------------------------- parts
    def regvalue(self, inside, key):
        a = [["Type", self.pick("string", "integer", "binary", "expandable", "string")]]
        a.append(["Value", {"integer": self.pick("0", "1", "77", "-3"), "binary": self.pick("0aff", "#x0aff", "")}.get(a[0][1]) or self.text()])
        if inside:
            if self.p(.4):
                a.append(["Key", "sub" + str(self.r.randrange(3))])
            if self.p(.1):
                a.append(["Root", self.pick("HKCU", "HKLM")])
        else:
            a += [["Root", self.pick("HKCR", "HKCU", "HKLM", "HKU", "HKMU", "hklm")], ["Key", "Soft\\" + str(self.r.randrange(4))]]
        if self.p(.7):
            a.append(["Name", self.pick("n%d" % self.r.randrange(40), self.text())])
        if self.p(.3):
            a.append(["Id", self.id("Reg")])
        if key:
            a.append(["KeyPath", "yes"])
        return self.el("RegistryValue", a)

    def file(self, key):
        f = self.r.choice(self.files)[0]
        root = self.pick(*(["."] + self.dirs))
        src = f
        for d in self.dirs:
            if d != "." and f.startswith(d + "/"):
                src = self.pick(f, f[len(d) + 1:])
        i = self.id("F")
        a = [["Id", i], ["Source", src]]
        if self.p(.4):
            a.append(["Name", self.pick("n%d.txt" % self.n, "long name %d.ext" % self.n, "é%d" % self.n)])
        if key:
            a.append(["KeyPath", "yes"])
        a += self.attrs(DefaultVersion=["1.2.3.4"], DiskId=self.media)
        if self.p(.1) and self.fileids and not key:
            a.append(["CompanionFile", self.r.choice(self.fileids)])
            a = [x for x in a if x[0] != "DefaultVersion"]
        self.fileids.append(i)
        kids = [self.shortcut() for _ in range(self.pick(0, 0, 0, 1, 2))]
        return self.el("File", a, *kids)

    def shortcut(self):
        a = self.attrs(["Id", self.id("S")], ["Name", self.pick("sc", "my short cut")], Arguments=None, Description=None, Target=["[#F]", "[TARGETDIR]x.exe"], Directory=self.dirids, WorkingDirectory=self.dirids,
                       IconIndex=["0", "3", "17"])
        if self.icons and self.p(.5):
            a.append(["Icon", self.r.choice(self.icons)])
        return self.el("Shortcut", a)

    def service(self):
        deps = [self.el("ServiceDependency", self.attrs(["Id", self.id("dep")], Group=YES)) for _ in range(self.pick(0, 0, 1, 2))]
        return self.el("ServiceInstall", self.attrs(["Id", self.id("SI")], ["Name", "svc%d" % self.n], ["Type", self.pick("ownProcess", "shareProcess")], ["Start", self.pick("auto", "demand", "disabled")],
                       ["ErrorControl", self.pick("ignore", "normal", "critical")], DisplayName=None, LoadOrderGroup=None, Account=None, Password=None, Arguments=None, Interactive=YES, EraseDescription=YES, Description=None), *deps)

    def control(self):
        args = [self.el("ServiceArgument", [], text=self.pick("-x", "a b", "--long=1")) for _ in range(self.pick(0, 0, 1, 2))]
        m = ["install", "uninstall", "both"]
        return self.el("ServiceControl", self.attrs(["Id", self.id("SC")], ["Name", "svc"], Start=m, Stop=m, Remove=m, Wait=YES), *args)

    def progid(self):
        pid = self.id("Prog")
        exts = []
        for _ in range(self.pick(0, 1, 1, 2)):
            kids = []
            for v in self.r.sample(["open", "edit", "print"], self.pick(0, 1, 2)):
                if self.fileids:
                    kids.append(self.el("Verb", self.attrs(["Id", v], ["TargetFile", self.r.choice(self.fileids)], Argument=['"%1"', "/x"], Command=["Do it", "Go"])))
            if self.p(.3):
                kids.append(self.el("MIME", self.attrs(["ContentType", "application/x-%d" % self.n], Default=YES)))
            exts.append(self.el("Extension", self.attrs(["Id", "e%d" % self.r.randrange(100000)], ContentType=["text/plain", "a/b"]), *kids))
        return self.el("ProgId", self.attrs(["Id", pid], Description=None), *exts)

    def component(self, where):
        i = self.id("C")
        self.comps.append(i)
        kids = []
        keyed = self.p(.5)
        for _ in range(self.pick(0, 1, 1, 2, 3) + (self.pick(0, 1, 3) if self.many else 0)):
            kids.append(self.file(False))
        for _ in range(self.pick(0, 0, 1, 2)):
            kids.append(self.regvalue(False, False))
        for _ in range(self.pick(0, 0, 0, 1)):
            kids.append(self.el("RegistryKey", [["Root", self.pick("HKLM", "HKCU", "HKMU")], ["Key", "Software\\K%d" % self.r.randrange(5)]], *[self.regvalue(True, False) for _ in range(self.pick(0, 1, 2))]))
        able = [k for k in kids if k[0] in ("File", "RegistryValue") and not any(a[0] == "CompanionFile" for a in k[1])] + [v for k in kids if k[0] == "RegistryKey" for v in k[2]]
        if keyed and able:
            self.r.choice(able)[1].append(["KeyPath", "yes"])
        if self.many:
            self.r.shuffle(kids)
        elif self.p(.15):
            kids.append(self.service())
        if self.p(.15):
            kids.append(self.control())
        if self.p(.15):
            kids.append(self.progid())
        if self.p(.15):
            kids.append(self.el("CreateFolder", self.attrs(Directory=self.dirids)))
        if self.p(.15):
            kids.append(self.el("RemoveFolder", [["Id", self.id("RF")], ["On", self.pick("install", "uninstall", "both")]]))
        if self.p(.15):
            kids.append(self.el("IniFile", self.attrs(["Id", self.id("Ini")], ["Action", self.pick("addLine", "createLine", "removeLine", "addTag", "removeTag")], ["Name", "x.ini"], ["Section", "s%d" % self.n], ["Key", "k"],
                                ["Value", self.text()], Directory=self.dirids)))
        if self.p(.1):
            kids.append(self.shortcut())
        self.r.shuffle(kids)
        first = [k for k in kids if k[0] in ("File", "RegistryValue")] or able
        # (a companion is never the key)
        if first and any(a[0] == "CompanionFile" for a in first[0][1]):
            first[0][1][:] = [a for a in first[0][1] if a[0] != "CompanionFile"]
        # a name made from contents needs a key path
        g = "*" if able and self.p(.5) else self.guid() if self.p(.9) else ""
        return self.el("Component", self.attrs(["Id", i], ["Guid", g], Permanent=YES, Win64=YES), *kids)

    def dir(self, depth):
        i = self.id("D")
        self.dirids.append(i)
        kids = [self.dir(depth + 1) for _ in range(self.pick(0, 1, 1, 2) if depth < 3 else 0)]
        return self.el("Directory", [["Id", i]] + ([["Name", self.pick("dir %d" % self.n, "d%d" % self.n, "same")]] if self.p(.9) else []), *kids)

    def walk(self, t):
        yield t
        for k in t[2]:
            yield from self.walk(k)

    def feature(self, depth):
        kids = [self.feature(depth + 1) for _ in range(self.pick(0, 0, 1, 2) if depth < 3 else 0)]
        a = self.attrs(["Id", self.id("A")], Title=None, Description=None, Level=["0", "1", "3", "1000"], Display=["expand", "collapse", "hidden", "4", "11"], ConfigurableDirectory=self.dirids,
                       InstallDefault=["followparent", "local", "source"], Absent=["allow", "disallow"])
        ad = self.pick(None, "no", "system", "yes")
        if ad:
            a.append(["AllowAdvertise", ad])
        if self.p(.3) and ad != "no":
            a.append(["TypicalDefault", self.pick("advertise", "install")])
        return self.el("Feature", a, *kids)

    def custom(self):
        i = ["Id", self.id("CA")]
        kinds = [[["Property", "P"], ["Value", self.text()]], [["Property", "P"], ["ExeCommand", self.text()]]]
        if self.bins:
            kinds += [[["BinaryKey", self.r.choice(self.bins)], ["DllEntry", "entry"]], [["BinaryKey", self.r.choice(self.bins)], ["JScriptCall", "f"]]]
        if self.fileids:
            kinds.append([["FileKey", self.r.choice(self.fileids)], ["ExeCommand", "/x"]])
        return self.el("CustomAction", self.attrs(i, *self.r.choice(kinds), Execute=["commit", "deferred", "firstSequence", "immediate", "oncePerProcess", "rollback"], Return=["asyncNoWait", "asyncWait", "check", "ignore"],
                       Impersonate=YES))

    def document(self):
        r = self.r
        nroot = self.pick(1, 1, 2, 3)
        self.dirs = [self.pick(".", ".", "sub", "a/b") for _ in range(nroot)]
        self.files = []
        for i in range(r.randint(2, 6)):
            size = self.pick(0, 1, 5, 300, 5000, 33000, *([32768, 70000] if self.many else [])) if self.p(.4) else r.randrange(60)
            body = bytes(r.getrandbits(8) for _ in range(size)) if self.p(.5) else (b"abc%d\n" % i * (size // 5 + 1))[:size]
            name = self.pick("", "", "sub/", "a/b/") + self.pick("f%d.txt", "f%d.txt", "file %d", "é%d.bin") % (i % 4)
            if name not in [f[0] for f in self.files]:
                self.files.append([name, 0, [0, 0, 0, 0], "", body.hex()])
        # only what is found from here or beside a document is used
        reach = [f for f in self.files if True]
        self.media = [str(x) for x in r.sample([1, 2, 3, 7], self.pick(1, 1, 2, 3))]
        if "1" not in self.media:
            self.media.append("1")
        self.fileids, self.comps, self.dirids, self.icons, self.bins = [], [], [], [], []
        target = self.el("Directory", [["Id", "TARGETDIR"], ["Name", "SourceDir"]], *[self.dir(0) for _ in range(self.pick(1, 1, 2))])
        product = []
        for _ in range(self.pick(0, 1, 2)):
            self.icons.append(self.id("Icon"))
            product.append(self.el("Icon", [["Id", self.icons[-1]], ["SourceFile", r.choice(self.files)[0]]]))
        for _ in range(self.pick(0, 1, 2)):
            self.bins.append(self.id("Bin"))
            product.append(self.el("Binary", [["Id", self.bins[-1]], ["SourceFile", r.choice(self.files)[0]]]))
        frags = [[] for _ in range(nroot - 1 + self.pick(1, 1, 2))]
        dirs = [t for t in self.walk(target)][1:]
        # directories moved to other files
        for f in frags:
            if self.p(.5):
                f.append(self.el("DirectoryRef", [["Id", r.choice(self.dirids + ["TARGETDIR"])]], self.dir(2)))
        groups = []
        for _ in range(r.randint(1, 6)):
            w = self.pick("dir", "dir", "ref", "group", "group")
            c = self.component(w)
            if w == "dir":
                r.choice(dirs)[2].append(c)
            elif w == "ref" and frags:
                r.choice(frags).append(self.el("DirectoryRef", [["Id", r.choice(self.dirids)]], c))
            else:
                if not groups or self.p(.5):
                    groups.append(self.el("ComponentGroup", [["Id", self.id("G")], ["Directory", r.choice(self.dirids)]]))
                r.choice(groups)[2].append(c)
        # groups that hold other groups
        for k, g in enumerate(groups[1:]):
            if self.p(.4):
                g[2].append(self.el("ComponentGroupRef", [["Id", groups[r.randrange(k + 1)][1][0][1]]]))
            if self.p(.3):
                g[2].append(self.el("ComponentRef", [["Id", r.choice(self.comps)]]))
        feats = [self.feature(0) for _ in range(self.pick(1, 1, 2, 3))]
        allf = [f for t in feats for f in self.walk(t)]
        gid = lambda g: g[1][0][1]
        for f in allf:
            mine = set()
            for c in r.sample(self.comps, r.randint(0, len(self.comps))):
                f[2].insert(r.randint(0, len(f[2])), self.el("ComponentRef", [["Id", c]]))
            for g in r.sample(groups, r.randint(0, min(2, len(groups)))):
                f[2].insert(r.randint(0, len(f[2])), self.el("ComponentGroupRef", [["Id", gid(g)]]))
        if self.p(.8):
            for c in self.comps:
                r.choice(allf)[2].append(self.el("ComponentRef", [["Id", c]]))
        for g in groups:
            r.choice(frags).append(g)
        for k, m in enumerate(self.media):
            if m == "1" and len(self.media) == 1 and self.p(.2):
                product.append(self.el("MediaTemplate", self.attrs(EmbedCab=YES)))
            else:
                product.append(self.el("Media", self.attrs(["Id", m], ["Cabinet", self.pick("m%s.cab", "cab_%s.cab", "m%s") % m], EmbedCab=YES, DiskPrompt=None)))
        for _ in range(self.pick(0, 1, 2)):
            kids = []
            if self.p(.4):
                kids.append(self.el("RegistrySearch", self.attrs(["Id", self.id("RS")], ["Root", self.pick("HKLM", "HKCU", "HKCR")], ["Key", "Soft"], ["Type", self.pick("raw", "directory", "file")], Name=None, Win64=YES)))
            product.append(self.el("Property", self.attrs(["Id", self.id("P")], Value=None, Secure=YES), *kids))
        for _ in range(self.pick(0, 0, 1)):
            product.append(self.el("Condition", [["Message", self.text()]], text=self.pick("VersionNT", "A < B and C >= 5", "x & y")))
        for _ in range(self.pick(0, 0, 1, 2)):
            product.append(self.custom())
        pa = [["Id", self.pick("*", self.guid())], ["Name", self.text()], ["Version", self.pick("1.2.3", "10.0", "1")], ["Manufacturer", self.text()], ["Language", self.pick("1033", "0")]]
        code = self.p(.6)
        if code:
            pa.append(["UpgradeCode", self.guid()])
            if self.p(.5):
                product.append(self.el("MajorUpgrade", self.attrs(AllowDowngrades=["yes", "no"], AllowSameVersionUpgrades=["yes", "no"], DowngradeErrorMessage=None)))
        if self.p(.3):
            product.append(self.el("Upgrade", [["Id", self.guid()]], *[self.el("UpgradeVersion", self.attrs(["Minimum", "%d.0" % k], ["Property", self.id("UP")], Maximum=["9.9"], OnlyDetect=YES, MigrateFeatures=YES,
                                   IncludeMinimum=YES, IncludeMaximum=YES)) for k in range(self.pick(1, 2))]))
        if self.p(.2):
            pa.append(["Codepage", self.pick("1252", "65001")])
        product += [target] + feats
        r.shuffle(product)
        if self.p(.9):
            product.insert(0, self.el("Package", self.attrs(Keywords=None, Description=None, Comments=None, InstallerVersion=["200", "301"], InstallScope=["perUser", "perMachine"])))
        parts = [self.el("Fragment", [], *f) for f in frags]
        roots = [self.el("Wix", [], p) for p in parts[:nroot - 1]]
        roots.insert(0, self.el("Wix", [], self.el("Product", pa, *product)))
        for p in parts[nroot - 1:]:
            r.choice(roots)[2].insert(self.pick(0, 1), p)
        # the product may stand in any of the files
        k = r.randrange(len(roots))
        roots = roots[1:k + 1] + roots[:1] + roots[k + 1:]
        return roots

    def mutate(self, roots):
        r = self.r
        els = [t for x in roots for t in self.walk(x) if t[1] and t[0] not in ("Property",)]
        t = r.choice(els)
        a = r.choice(t[1])
        k = r.random()
        if k < .4:
            t[1].remove(a)
        elif k < .7:
            same = [e for e in els if e[0] == t[0] and e is not t]
            ids = [b[1] for e in same for b in e[1] if b[0] == a[0]]
            if ids and t[0] != "ComponentGroup" and not (a[0] == "Id" and t[0] == "Directory") and a[0] != "Cabinet":
                a[1] = r.choice(ids)
        elif a[0] in ("Id", "Directory", "Icon", "BinaryKey", "FileKey", "TargetFile", "CompanionFile", "Source", "SourceFile", "DiskId", "ConfigurableDirectory", "Type", "Root", "Start", "On", "Action", "ErrorControl"):
            if t[0] != "Shortcut" or a[0] != "Directory":
                a[1] = "9" if a[0] == "DiskId" or t[0] == "Media" else "nowhere"


def flat(roots):
    ops, n = [], [0]

    def go(t, p):
        n[0] += 1
        i = n[0]
        ops.append([t[0], p, [list(a) for a in t[1]], t[3]])
        for k in t[2]:
            go(k, i)
    for x in roots:
        go(x, 0)
    return [["els", ops]]


def run(seed, files=False):
    g = Gen(seed, files)
    roots = g.document()
    if g.p(.25):
        g.mutate(roots)
    return flat(roots) + [["build", {"arch": g.pick("x86", "x86", "x64"), "dirs": g.dirs, "files": g.files}]]
