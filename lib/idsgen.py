"""Random histories for spec/WixIds.tla."""
import random

PLACES = ["TARGETDIR", "D1", "D2", "D3", "D4", "ref:D1", "ref:D2", "ref:D3", "group"]
FILES = ["a", "b", "A.txt", "a.txt", "é.txt", "c d.txt", "a-b", "S"]
KEYS = ["K", "K\\L", "k", "Software\\M\\N", "a|b", "a^", "a", ".x", "K\\L\\M", "L"]
NAMES = ["none", "N", "n2", "|b", "b", "^", "L", "Content Type", "Extension"]
ROOTS = ["HKLM", "HKCU", "HKCR", "HKU"]


def code(r):
    c = "".join(r.choice("0123456789abcdefABCDEF") for _ in range(32))
    c = "-".join([c[:8], c[8:12], c[12:16], c[16:20], c[20:]])
    return r.choice(["%s", "{%s}"]) % c


def run(seed):
    r = random.Random("ids%d" % seed)
    stem, tail = "InstallLocation"[:r.randrange(3, 15)], r.choice(["", "", "Path", "OfTheInstalledProduct"])
    names = NAMES + r.choice([[], [stem + c + tail for c in ("A", "B", "", "AA")]])
    keys = KEYS + r.choice([[], ["Software\\" + stem + c + "\\" + tail + "x" for c in ("A", "B", "", "AA")]])
    files = FILES + r.choice([[], [stem + c + tail + ".dll" for c in ("A", "B", "")]])
    ops, comps, rows, ups = [], {}, set(), []
    pool = [code(r) for _ in range(3)]

    def add(i, root, key, name):
        k = (i, root, key, name.lower())
        if k in rows and r.random() < .9:
            return False
        rows.add(k)
        return True
    for _ in range(r.randrange(5, 16)):
        k = r.random()
        if k < .3 or not comps:
            i = r.choice([c for c in ["A", "B", "C", "D", "a", "AB", "Two", "A.b"] if c not in comps] or [""])
            if not i:
                continue
            key = ["file", r.choice(files)] if r.random() < .55 else ["reg", r.choice(ROOTS), r.choice(keys), r.choice(names), r.choice(["direct", "nested", "split", "over"])]
            comps[i] = key
            if key[0] == "reg":
                add(i, *key[1:4])
            ops.append(["comp", i, r.choice(PLACES), key, r.choice(["*", "*", "*", "*", code(r), ""])])
        elif k < .55:
            i = r.choice(sorted(comps))
            v = [r.choice(ROOTS), r.choice(keys), r.choice(names)]
            if add(i, *v):
                ops.append(["value", i] + v + [r.choice(["direct", "nested", "split", "over"])])
                if r.random() < .3:  # one that is hardly another
                    j = r.choice([1, 2])
                    if v[j] not in ("none", "^", "|b"):
                        v[j] = r.choice([v[j] + r.choice("aA1"), v[j][:-1] + r.choice("aB1"), "x" + v[j], v[j] + v[j]])
                        if add(i, *v):
                            ops.append(["value", i] + v + [r.choice(["direct", "nested", "split", "over"])])
        elif k < .63:
            i = r.choice(sorted(comps))
            if any(c[0] == "file" for c in comps.values()) and not any(o[0] == "prog" and o[1] == i for o in ops):
                p = ["prog", i, r.choice(["P", "P.Q", "Doc.1", "a|b"]), r.choice(["", "x", "xy"]), r.choice(["", "text/x"]), "", r.choice(["", "text/x", "P"])]
                if comps[i][0] == "file":
                    p[5] = r.choice(["", "open", "edit"])
                ops.append(p)
        elif k < .7 and len(comps) > 1:
            i = r.choice(sorted(comps))
            if not (comps[i][0] == "file" and any(o[0] == "prog" and o[5] for o in ops)):
                ops.append(["drop", i])
                comps.pop(i)
                rows = {x for x in rows if x[0] != i}
        elif k < .77:
            ops.append(["move", r.choice(sorted(comps)), r.choice(PLACES)])
        elif k < .82:
            ops.append(["codes", r.choice(["*", "*", code(r), r.choice(pool)]), r.choice(["", code(r), r.choice(pool)])])
        elif k < .86 and len(ups) < 2:
            u = code(r)
            ups.append(u)
            ops.append(["upgrade", u])
        else:
            ops.append(["build", r.choice(["x86", "x64"])])
    return ops + [["build", "x86"], ["build", "x64"]]
