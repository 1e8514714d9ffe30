"""Random packages for spec/MsiExtract.tla."""
import hashlib, random

NAMES = ["Dir", "My Files", "short~1|Long Name", "a.b", "Ünï", "x", "bin", "it's", "50%", "UPPER", "(86)", "a;b", "日本"]
DEFS = [".", "SourceDir", ".:src", "T:S", "t~1|Target Dir:s~1|Source Dir", "x|.", ".|y"]
FNAMES = ["readme.txt", "READ~1.TXT|Read Me.txt", "a", "no extension", "ü.dat", "x|long|bar", "file.tar.gz", "-dash", "#hash", "q'q", "c:d"]


def package(r, body):
    n = r.randint(1, 8)
    ids = ["TARGETDIR"] + r.sample(["ProgramFilesFolder", "INSTALLDIR", "D1", "D2", "D_3", "dir.4", "SystemFolder", "DesktopFolder", "E5"], n)
    used = {}
    dirs = [["TARGETDIR", r.choice(["", "", "TARGETDIR"]), "SourceDir"]]
    for i, d in enumerate(ids[1:]):
        par = r.choice(ids[:i + 1]) if r.random() < .95 else r.choice([d, "", "NoSuchDir"])
        name = r.choice(DEFS) if r.random() < .3 else r.choice(NAMES) + (str(i) if r.random() < .8 else "")
        dirs.append([d, par, name])
    if r.random() < .05:
        r.choice(dirs[1:])[1] = ids[-1]
    r.shuffle(dirs)
    comps = [["C%d" % i, r.choice(ids)] for i in range(r.randint(1, 6))]
    if r.random() < .03:
        comps[0][1] = "Nowhere"
    files = []
    for i in range(r.randint(0, 9)):
        f = r.choice(FNAMES)
        files.append(["fil%d" % i if r.random() < .7 else "F_%d.x" % i, r.choice(comps)[0], f if r.random() < .3 else "n%d" % i + f])
    if r.random() < .03 and files:
        files[0][1] = "NoComp"

    def entry(k):
        z = r.choice([0, 0, 1, 5, 300, 300, 32767, 32768, 32769, 65536, 100000])
        b = bytes(r.getrandbits(8) for _ in range(min(z, 64)))
        b = (b * (z // 64 + 1))[:z]
        h = b.hex()
        if len(h) > 200:
            d = "#%d:%s" % (len(h), hashlib.sha1(h.encode()).hexdigest())
            body[d] = b
            h = d
        return [k, h, z]
    parts, m = [], r.choice([1, 1, 2, 3])
    for i in range(m):
        parts.append([entry(f[0]) for j, f in enumerate(files) if j % m == i])
    if r.random() < .1:
        parts[0].append(entry("stray"))
    r.shuffle(parts[0])
    media, streams, exts = [], [], []
    for i, es in enumerate(parts):
        n = "cab%d.cab" % i
        z = r.random()
        if z < .5:
            media.append([i + 1, "#" + n])
            streams.append([n, es])
        elif z < .9:
            media.append([i + 1, n])
            exts.append([r.choice([n, n.upper(), "Cab%d.CAB" % i]), es])
        elif z < .95:
            media.append([i + 1, ""])
            streams.append([n, es])
        else:
            media.append([i + 1, r.choice(["#", ""]) + "gone%d" % i if r.random() < .5 else ""])
    tabs = ["Directory", "Component", "File", "Media"]
    if r.random() < .04:
        tabs.remove(r.choice(tabs))
    return {"tabs": tabs, "dirs": dirs, "comps": comps, "files": files, "media": media, "streams": streams, "exts": exts}


def clash(ps):
    """a path that is both a file and a directory, which no file system has"""
    def names(p):
        dirs = {d[0]: d for d in p["dirs"]}

        def chain(i, n=0):
            if i not in dirs or n > 20:
                return []
            d = dirs[i]
            nm = d[2].split(":")[0].split("|", 1)[-1]
            nm = "Program Files" if i == "ProgramFilesFolder" else "" if nm in (".", "SourceDir") else nm
            return (chain(d[1], n + 1) if d[1] != i else []) + ([nm] if nm else [])
        comps = dict(p["comps"])
        keys = {f[0]: f for f in p["files"]}
        fs, ds = set(), set()
        for es in p["streams"] + p["exts"]:
            for e in es[1]:
                f = keys.get(e[0])
                q = chain(comps.get(f[1], "")) + [f[2].split("|", 1)[-1]] if f else [e[0]]
                fs.add("/".join(q))
                ds |= {"/".join(q[:i]) for i in range(1, len(q))}
        return fs, ds
    fs, ds = set(), set()
    for p in ps:
        a, b = names(p)
        fs |= a
        ds |= b
    return bool(fs & ds)


def run(seed, n):
    r = random.Random("extract/%s" % seed)
    body = {}
    while True:
        ps = [package(r, body) for _ in range(2)]
        if not clash(ps):
            break
    ops = [["pack", "p", ps[0]], ["pack", "q", ps[1]], ["list", ["p"]], ["extract", ["p"], "o"], ["tree", "o"], ["list", ["q", "p"]],
           ["extract", ["q"], "o2"], ["tree", "o2"]]
    if r.random() < .4:
        ops += [["extract", r.choice([["p", "q"], ["q", "p"]]), "o3"], ["tree", "o3"]]
    if r.random() < .25:
        ops += [["diffl", r.choice("lL"), "p", "q"]]
    if r.random() < .1:
        ops += [["list", ["p", "none"]], ["extract", ["none"], "o4"]]
    return ops, body
