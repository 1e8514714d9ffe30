"""Random lists for spec/WixHeat.tla."""
import random

NAMES = ["a", "b", "ab", "A", "a b", "x.txt", "y.tar.gz", "a&b", "<x>", "it's", 'q"q', "é", "ö ß", "$", "a$b", "$$", "100%", "-", "--", "-->", "]]>", "&lt;", "#", "[x]", "{y}", "(z)", "x=y", "a;b", "+", "~", "!", "@", "0", "_", ",", "^", "`", "'"]


def alike(r, n):
    """A name that differs little from n: its case, one more or one less character at either end, one character."""
    i = r.randrange(len(n))
    made = r.choice([n.swapcase(), n.upper(), n + r.choice("a1. _~"), r.choice("aA_b") + n, n[:-1], n[1:], n[:i] + r.choice("aAbZ0") + n[i + 1:], n * 2])
    return n + "2" if made in ("", ".", "..") or made.startswith("-") else made


def run(seed):
    r = random.Random("heat%d" % seed)
    names = r.sample(NAMES, r.choice([3, 4, 6, 10]))
    if r.random() < .6:
        names += [alike(r, r.choice(names)) for _ in range(r.choice([1, 2, 5]))]
    share = r.choice([.2, .35, .6])
    tops = [["t"], ["t"], ["t", r.choice(names)], ["pre fix", "é&"], []]
    dirs, files = [r.choice(tops)], []
    top = dirs[0]
    for _ in range(r.choice([1, 3, 8, 25])):
        d = r.choice(dirs)
        n = d + [r.choice(names)]
        if n in dirs or n in files or not d and n[0] in ("-", "--"):
            continue
        (dirs if r.random() < share else files).append(n)
    for d in list(dirs[1:]):  # a directory that is hardly another one, with a file in each
        if r.random() < .3:
            n = d[:-1] + [r.choice([d[-1].swapcase(), alike(r, d[-1])])]
            if n not in dirs and n not in files:
                dirs.append(n)
                for x in (d, n):
                    f = x + [r.choice(names)]
                    if f not in dirs and f not in files:
                        files.append(f)
    if r.random() < .5:
        other = ["other"] + [r.choice(names)]
        if other not in files and other not in dirs:
            files.append(other)
    lines = [["file", f, "%d %s" % (seed, "/".join(f))] for f in files] + [["dir", d, ""] for d in dirs if d and r.random() < .7]
    k = r.random()
    if k < .4:
        lines.sort(key=lambda l: l[1])
    else:
        r.shuffle(lines)
        if k < .7:
            lines.sort(key=lambda l: "/".join(l[1]).lower())
    if r.random() < .3 and lines:
        lines += [r.choice(lines) for _ in range(2)]
    ops = list(lines)
    for _ in range(r.choice([1, 2, 3])):
        base = r.choice([top, top, r.choice(dirs)])
        slash = bool(base) and r.random() < .6
        text = "/".join(base)
        slash = slash or bool(base) and any(("/".join(x[1]) + "/").startswith(text) and ("/".join(x[1]) + "/")[len(text)] != "/" for x in lines)
        prefix = text + ("/" if slash else "")
        ex = []
        if slash or not base:
            below = [f[len(base):] for f in files + dirs if f[:len(base)] == base and len(f) > len(base)]
            for _ in range(r.choice([0, 0, 1, 2])):
                if below:
                    b = "/".join(r.choice(below))
                    ex.append(b[:r.randint(1, len(b))] if r.random() < .5 else b)
        ops.append(["heat", prefix, [e for e in ex if not e.startswith("-")], [o for o in ("group", "var", "win64", "ref") if r.random() < .5]])
    return ops
