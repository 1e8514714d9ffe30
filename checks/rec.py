"""D14: records and their streams against spec/MsiRec.tla."""
import build, model, recexec

TEXTS = ["", "0", "-0", "7", "-7", "00012", "2147483647", "-2147483647", "-2147483648", "2147483648", "4294967295", "4294967296",
         "4294967297", "1000000000000000", "-99999999999999999999", "123456789012345678901234567890", "+1", " 1", "1 ", "1.0", "0x10",
         "--1", "1-", "-", "x", "12a", "a12", "é", "日本", "１", "\t", "a b", "-1-1", "٣", "9" * 40, "a" * 300]
INTS = [0, 1, -1, 32767, 32768, -32768, 65535, 65536, 2147483647, -2147483647, -2147483648, 10, -10]
COUNTS = [0, 1, 2, 3, 5, 31, 32, 33, 255, 256, 1000, 65534, 65535, 65536]


def script(rng, n):
    ops, cnt = [], {}

    def new(r):
        k = rng.choice(COUNTS[:6]) if rng.random() < .8 else rng.choice(COUNTS)
        ops.append(["rnew", r, k])
        if k <= 65534:
            cnt[r] = k
        else:
            cnt.pop(r, None)

    def field(r):
        k = cnt[r]
        return rng.choice([0, 1, k, k + 1, k // 2, rng.randint(0, k), 65535, 2147483648 - 1]) if rng.random() < .7 else rng.randint(0, k)

    def data():
        m = rng.choice([0, 1, 2, 7, 100, 511, 512, 4095, 4096, 4097, 9000]) if rng.random() < .3 else rng.randint(0, 40)
        return bytes(rng.getrandbits(8) for _ in range(m)).hex()

    new("A")
    for _ in range(n):
        if not cnt or rng.random() < .04:
            new(rng.choice("ABC"))
            continue
        r = rng.choice(sorted(cnt))
        f = field(r)
        c = rng.choice(["rseti", "rsets", "rsets", "rload", "rsetm", "rgeti", "rgeti", "rgets", "rgets", "rnull", "rstream", "rstream", "rcount",
                        "rclear", "rfree", "rnofile"] if rng.random() < .3 else
                       ["rseti", "rsets", "rsets", "rload", "rsetm", "rgeti", "rgeti", "rgets", "rgets", "rnull", "rstream", "rstream"])
        if c == "rseti":
            ops.append([c, r, f, rng.choice(INTS) if rng.random() < .7 else rng.randint(-2147483647, 2147483647)])
        elif c == "rsets":
            t = rng.choice(TEXTS) if rng.random() < .6 else ("-" if rng.random() < .3 else "") + str(rng.getrandbits(rng.choice([4, 16, 31, 32, 33, 64])))
            ops.append([c, r, f, t])
        elif c == "rload":
            ops.append([c, r, f, data()])
        elif c == "rsetm":
            h = data()
            ops.append([c, r, f, h, rng.choice([len(h) // 2, rng.randint(0, len(h) // 2), len(h) // 2 + 1])])
        elif c == "rstream":
            so = []
            for _ in range(rng.randint(1, 8)):
                o = rng.choice("rrrsskcet")
                v = rng.choice([0, 1, 2, 3, 64, 512, 4096, 100000, rng.randint(0, 50)])
                if o in "ce" and rng.random() < .6:
                    v = -v
                if o == "k" and rng.random() < .1:
                    v = -1
                so.append([o, 0 if o == "t" else v])
            ops.append([c, r, f, so])
        elif c in ("rcount", "rclear", "rfree"):
            ops.append([c, r])
            if c == "rfree":
                del cnt[r]
        else:
            ops.append([c, r, f])
    # the end: everything of every record of moderate size
    for r in sorted(cnt):
        for f in range(min(cnt[r], 12) + 1):
            ops += [["rnull", r, f], ["rgeti", r, f], ["rgets", r, f], ["rstream", r, f, [["r", 20000]]]]
    return ops


def run(ck):
    d = build.lib()
    pre, beh, st = model.explore("MC_Rec", {"DEPTH": 3 if ck.quick else 4}, workers=1 if ck.quick else 8)
    ck.model(st)
    look = [[o, r, f] for o in ("rnull", "rgeti", "rgets") for r, f in (("A", 0), ("A", 1), ("A", 2), ("B", 0))] + \
           [["rstream", "A", f, [["r", 3], ["r", 3]]] for f in (1, 2)]
    runs = model.traces(pre, beh, look, independent=False)
    items, cur = [], []
    for r in runs:
        cur += r
        if len(cur) > 400:
            items.append(cur)
            cur = []
    items.append(cur)
    ck.decide("MC_Rec", lambda ops: recexec.execute(d, ops), items, module="RecTrace")
    n = 150 if ck.quick else 3000
    for k in range(0, n, 500):
        ck.decide("random", lambda i: recexec.execute(d, script(ck.rng(i), 150)), list(range(k, min(n, k + 500))), module="RecTrace")
        if ck.violations:
            break
    ck.assumptions += ["text of decimal digits reads as that number modulo 2^32, as the library's own tests say"]
