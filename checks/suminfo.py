"""D11: summary information against spec/MsiSum.tla."""
import build, model, sumexec

TEXTS = ["", "x", "Intel;1033", "é", "日本語 text", "a" * 3, "a" * 4, "a" * 5, "b" * 255, "c" * 70000, "line\r\nbreak", "tab\there", " ", "%"]
TIMES = ["0", "1", "131000000000000001", "4294967295", "4294967296", "18446744073709551615", "116444736000000000"]
INTS = [0, 1, -1, 1252, 65001, 200, 32767, 32768, 65535, 70000, 2147483647, -2147483647, -2147483648]


def script(rng, n):
    ops, sess, sis, files = [], {}, {}, set()
    for _ in range(n):
        if not sess or rng.random() < .03:
            h = rng.choice([x for x in "AB" if x not in sess] or ["A"])
            if h in sess:
                continue
            p = rng.choice("pq")
            if p in [x[0] for x in sess.values()]:
                continue
            m = rng.choice(["rw", "rw", "ro", "create"]) if p in files else rng.choice(["create"] * 5 + ["rw", "ro"])
            ops.append(["open", h, p, m])
            if m == "create" or p in files:
                sess[h] = (p, m)
            continue
        x = rng.random()
        if x < .06 or not sis:
            s = rng.choice("STU")
            h = rng.choice(sorted(sess) + [""])
            ops.append(["sinew", s, h, rng.choice([0, 1, 2, 5, 20, 20])])
            sis[s] = h
            continue
        s = rng.choice(sorted(sis))
        p = rng.choice(list(range(0, 20)) * 3 + [20, 21, 1000])
        if x < .55:
            k = {**{q: "i" for q in (1, 14, 15, 16, 19)}, **{q: "s" for q in (2, 3, 4, 5, 6, 7, 8, 9, 18)}, **{q: "t" for q in range(10, 14)}}.get(p, "i")
            if rng.random() < .12:
                k = rng.choice("ist")
            ops.append({"i": ["siseti", s, p, rng.choice(INTS)], "s": ["sisets", s, p, rng.choice(TEXTS) if rng.random() < .8 else "r%x" % rng.getrandbits(200)],
                        "t": ["sisett", s, p, rng.choice(TIMES)]}[k])
        elif x < .73:
            ops.append([rng.choice(["sitype", "sigeti", "sigets", "sigett"]), s, p])
        elif x < .77:
            ops.append(["siprops", s])
        elif x < .85:
            if sis[s] == "" or sess.get(sis[s]):
                ops.append(["sipersist", s])
        elif x < .89:
            ops.append(["sisave", s, rng.choice(sorted(sess))])
        elif x < .94:
            h = rng.choice(sorted(sess))
            ops.append(["commit", h])
            if sess[h][1] != "ro":
                files.add(sess[h][0])
            ops.append(["disk", sess[h][0]])
        elif x < .97:
            ops.append(["sifree", s])
            del sis[s]
        else:
            h = rng.choice(sorted(sess))
            for t in [t for t in sis if sis[t] == h]:
                ops.append(["sifree", t])
                del sis[t]
            ops.append(["close", h])
            p = sess.pop(h)[0]
            ops.append(["disk", p])
    for s in sorted(sis):
        ops.append(["siprops", s])
        ops += [[c, s, p] for p in range(1, 20) for c in ("sitype", "sigeti", "sigets", "sigett")]
    return ops


def run(ck):
    d = build.lib()
    pre, beh, st = model.explore("MC_Sum", {"DEPTH": 4 if ck.quick else 7}, workers=1 if ck.quick else 8)
    ck.model(st)
    runs = []
    for b in beh:
        base = pre + b["h"]
        if b["stay"]:
            runs.append(base + b["stay"])
        for op in b["move"]:
            runs.append(base + [op] + [["disk", "p"]] + ([["siprops", "S"]] + [[c, "S", p] for c in ("sitype", "sigeti", "sigets", "sigett") for p in (1, 2, 12, 14)]
                                                         if op[0].startswith("si") and op[0] not in ("sifree",) else []))
    # every run starts afresh in a process of its own batch: paths are made distinct
    items, cur, k = [], [], 0
    for r in runs:
        k += 1
        cur += [sub(o, k) for o in r] + tail(r)
        if len(cur) > 500:
            items.append(cur)
            cur = []
    items.append(cur)
    ck.decide("MC_Sum", lambda ops: sumexec.execute(d, ops), items, module="SumTrace")
    n = 150 if ck.quick else 3000
    for k in range(0, n, 500):
        ck.decide("random", lambda i: sumexec.execute(d, script(ck.rng(i), 120)), list(range(k, min(n, k + 500))), module="SumTrace")
        if ck.violations:
            break
    ck.assumptions += ["file times are compared as 64-bit values; their text form belongs to D10 and T02"]


def sub(op, k):
    if op[0] == "open":
        return [op[0], op[1], "p%d" % k] + op[3:]
    if op[0] == "disk":
        return ["disk", "p%d" % k]
    return op


def tail(r):
    """leave nothing open between runs"""
    live_s, live_h = False, False
    for o in r:
        if o[0] == "sinew":
            live_s = True
        elif o[0] == "sifree":
            live_s = False
        elif o[0] == "open":
            live_h = True
        elif o[0] == "close":
            live_h = False
    return ([["sifree", "S"]] if live_s else []) + ([["close", "A"]] if live_h else [])
