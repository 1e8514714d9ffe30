"""D16: storages inside databases against spec/MsiStg.tla."""
import build, model, stgexec

ZERO = "0" * 32
CLASSES = [ZERO, ZERO, "82100c0000000000c000000000000046", "84100c0000000000c000000000000046", "f" * 32, "00" * 15 + "01"]
PARTS = ["a", "b", "two words", "x.y", "ünï", "データ", "_", "A long name of thirty-one chars", "!x", "0", "\u0005SummaryInformation", "\u4840\u3f3f\u4577"]
NAMES = ["one", "two", "two words", "a.b", "x", "ün", "日本", "abcdefghijabcdefghijabcdefghij1", "MSPTransform.1", "#in", "_a", "-", "\u4840\u3f3f", "it's", "%41", "z\\z"]
BAD = ["", "abcdefghijabcdefghijabcdefghij12", "q" * 60]


def compound(rng):
    """a tree; names that differ only in case are left out, compound files do not tell them apart"""
    out = [["", rng.choice(CLASSES)]]

    def fill(pre, depth):
        seen = set()
        for _ in range(rng.choice([0, 1, 2, 3, 5, 12]) if depth < 4 else 0):
            n = rng.choice(PARTS) if rng.random() < .7 else "n%x" % rng.getrandbits(rng.choice([4, 16, 80]))
            if n.lower() in seen:
                continue
            seen.add(n.lower())
            if rng.random() < .35:
                out.append([pre + n + "/", rng.choice(CLASSES)])
                fill(pre + n + "/", depth + 1)
            else:
                m = rng.choice([0, 0, 1, 5, 63, 64, 65, 511, 512, 4095, 4096, 4097, 9000]) if rng.random() < .4 else rng.randint(0, 30)
                if rng.random() < .01:
                    m = rng.choice([32768, 65535, 65536, 65537, 70000, 200000])
                out.append([pre + n, bytes(rng.getrandbits(8) for _ in range(m)).hex()])
    fill("", 0)
    return out


def script(rng, n):
    ops, files = [], []
    for f in "fghk"[:rng.randint(1, 4)]:
        ops.append(["cfile", f, compound(rng)])
        files.append(f)
    ops.append(["raw", "r"])
    names = rng.sample(NAMES, rng.choice([2, 3, 5, 9]))
    sess, known, have = {}, set(), {}
    for _ in range(n):
        free = [h for h in "AB" if h not in sess]
        if not sess or free and rng.random() < .06:
            h = free[0]
            p = rng.choice("pqr")
            busy = [x for x in sess.values() if x[0] == p]
            m = rng.choice(["rw", "rw", "ro"]) if p in known else "create"
            if busy and (m != "ro" or any(x[1] != "ro" for x in busy)):
                continue
            sess[h] = (p, m)
            have.setdefault(h, set())
            ops.append(["open", h, p, m])
            continue
        h = rng.choice(sorted(sess))
        ro = sess[h][1] == "ro"
        nm = rng.choice(names) if rng.random() < .95 else rng.choice(BAD)
        f = rng.choice(files) if rng.random() < .9 else rng.choice(["r", "null"])
        x = rng.random()
        if x < .3:
            ops.append(["ins", h, nm, f])
        elif x < .4:
            ops.append(["upd", h, nm, f])
        elif x < .44:
            ops.append(["ren", h, nm, rng.choice(names)])
        elif x < .54:
            if not ro:
                ops.append(["del", h, nm])
        elif x < .56:
            if not ro:
                ops.append(["clear", h])
        elif x < .6:
            if not ro:
                ops.append(["other", h, "s%d" % rng.randint(0, 3)])
        elif x < .7:
            ops.append(["names", h])
        elif x < .76:
            ops.append(["find", h, nm])
        elif x < .79:
            ops.append(["streams", h])
        elif x < .9:
            ops.append(["commit", h])
            if not ro:
                known.add(sess[h][0])
            ops.append(["disk", sess[h][0]])
        elif x < .95:
            ops.append(["disk", rng.choice("pqr")])
        else:
            ops.append(["close", h])
            del sess[h]
        if rng.random() < .03:
            f = rng.choice(files)
            ops.append(["cfile", f, compound(rng)])
    for h in sorted(sess):
        ops += [["names", h], ["streams", h], ["commit", h]]
    return ops + [["disk", p] for p in "pqr"]


def run(ck):
    d = build.lib()
    pre, beh, st = model.explore("MC_Stg", {"DEPTH": 4 if ck.quick else 7}, workers=1 if ck.quick else 8)
    ck.model(st)
    items = []
    for b in beh:
        base = pre + b["h"]
        if b["stay"]:
            items.append(base + b["stay"])
        opened = "A" if [o for o in base if o[0] in ("open", "close")][-1][0] == "open" else ""
        for op in b["move"]:
            live = op[0] == "open" or opened and op[0] != "close"
            items.append(base + [op] + ([["names", "A"], ["streams", "A"], ["commit", "A"]] if live else []) + [["disk", "p"]])
    ck.decide("MC_Stg", lambda ops: stgexec.execute(d, ops), items, module="StgTrace")
    n = 400 if ck.quick else 8000
    for k in range(0, n, 400):
        ck.decide("random", lambda i: stgexec.execute(d, script(ck.rng(i), 50)), list(range(k, min(n, k + 400))), module="StgTrace")
        if ck.violations:
            break
    ck.assumptions += ["what a read-only session's deletes show in that session is left open", "names that differ only in case and names with a slash are left out",
                       "the Data column is written, never read: libmsi gives no stream for a storage"]
