"""W03: the sequence tables wixl writes against spec/WixSeq.tla."""
import build, model, seqexec, seqgen, toolexec

# (PART, DEPTH, how many of the documents a quick run takes)
PARTS = [(1, 3, 2500), (2, 3, 1500), (3, 3, 841), (4, 3, 841), (5, 3, 841), (6, 3, 2500), (7, 4, 299)]


def run(ck):
    t = build.tools()
    toolexec.bindir(t)
    for part, depth, take in PARTS:
        pre, beh, st = model.explore("MC_Seq", {"PART": part, "DEPTH": depth + (part == 7 and not ck.quick)}, workers=4)
        ck.model(st)
        items = [pre + b["h"] + [o for o in b["stay"] if o[0] == "build"] for b in beh]
        del beh
        if ck.quick and len(items) > take:
            items = ck.rng("part", part).sample(items, take)
        for k in range(0, len(items), 8000):
            ck.decide("MC_Seq, part %d" % part, lambda it: seqexec.Runner(t).execute(it[1], it[0]), [(ck.seed * 7919 + k + i, x) for i, x in enumerate(items[k:k + 8000])], module="SeqTrace")
    n = 3000 if ck.quick else 60000
    for k in range(0, n, 5000):
        ck.decide("random", lambda sd: seqexec.Runner(t).execute(seqgen.run(sd), sd), [ck.seed * 1000003 + i for i in range(k, min(n, k + 5000))], module="SeqTrace")
        if ck.violations:
            break
    ck.assumptions += ["an action is scheduled at most once in a table", "a document whose constraints can be met but leave few free numbers may be refused"]
