"""D15: the text of statements against spec/SqlText.tla."""
from concurrent.futures import ThreadPoolExecutor
import build, dbexec, model, textgen

PARTS = 12


def run(ck):
    d = build.lib()
    wide = {} if ck.quick else {"WIDE": 1}

    def part(p):
        return model.explore("MC_Text", dict(wide, PART=p), workers=1, timeout=850)

    with ThreadPoolExecutor(7) as ex:
        res = list(ex.map(part, range(PARTS + 1)))
    items = []
    for pre, beh, st in res:
        ck.model(st)
        b = [x for x in beh if not x["h"]][0]
        stay, move = [o[:4] for o in b["stay"]], [o[:4] for o in b["move"]]
        for i in range(0, len(stay), 60):
            items.append((i, pre + stay[i:i + 60] + [["snap", "A"]]))
        for i in range(0, len(move), 12):
            ops = pre + [["commit", "A"], ["close", "A"]]
            for o in move[i:i + 12]:
                ops += [["open", "A", "p", "rw", ""], o, ["snap", "A"], ["close", "A"]]
            items.append((i, ops))
    ck.cov["texts"] = sum(len(x["stay"]) + len(x["move"]) for _, beh, _ in res for x in beh if not x["h"])
    ck.decide("MC_Text", lambda it: dbexec.Runner(d, it[0]).execute(it[1]), items)
    n = 120 if ck.quick else 3000
    pre = res[0][0]
    for k in range(0, n, 600):
        ck.decide("random", lambda i: dbexec.Runner(d, i).execute(textgen.script(ck.rng(i), pre, 60)), list(range(k, min(n, k + 600))))
        if ck.violations:
            break
    ck.assumptions += ["texts outside what DESIGN.md calls documented use are left out (MC_Text!LeftOut)"]
