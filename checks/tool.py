"""T01, T02, T03: the command line tools against spec/MsiTool.tla."""
import build, model, toolexec, toolgen

LOOK = {"T01": [["disk", "p"], ["disk", "q"]],
        "T02": [["tables", "p"], ["streams", "p"], ["suminfo", "p"], ["dump", "p", "ts"]],
        "T03": [["build", "q", [["s", ["Name"]]]], ["diff", "p", "q"]]}
STAY = {"T01": {"build", "disk"}, "T02": {"tables", "streams", "suminfo", "stream", "export", "dump", "copysql"}, "T03": {"diff"}}


def run(ck):
    t = build.tools()
    pre, beh, st = model.explore("MC_Tool", {"DEPTH": 3 if not ck.quick else 2}, workers=1 if ck.quick else 8)
    ck.model(st)
    x = toolexec.Runner
    toolexec.bindir(t)
    mine = STAY[ck.prop]
    items = []
    for b in beh:
        base = pre + b["h"]
        stay = [o for o in b["stay"] if o[0] in mine]
        for i in range(0, len(stay), 40):
            items.append(base + stay[i:i + 40])
        items += [base + [o] + LOOK[ck.prop] for o in b["move"] if o[0] in ("build", "copysql")]
    ck.decide("MC_Tool", lambda ops: x(t).execute(ops), items, module="ToolTrace")
    n = {"T01": 150, "T02": 100, "T03": 80}[ck.prop] * (1 if ck.quick else 20)
    for k in range(0, n, 300):
        ck.decide("random", lambda sd: x(t).execute(weigh(ck.prop, toolgen.run(sd, 30))), [ck.seed * 1000003 + i for i in range(k, min(n, k + 300))], module="ToolTrace")
        if ck.violations:
            break


def weigh(prop, ops):
    """each property looks at what it is about; the others' are dropped most of the time"""
    keep = STAY[prop] | {"build", "disk"}
    if prop == "T03":
        out = []
        for o in ops:
            if o[0] in ("tables", "streams", "suminfo", "stream", "export", "dump"):
                o = ["diff", o[1], {"p": "q", "q": "p"}.get(o[1], "p")]
                if out and out[-1] == o:
                    continue
            out.append(o)
        return out
    return [o for o in ops if o[0] in keep]
