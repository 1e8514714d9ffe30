"""Runs a bounded model (spec/MC_*.tla) and turns what it explored into tests."""
import json, os, tempfile
import build, tlc


def explore(module, consts=None, workers=8, timeout=600):
    """-> (prelude, states [{h, stay, move}], stats)"""
    out, st = tlc.check_model(module, env={k: str(v) for k, v in (consts or {}).items()}, workers=workers,
                              timeout=timeout)
    pre = tlc.behaviours(out, "PRE")
    beh = tlc.behaviours(out, "BEH")
    return pre[0], beh, st


def traces(prelude, states, observe, batch=12, independent=True):
    """operation lists that take every explored transition once.
    independent: handles to close between runs put in one trace, or False for a trace each.
    observe: operations appended after each transition."""
    runs = []
    for b in states:
        base = prelude + b["h"]
        if b["stay"]:
            ops = list(base)
            for op in b["stay"]:
                ops.append(op)
            runs.append(ops + observe)
        for op in b["move"]:
            runs.append(base + [op] + observe)
    if not independent:
        return runs
    res = []
    for i in range(0, len(runs), batch):
        ops = []
        for r in runs[i:i + batch]:
            ops += r + [["close", h] for h in (independent if isinstance(independent, str) else "A")]
        res.append(ops)
    return res
