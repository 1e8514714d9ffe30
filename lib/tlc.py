"""Running TLC: bounded model checking and trace validation."""
import json, os, re, shutil, subprocess, tempfile, time
from concurrent.futures import ThreadPoolExecutor
import build

SPEC = os.path.join(build.VERIF, "spec")
CP = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class TlcError(Exception):
    pass


def digest(out):
    """the telling part of a failed TLC run"""
    ls = out.split("\n")
    err = [i for i, l in enumerate(ls) if l.startswith("Error:")]
    pos = [l for l in ls if re.match(r"^\d+\. Line ", l)]
    return "\n".join(["\n".join(ls[i:i + 5])[:800] for i in err[:4]] + pos[-4:] + ls[-6:])


def run(module, cfg=None, env=None, workers=8, heap="6g", timeout=800, extra=()):
    """returns (stdout, stats)"""
    meta = tempfile.mkdtemp(prefix="tlc.", dir=build.scratch())
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseSerialGC" if workers == 1 else "-XX:+UseParallelGC", "-Xmx" + heap, "-Xss64m", "-Djava.io.tmpdir=" + meta,
           "-Dtlc2.tool.fp.FPSet.impl=tlc2.tool.fp.OffHeapDiskFPSet" if False else "-Dx=y",
           "-cp", CP, "tlc2.TLC", "-workers", str(workers), "-metadir", meta, "-noTE",
           "-config", os.path.join(SPEC, cfg or module + ".cfg")] + list(extra) + [module + ".tla"]
    t0 = time.time()
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        raise TlcError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = p.stdout.decode("utf8", "replace")
    st = {"rc": p.returncode, "wall": time.time() - t0, "states": 0, "transitions": 0}
    m = re.search(r"(\d[\d,]*) states generated, (\d[\d,]*) distinct states found", out)
    if m:
        st["transitions"] = int(m.group(1).replace(",", ""))
        st["states"] = int(m.group(2).replace(",", ""))
    return out, st


def check_model(module, cfg=None, **kw):
    """A bounded model must pass; anything else is an error of the machinery."""
    out, st = run(module, cfg, **kw)
    if st["rc"] != 0 or "No error has been found" not in out and "The number of states generated" not in out:
        raise TlcError("model %s failed:\n%s" % (cfg or module, digest(out)))
    return out, st


def behaviours(out, tag="BEH"):
    """PrintT(<<tag, json-string>>) lines of a TLC run -> parsed values"""
    res = []
    pat = re.compile(r'^<<"%s", "(.*)">>$' % tag)
    for l in out.split("\n"):
        m = pat.match(l)
        if m:
            res.append(json.loads(json.loads('"' + m.group(1) + '"')))
    return res


def validate(module, traces, cfg=None, env=None, timeout=800, procs=8):
    """Runs a trace module over `traces` (list of JSON-able values), split over several
    TLC processes (workers of one process contend for its table of strings).
    Returns (rejections, stats): rejections = list of (trace index, step index, expected)."""
    size = [sum(len(str(s)) for s in t) for t in traces]
    procs = max(1, min(procs, len(traces), 1 + sum(size) // 60000))
    # longest first, each to the least loaded process
    bins = [[0, []] for _ in range(procs)]
    for i in sorted(range(len(traces)), key=lambda i: -size[i]):
        b = min(bins, key=lambda b: b[0])
        b[0] += size[i] + 200
        b[1].append(i)
    t0 = time.time()
    with ThreadPoolExecutor(procs) as ex:
        rs = list(ex.map(lambda b: _validate(module, [traces[i] for i in b[1]], cfg, env, 2 if procs == 1 else 1, timeout,
                                             "3g" if procs > 1 else "8g"), bins))
    rej = sorted((b[1][i], j, x) for b, (r, _) in zip(bins, rs) for i, j, x in r)
    return rej, {"accepted": sum(s["accepted"] for _, s in rs), "wall": time.time() - t0, "states": sum(s["states"] for _, s in rs)}


def _validate(module, traces, cfg=None, env=None, workers=8, timeout=800, heap="8g"):
    """Runs a trace module over `traces` (list of JSON-able values).
    Returns (rejections, stats): rejections = list of (trace index, step index, expected)."""
    d = tempfile.mkdtemp(prefix="trace.", dir=build.scratch())
    f = os.path.join(d, "t.ndjson")
    with open(f, "w") as o:
        for t in traces:
            o.write(json.dumps(t, ensure_ascii=False) + "\n")
    e = {"TRACE": f}
    e.update(env or {})
    out, st = run(module, cfg, env=e, workers=workers, timeout=timeout, heap=heap)
    acc = set(int(x) for x in re.findall(r'^<<"ACCEPT", (\d+)>>', out, re.M))
    rej = []
    seen = set()
    # PrintT may wrap long values over several lines
    for m in re.finditer(r'^<<\s*"REJECT",\s*(\d+),\s*(\d+),\s*(.*?)\s*>>\s*$(?=\n(?:<<|[A-Z@]|Progress|Finished|$))',
                         out, re.M | re.S):
        k = (int(m.group(1)), int(m.group(2)))
        if k not in seen:
            seen.add(k)
            rej.append((k[0] - 1, k[1] - 1, m.group(3)))
    missing = set(range(1, len(traces) + 1)) - acc - set(r[0] + 1 for r in rej)
    if st["rc"] != 0 or missing:
        raise TlcError("trace validation with %s broke down (rc %d, %d traces undecided, first %s):\n%s" %
                       (module, st["rc"], len(missing), sorted(missing)[:3], digest(out)))
    st["accepted"] = len(acc)
    shutil.rmtree(d, ignore_errors=True)
    return rej, st
