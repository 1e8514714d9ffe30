"""What every check has in common: running, confirming, reporting."""
import json, os, sys, time, traceback
from concurrent.futures import ThreadPoolExecutor
import build, tlc

KNOWN = os.path.join(build.VERIF, "known-findings.txt")


def known_keys(prop):
    """known-findings.txt: `known: property=<id> key=<key> <what fails>`"""
    res = {}
    for l in open(KNOWN):
        if l.startswith("known:"):
            f = l.split(None, 3)
            if f[1] == "property=" + prop:
                res[f[2][4:]] = f[3].strip()
    return res


class Check:
    def __init__(self, prop, tier, seed, level="model_checking"):
        self.prop, self.tier, self.seed, self.level = prop, tier, seed, level
        self.quick = tier == "quick"
        self.t0 = time.time()
        self.cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "steps_validated": 0,
                    "samples": [], "parts": []}
        self.violations = []
        self.knowns = []
        self.assumptions = []

    def rng(self, *salt):
        import random
        return random.Random("%s/%d/%s" % (self.prop, self.seed, "/".join(map(str, salt))))

    def part(self, name, **kw):
        self.cov["parts"].append(dict(kw, name=name))

    def model(self, st):
        self.cov["states"] += st["states"]
        self.cov["transitions"] += st["transitions"]

    def sample(self, x):
        if len(self.cov["samples"]) < 3:
            self.cov["samples"].append(x)

    def known(self, key, what):
        """a failure that may be listed; returns whether it was"""
        k = known_keys(self.prop)
        if key in k:
            if key not in [x[0] for x in self.knowns]:
                self.knowns.append((key, k[key]))
            return True
        return False

    def violation(self, what, data):
        self.violations.append((what, data))

    # ------------------------------------------------------------ traces
    def decide(self, name, execute, items, module="DbTrace", cfg=None, env=None, par=8, describe=None, timeout=700):
        """execute(item) -> (trace, crash or None); validates all of them."""
        t = time.time()
        with ThreadPoolExecutor(par) as ex:
            rs = list(ex.map(execute, items))
        bad = [(i, c) for i, (_, c) in enumerate(rs) if c]
        for i, c in bad[:3]:
            again = execute(items[i])
            self.violation("%s: the process died or hung at %s" % (name, str(c[0])[:300]),
                           {"item": items[i], "operation": c[0], "stderr": c[1][-4000:], "repeated": bool(again[1])})
        t1 = time.time()
        traces = [tr for tr, _ in rs]
        live = [i for i, tr in enumerate(traces) if tr]
        rej, st = self.validate(module, [traces[i] for i in live], cfg, env, timeout)
        confirmed = 0
        for a, b, exp in rej[:4]:
            i = live[a]
            tr2, c2 = execute(items[i])
            r2, _ = self.validate(module, [tr2], cfg, env, timeout) if tr2 else ([(0, 0, "")], None)
            if r2 or c2:
                confirmed += 1
                self.violation("%s: step %d, %s, answered %s; the specification says %s" %
                               (name, b + 1, str(traces[i][b][0])[:300], str(traces[i][b][1])[:300], exp[:600]),
                               {"item": items[i], "trace": traces[i][:b + 1], "expected": exp})
        steps = sum(len(t) for t in traces)
        self.cov["traces_validated_against_impl"] += st["accepted"]
        self.cov["steps_validated"] += steps
        self.part(name, traces=len(traces), steps=steps, accepted=st["accepted"], rejected=len(rej),
                  confirmed=confirmed, died=len(bad), exec_s=round(t1 - t, 1), tlc_s=round(st["wall"], 1))
        if traces and traces[-1]:
            self.sample({"part": name, "trace": traces[-1][:4]})
        return traces, rej

    def validate(self, module, traces, cfg=None, env=None, timeout=700):
        if not traces:
            return [], {"accepted": 0, "wall": 0, "states": 0}
        try:
            return tlc.validate(module, traces, cfg=cfg, env=env, timeout=timeout)
        except tlc.TlcError as e:
            if len(traces) == 1:
                # an answer the specification cannot even compare
                return [(0, len(traces[0]) - 1, "an answer of another kind: " + str(e)[-600:])], {"accepted": 0, "wall": 0}
            h = len(traces) // 2
            r1, s1 = self.validate(module, traces[:h], cfg, env, timeout)
            if len(r1) >= 2:
                return r1, s1
            r2, s2 = self.validate(module, traces[h:], cfg, env, timeout)
            return r1 + [(a + h, b, c) for a, b, c in r2], {"accepted": s1["accepted"] + s2["accepted"],
                                                            "wall": s1["wall"] + s2["wall"]}

    # ------------------------------------------------------------ report
    def finish(self):
        rdir = os.path.join(build.VERIF, "replays")
        for k, w in self.knowns:
            print("KNOWN-FINDING: property=%s %s: %s" % (self.prop, k, w))
        rc = 0
        if self.violations:
            os.makedirs(rdir, exist_ok=True)
            f = os.path.join(rdir, "%s.json" % self.prop)
            with open(f, "w") as o:
                json.dump([{"what": w, "data": d} for w, d in self.violations], o, indent=1, default=str)
            for w, _ in self.violations[:5]:
                print("  " + w)
            print("VIOLATION property=%s replay=%s" % (self.prop, f))
            rc = 1
        ev = {"property": self.prop, "tier": self.tier, "seed": self.seed, "level": self.level, "coverage": self.cov,
              "wall_s": round(time.time() - self.t0, 1), "violations": len(self.violations),
              "assumptions": self.assumptions}
        os.makedirs(os.path.join(build.VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(build.VERIF, "evidence", self.prop + ".json"), "w") as o:
            json.dump(ev, o, indent=1, default=str)
        print("%s %s: %d model states, %d traces, %d steps validated, %.1f s" % (
            self.prop, self.tier, self.cov["states"], self.cov["traces_validated_against_impl"],
            self.cov["steps_validated"], time.time() - self.t0))
        return rc
