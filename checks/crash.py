"""D06: commits to which something happens, against spec/MsiSys.tla."""
import os, re, shutil, tempfile
import build, dbexec, dbgen, model

CALLS = "openat,open,creat,write,pwrite64,writev,read,pread64,rename,renameat,renameat2,link,linkat,unlink,unlinkat,fsync,fdatasync,ftruncate,copy_file_range,sendfile,close"
MARK = "access,faccessat,faccessat2"
WRITES = ("write", "pwrite64", "writev", "ftruncate", "copy_file_range", "sendfile", "openat", "open", "creat", "fsync", "fdatasync")


class Case:
    """one workload: ops before the commit, and what the session does afterwards if it fails"""

    def __init__(self, drv, head, ops, seed):
        self.head = head        # what earlier processes did
        self.d, self.ops, self.seed = drv, ops + [["disk", "p1.msi"], ["disk", "p2.msi"]], seed

    def runner(self, prefix=()):
        r = dbexec.Runner(self.d, self.seed)
        r.prefix = prefix
        return r

    def calls(self):
        """the file operations of the commit: [(name, which one of that name)], and the size of the file it stores"""
        w = tempfile.mkdtemp(prefix="cr.", dir=build.scratch())
        try:
            log = w + ".log"
            self.runner()._segment(self.head, w)
            r = self.runner(["strace", "-f", "-y", "-qq", "-s", "0", "-o", log, "-e", "trace=" + CALLS + "," + MARK])
            r._segment(self.ops + [["fcommit", "A"]], w)
            res, n, on = [], {}, False
            for l in open(log, errors="replace"):
                m = re.match(r"\d+ +(\w+)\((.*)", l)
                if not m:
                    continue
                k, rest = m.groups()
                if "/commit-begin" in rest:
                    on = True
                if "/commit-end" in rest:
                    break
                if k in MARK.split(","):
                    continue
                n[k] = n.get(k, 0) + 1
                if on and w in rest:
                    res.append((k, n[k]))
            size = max([os.path.getsize(os.path.join(w, f)) for f in os.listdir(w)] or [0])
            os.unlink(log)
            return res, size
        finally:
            shutil.rmtree(w, ignore_errors=True)

    def run(self, fault, tail):
        """fault: ("kill", call, n) | ("err", call, n, error) | ("size", bytes)
        -> (trace, crash or None); trace is None if the fault did not happen in the commit"""
        w = tempfile.mkdtemp(prefix="cr.", dir=build.scratch())
        log = w + ".log"
        try:
            if fault[0] == "size":
                pre = ["bash", "-c", "trap '' XFSZ; ulimit -f %d; exec \"$0\"" % fault[1]]
                tail = [["fcommit" if o[0] == "commit" else o[0]] + o[1:] for o in tail]
            else:
                what = "signal=KILL" if fault[0] == "kill" else "error=" + fault[3]
                pre = ["strace", "-f", "-qq", "-s", "0", "-o", log, "-e", "trace=%s,%s" % (fault[1], MARK),
                       "-e", "inject=%s:%s:when=%d" % (fault[1], what, fault[2])]
            first, crash = self.runner()._segment(self.head, w)
            if crash:
                return first, crash
            r = self.runner(pre)
            n0 = len(self.ops)
            done, crash = r._segment(self.ops + [["fcommit", "A", "?"]] + tail, w)
            if len(done) < n0:
                if fault[0] == "size":
                    return None, None       # the limit struck before the commit
                return done, crash or (["start"], "")
            tr = first + [[["exit"], ["ok"]]] + done[:n0]
            if fault[0] != "size":
                t = open(log, errors="replace").read()
                i = t.find("/commit-begin")
                if i < 0 or (fault[0] == "err" and not ("INJECTED" in t[i:t.find("/commit-end")])):
                    return None, None
            rest = done[n0:]
            if not rest:
                if fault[0] != "kill":
                    return tr, crash
                old = tr[-2:]
                end = self.after(w)
                new = end[0][:2] != old
                return tr + [[["kcommit", "A", "new" if new else "old"], ["ok"]]] + end[0], end[1]
            if fault[0] == "kill":
                return None, None
            if rest[0][1][0] == "ok":
                # (what a session can still read when reading fails after the commit is left out)
                tr += [[["fcommit", "A", "ok"], ["ok"]], [["exit"], ["ok"]]]
            else:
                if len(rest) < 1 + len(tail):
                    return tr, crash
                tr.append([["fcommit", "A", "fail"], rest[0][1]])
                for o, a in rest[1:]:
                    tr.append([["fcommit", "A", a[0]] if o[0] == "fcommit" else o, a])
                tr.append([["exit"], ["ok"]])
            end = self.after(w)
            return tr + end[0], end[1]
        finally:
            shutil.rmtree(w, ignore_errors=True)
            if os.path.exists(log):
                os.unlink(log)

    def after(self, w):
        """what other processes find"""
        ops = [["disk", "p1.msi"], ["disk", "p2.msi"]]
        tr, crash = self.runner()._segment(ops, w)
        if not crash:
            for p, (o, a) in zip(("p1.msi", "p2.msi"), list(tr)):
                if a[0] == "snap":
                    t2, crash = self.runner()._segment(
                        [["open", "A", p, "rw", ""], ["snap", "A"], ["commit", "A"], ["close", "A"], ["disk", p]], w)
                    tr += t2
                    if crash:
                        break
        return tr, crash


INS = ["sql", "A", ["insert", "T", ["K"], [["i", 3]], False], []]
TAILS = [[["snap", "A"], ["commit", "A"]], [INS, ["snap", "A"], ["commit", "A"], ["snap", "A"]], [["close", "A"]], []]


def faults(calls, size):
    fs = [("kill", k, n) for k, n in calls]
    for k, n in calls:
        fs.append(("err", k, n, "EIO"))
        if k in WRITES:
            fs.append(("err", k, n, "ENOSPC"))
        if k.startswith("open"):
            fs.append(("err", k, n, "EMFILE"))
    step = max(1, size // 1024 // 6)
    return fs + [("size", i) for i in range(0, size // 1024 + 1, step)]


PROFILE = {"bad": .02, "delall": .05, "bigstr": .02, "tables": 3, "longname": .05}


def plan(ck, name, cases, tails, share=1.0):
    """every fault of every case (or a share of them) -> decided by the specification"""
    from concurrent.futures import ThreadPoolExecutor
    with ThreadPoolExecutor(8) as ex:
        cs = list(ex.map(lambda c: c.calls(), cases))
    items = []
    for i, (case, (calls, size)) in enumerate(zip(cases, cs)):
        r = ck.rng(name, i)
        for f in faults(calls, size):
            if r.random() < share:
                items.append((case, f, r.choice(tails[i])))
    if not any(c for c, _ in cs):
        raise build.BuildError("strace saw no file operation in a commit")
    hit = {}

    def one(it):
        tr, crash = it[0].run(it[1], it[2])
        if tr is None:
            hit["none"] = hit.get("none", 0) + 1
            return [], None
        k = it[1][0] + "-" + ([o for o, _ in tr if o[0] in ("fcommit", "kcommit")] or [["", "", "died"]])[0][2]
        hit[k] = hit.get(k, 0) + 1
        return tr, crash
    ck.decide(name, one, items)
    ck.part(name + " faults", calls=sum(len(c) for c, _ in cs), outcomes=hit)


def workload(d, seed):
    """what one process stored, and a session up to its commit and beyond"""
    g = dbgen.Gen(seed, PROFILE)
    r = g.r
    if r.random() < .3:
        g.uni = True
        g.strs += dbgen.UNI
    g.open("A", "p1.msi", "create")
    for _ in range(r.randint(1, 3)):
        g.create("A", wide=r.random() < .1)

    def edits(n):
        for _ in range(n):
            k = r.random()
            if k < .7:
                g.dml("A", .03)
            elif k < .85:
                g.streams("A")
            else:
                g.schema("A")
    edits(r.choice([3, 10, 30]))
    g.commit("A")
    g.close("A")
    n = len(g.ops)
    if r.random() < .2:
        g.open("A", r.choice(["p1.msi", "p2.msi"]), "create")
        g.create("A")
    else:
        g.open("A", "p1.msi", "rw", "p2.msi" if r.random() < .3 else "")
    edits(r.choice([1, 4, 12]))
    m = len(g.ops)
    edits(2)
    return Case(d, g.ops[:n], g.ops[n:m], seed), [["snap", "A"]] + g.ops[m:] + [["commit", "A"], ["snap", "A"]]


def run(ck):
    d = build.lib(asan=False)
    pre, beh, st = model.explore("MC_Crash", {"DEPTH": 3 if ck.quick else 4}, workers=1 if ck.quick else 4)
    ck.model(st)
    hs = sorted((b["h"] for b in beh if b["h"] and not any(o[0] in ("fcommit", "kcommit", "commit", "close") for o in b["h"])), key=str)
    plan(ck, "MC_Crash", [Case(d, pre, h, ck.seed) for h in hs], [TAILS] * len(hs))
    n = 25 if ck.quick else 400
    ws = [workload(d, ck.seed * 1000003 + i) for i in range(n)]
    for i in range(0, n, 100):
        plan(ck, "random", [c for c, _ in ws[i:i + 100]], [[t, [["close", "A"]]] for _, t in ws[i:i + 100]], .5 if ck.quick else 1)
        if ck.violations:
            break
    ck.assumptions += ["a crash is the death of the process at a system call; what the kernel had taken over is taken to reach the disk",
                       "faults that strike while the stored file is opened again after a successful commit only bind what is in the file"]
