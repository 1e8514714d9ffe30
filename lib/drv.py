"""Runs scripts of libmsi calls through msidrv and collects one result per call."""
import json, os, subprocess


def esc(s):
    if isinstance(s, bytes):
        b = s
    else:
        b = str(s).encode("utf8", "surrogateescape")
    o = []
    for c in b:
        if c < 0x20 or c >= 0x7f or c == 0x25:
            o.append("%%%02X" % c)
        else:
            o.append(chr(c))
    return "".join(o)


_empty = None


def empty_file():
    """a stream of no bytes can only be given as a file"""
    global _empty
    if _empty is None:
        import build
        _empty = os.path.join(build.scratch(), "empty")
        open(_empty, "wb").close()
    return _empty


def par(v):
    """a model value -> driver parameter"""
    if v[0] == "i":
        return "i:%d" % v[1]
    if v[0] == "s":
        return "s:" + v[1]
    if v[0] == "n":
        return "n"
    if v[0] == "f":
        return "f:" + v[1]
    if v[0] == "b":
        return "m:" + v[1] if v[1] else "f:" + empty_file()
    raise ValueError(v)


def _undo(o):
    """driver strings are latin-1 escaped bytes; turn them into str (utf-8)"""
    if isinstance(o, str):
        try:
            return o.encode("latin-1").decode("utf8", "surrogateescape")
        except UnicodeEncodeError:
            return o
    if isinstance(o, list):
        return [_undo(x) for x in o]
    if isinstance(o, dict):
        return {k: _undo(v) for k, v in o.items()}
    return o


def run(drv, cmds, cwd, timeout=120, env=None, prefix=()):
    """cmds: list of lists.  Returns (results, crashed, stderr).  `results` has one
    entry per command that returned; when the process died, it is shorter."""
    text = "\n".join("\t".join(esc(a) for a in c) for c in cmds) + "\n"
    e = dict(os.environ)
    e.update(LC_ALL="C.UTF-8", TZ="UTC",
             ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=1:detect_odr_violation=0")
    if env:
        e.update(env)
    try:
        p = subprocess.run(list(prefix) + [drv], input=text.encode("ascii"), stdout=subprocess.PIPE,
                           stderr=subprocess.PIPE, cwd=cwd, env=e, timeout=timeout)
        rc, so, se = p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as t:
        rc, so, se = -1, t.stdout or b"", (t.stderr or b"") + b"\nTIMEOUT"
    res = []
    for l in so.decode("ascii", "replace").split("\n"):
        if not l.strip():
            continue
        try:
            res.append(_undo(json.loads(l)))
        except ValueError:
            break
    return res, (rc != 0 or len(res) < len(cmds)), se.decode("utf8", "replace")
