"""Builds /repo's current working tree out of tree, into a scratch directory.

lib()   -> the libmsi shared library with AddressSanitizer and pattern-filled
           automatic variables, plus the msidrv driver linked against it
tools() -> everything (msibuild, msiinfo, msiextract, wixl, ...), plain build
"""
import os, shutil, subprocess, sys, tempfile, atexit

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


class BuildError(Exception):
    pass


_scratch = None


def scratch():
    """One scratch directory per process, removed at exit."""
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix="vmsi.", dir="/tmp")
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def env():
    e = dict(os.environ)
    e["PATH"] = "/opt/msitools-env/venv/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
    e.update(CC="gcc", CXX="g++", VALAC="valac", LC_ALL="C.UTF-8", TZ="UTC")
    for k in ("DESTDIR", "MAKEFLAGS", "CFLAGS", "LDFLAGS", "CPPFLAGS"):
        e.pop(k, None)
    return e


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env(), **kw)
    if p.returncode:
        raise BuildError("%s\n%s" % (cmd, p.stdout.decode("utf8", "replace")[-4000:]))
    return p.stdout.decode("utf8", "replace")


def _setup(d, extra):
    run(["meson", "setup", d, REPO, "--buildtype=debugoptimized", "--wrap-mode=nodownload",
         "-Dwerror=false", "--native-file", "/opt/msitools-env/native.ini"] + extra)


def _driver(d, out, flags):
    pc = run(["pkg-config", "--cflags", "--libs", "gio-2.0", "gobject-2.0", "libgsf-1"]).split()
    so = [f for f in os.listdir(d + "/libmsi") if f.startswith("libmsi-1.0.so") and not os.path.isdir(d + "/libmsi/" + f)]
    so = sorted(so)[0]
    run(["gcc", "-g", "-O1", "-w"] + flags + ["-I" + REPO + "/include", "-I" + d + "/include",
         "-o", out, VERIF + "/drv/msidrv.c", d + "/libmsi/" + so, "-Wl,-rpath," + d + "/libmsi"] + pc)
    return out


_cache = {}


def lib(asan=True):
    key = ("lib", asan)
    if key not in _cache:
        d = scratch() + ("/b-asan" if asan else "/b-lib")
        ex = ["-Dc_args=-ftrivial-auto-var-init=pattern"]
        if asan:
            ex += ["-Db_sanitize=address", "-Db_lundef=false"]
        _setup(d, ex)
        run(["ninja", "-C", d, "libmsi/libmsi-1.0.so.0.0.0", "include/libmsi-enums.h"])
        _cache[key] = _driver(d, d + "/msidrv", ["-fsanitize=address"] if asan else [])
    return _cache[key]


class Tools:
    def __init__(self, d):
        self.d = d
        self.msibuild = d + "/tools/msibuild"
        self.msiinfo = d + "/tools/msiinfo"
        self.msiextract = d + "/tools/msiextract"
        self.msidump = d + "/tools/msidump"
        self.msidiff = d + "/tools/msidiff"
        self.wixl = d + "/tools/wixl/wixl"
        self.heat = d + "/tools/wixl/wixl-heat"
        self.drv = _driver(d, d + "/msidrv", [])


def tools():
    if "tools" not in _cache:
        d = scratch() + "/b-tools"
        _setup(d, [])
        run(["ninja", "-C", d])
        _cache["tools"] = Tools(d)
    return _cache["tools"]
