"""Extraction of /repo sources through the Clang plugin."""
import os, subprocess, json, hashlib, sys
import core
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("CPPVC_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")


class ExtractError(Exception): pass


def plugin():
    so = os.path.join(BUILD, "extract.so")
    src = os.path.join(HERE, "extract", "extract.cpp")
    h = hashlib.sha256(open(src, "rb").read()).hexdigest()
    stamp = so + ".sha"
    if os.path.exists(so) and os.path.exists(stamp) and open(stamp).read() == h: return so
    os.makedirs(BUILD, exist_ok=True)
    tmp = so + ".%d" % os.getpid()
    cmd = ["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-O1", "-fno-rtti", "-fPIC", "-shared", "-std=c++17", "-D_GNU_SOURCE", "-D__STDC_CONSTANT_MACROS", "-D__STDC_FORMAT_MACROS", "-D__STDC_LIMIT_MACROS", "-I/usr/lib/llvm-18/include", src, "-o", tmp]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: raise RuntimeError("cannot build extractor: " + r.stderr[-3000:])
    os.replace(tmp, so); open(stamp, "w").write(h)
    return so


_cache = {}
def load(unit, defines=()):
    """unit: file name below /verif/units -> Program"""
    k = (unit, tuple(defines))
    if k in _cache: return _cache[k]
    so = plugin()
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, "%s.%d.json" % (unit.replace("/", "_"), os.getpid()))
    src = os.path.join(VERIF, "units", unit)
    P = ["-Xclang", "-plugin-arg-cppvc-extract", "-Xclang"]
    cmd = ["clang++-18" if os.path.exists("/usr/bin/clang++-18") else "clang++", "-std=c++17", "-w", "-I" + os.path.join(REPO, "include"), "-DREPO=" + REPO] + list(defines) + \
        ["-fsyntax-only", "-Xclang", "-load", "-Xclang", so, "-Xclang", "-plugin", "-Xclang", "cppvc-extract"] + \
        P + ["out"] + P + [out] + P + ["root"] + P + [REPO.rstrip("/") + "/"] + P + ["root"] + P + [os.path.join(VERIF, "units") + "/"] + \
        ["-I" + REPO, src]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode or not os.path.exists(out): raise ExtractError("extraction of %s failed:\n%s" % (unit, r.stderr[-3000:]))
    d = json.load(open(out)); os.unlink(out)
    if not d["functions"]: raise ExtractError("no functions extracted from " + unit)
    p = core.Program(d)
    _cache[k] = p
    return p
