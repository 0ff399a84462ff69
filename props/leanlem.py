"""Lemmas proved once in Lean 4 with Mathlib (lean/*.lean), checked on every run."""
import os, subprocess, shutil, re
from lib import *
import core
LEANDIR = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lean")
def lean_task(file, names):
    def run(rep):
        src = open(os.path.join(LEANDIR, file)).read()
        if "sorry" in src or re.search(r"^\s*axiom\b", src, re.M): raise Unsupported("lean file has holes")
        text = src + "\n" + "\n".join("#print axioms VF.%s" % n for n in names) + "\n"
        import tempfile, time
        t0 = time.time()
        with tempfile.TemporaryDirectory(prefix="cppvc_lean_") as d:
            f = os.path.join(d, file); open(f, "w").write(text)
            try: r = subprocess.run(["lean", f], capture_output=True, text=True, timeout=300, cwd=LEANDIR)
            except (FileNotFoundError, subprocess.TimeoutExpired) as x: raise Unsupported("lean not run: %s" % type(x).__name__)
        out = r.stdout + r.stderr
        for n in names:
            m = re.search(r"'VF\.%s' (depends on axioms: \[([^\]]*)\]|does not depend on any axioms)" % re.escape(n), out)
            ok = r.returncode == 0 and "error:" not in out and m is not None and (m.group(2) is None or set(x.strip() for x in m.group(2).split(",")) <= {"propext", "Classical.choice", "Quot.sound"})
            o = core.Obl("lemma " + n, file, 0, "lemma", [], [], z3.BoolVal(True)); o.status = "proved" if ok else "unknown"; o.backend = "Lean 4 (Mathlib)"; o.time = (time.time() - t0) / len(names)
            rep.obls.append(o)
        if r.returncode: rep.bounded.append("lean: " + out[-300:])
    t = Task("lean lemmas " + file, run, weight=50); t.mem = 200      # address space (Mathlib is mapped), not memory
    return t
def joined(*pats):
    """trigger: join several patterns ("fname", (var,...)) on shared variable
    names; "_" is ignored; the tuple of variables in order of first mention"""
    order = []
    for _, vs in pats:
        for v in vs:
            if v != "_" and v not in order: order.append(v)
    def trig(apps, sel, bysort):
        envs = [{}]
        for f, vs in pats:
            nx = []
            for t in list(apps.get(f, {}).values()):
                ch = t.children()
                for env in envs:
                    e2 = dict(env); ok = True
                    for v, c in zip(vs, ch):
                        if v == "_": continue
                        if v in e2:
                            if not e2[v].eq(c): ok = False; break
                        else: e2[v] = c
                    if ok: nx.append(e2)
            envs = nx
        return [tuple(e[v] for v in order) for e in envs]
    return trig
