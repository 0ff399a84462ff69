"""Discharge of proof obligations: schema instantiation + z3, then cvc5."""
import time, subprocess, tempfile, os, itertools
import z3
from core import *


def walk(fs, seen, sel, bysort, apps):
    todo = list(fs)
    while todo:
        t = todo.pop()
        if not is_z3(t): continue
        i = t.get_id()
        if i in seen: continue
        seen.add(i)
        if z3.is_quantifier(t): continue
        if z3.is_app(t):
            k = t.decl().kind()
            ch = t.children()
            if k in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE): sel.setdefault(str(ch[1].sort()), {})[ch[1].get_id()] = ch[1]
            if k == z3.Z3_OP_UNINTERPRETED:
                s = str(t.sort())
                bysort.setdefault(s, {})[i] = t
                if ch: apps.setdefault(t.decl().name(), {})[i] = t
            elif k in (z3.Z3_OP_ITE,): bysort.setdefault(str(t.sort()), {})[i] = t
            elif k == z3.Z3_OP_SELECT: bysort.setdefault(str(t.sort()), {})[i] = t
            todo.extend(ch)


def instantiate(hyps, schemas, goal, rounds=3, cap=4000):
    fs = list(hyps) + [z3.Not(goal)]
    seen, sel, bysort, apps = set(), {}, {}, {}
    walk(fs, seen, sel, bysort, apps)
    done = set(); extra = []
    for rnd in range(rounds):
        new = []
        for sc in schemas:
            lim = getattr(sc, "rounds", rounds)
            if rnd >= lim: continue
            cands = []
            if sc.trig and callable(sc.trig):
                combos = sc.trig(apps, sel, bysort)
            elif sc.trig:
                # list of (function name, tuple of arg positions for the vars)
                combos = []
                for fname, pos in sc.trig:
                    for t in list(apps.get(fname, {}).values()):
                        combos.append(tuple(t if p is None else t.children()[p] for p in pos))
            else:
                for s in sc.sorts:
                    key = str(s)
                    if isinstance(s, z3.BitVecSortRef) or s == z3.IntSort(): c = list(sel.get(key, {}).values())
                    else: c = list(bysort.get(key, {}).values())
                    cands.append(c)
                combos = itertools.product(*cands)
            for cb in combos:
                k = (id(sc),) + tuple(x.get_id() for x in cb)
                if k in done: continue
                done.add(k)
                f = sc.fn(*cb)
                if f is None or f is True: continue
                if isinstance(f, (list, tuple)): 
                    for x in f:
                        if x is not True and x is not None: new.append(x)
                else: new.append(f)
                if len(extra) + len(new) > cap: break
        if not new: break
        extra += new
        walk(new, seen, sel, bysort, apps)
    return extra


def cvc5_check(smt, timeout):
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(smt); fn = f.name
    try:
        r = subprocess.run(["cvc5", "--tlimit=%d" % int(timeout * 1000), "-q", fn], capture_output=True, text=True, timeout=timeout + 10)
        o = r.stdout.strip().split("\n")[0] if r.stdout else ""
        return o if o in ("sat", "unsat") else "unknown"
    except subprocess.TimeoutExpired: return "unknown"
    finally:
        os.unlink(fn)


def solve(o, timeout=20):
    if o.status: return o
    t0 = time.time()
    ext = instantiate(o.hyps, o.schemas, o.goal)
    fs = list(o.hyps) + ext + [z3.Not(o.goal)]
    s = z3.Solver(); s.set("timeout", int(timeout * 1000 / 4)); s.add(*fs)
    r = s.check(); be = "z3 " + z3.get_version_string()
    if r == z3.unknown:
        v = cvc5_check("(set-logic ALL)\n" + s.to_smt2(), timeout)
        if v == "unsat": r, be = z3.unsat, "cvc5 1.1.2"
        elif v == "sat":
            r, be = z3.sat, "cvc5 1.1.2"
        else:
            s2 = z3.Then("simplify", "propagate-values", "solve-eqs", "smt").solver() if False else z3.SolverFor("QF_AUFBV") if False else z3.Solver()
            s2.set("timeout", int(timeout * 1000)); s2.set("random_seed", 7); s2.add(*fs)
            r = s2.check()
            if r == z3.sat: s = s2
    o.time = time.time() - t0
    o.backend = be
    if r == z3.unsat: o.status = "proved"
    elif r == z3.sat:
        o.status = "failed"
        try:
            m = s.model() if be.startswith("z3") else None
            o.model = m
        except Exception: o.model = None
    else:
        o.status = "unknown"
    return o


def model_text(o, limit=4000):
    if o.model is None: return "(no model available)"
    m = o.model; out = []
    for d in sorted(m.decls(), key=lambda d: d.name()):
        out.append("%s = %s" % (d.name(), m[d]))
    return "\n".join(out)[:limit]
