"""C06: truncated output, copies and clones."""
from gens import *
UNITS = [g.unit for g in GENS]
LEVEL = "proof"
NOTE = "generate(w) and generate() are run from the same arbitrary state: same successor state, output = the top w bits of the (reversed when the mode is on) full draw, for every w in 1..word size; clone() (copy constructor inlined) gives an object with all parameters, the mode and the state of the original in storage of its own, the original unchanged."
ASSUMPTIONS = ["class invariant of the parameters (C23)", "allocation succeeds"]
TRUSTED = ["x % n for 0 <= x < 3n written as conditional subtraction (built-in simplification rule of the engine)"]

def topmask(w, W):
    """W-bit word with the w (32-bit vector) most significant bits set"""
    x = z3.ZeroExt(W - 32, w) if W > 32 else w
    return ~z3.If(z3.UGE(x, W), bv(0, W), z3.LShR(bv(-1, W), x))

def truncated(g):
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "g"); w = z3.BitVec("w", 32); W = g.w
        st.assume(z3.UGE(w, 1), z3.ULE(w, W))
        rep.cover("state", st.pc)
        k1, k2 = g.key(e, "generate", ""), g.key(e, "generate", "i32")
        r = [(s, e.read(s, v) if isinstance(v, LV) else v) for s, v in runs(e, st.copy(), k1, [], a)]
        r2 = [(s, e.read(s, v) if isinstance(v, LV) else v) for s, v in runs(e, st.copy(), k2, [w], a)]
        rv = None
        if g.reverse:
            f = g.field(e, st, a, g.reverse); rv = f if is_z3(f) else z3.BoolVal(bool(f))
            if z3.is_bv(rv): rv = rv != 0
            elif z3.is_int(rv): rv = rv != 0
        base = len(st.pc)
        for s1, v1 in r:
            full = v1 if is_z3(v1) else bv(v1, W)
            if rv is not None: full = z3.If(rv, reverse(full), full)
            for s2, v2 in r2:
                s = s2.copy(); s.assume(*s1.pc[base:])
                v2 = v2 if is_z3(v2) else bv(v2, W)
                e.oblige(s, v2 == full & topmask(w, W), "generate(w) is the top w bits of the full draw", "post")
                for nme, f in g.same_params(e, s1, a, s2, a): e.oblige(s, f, "parameter %s" % nme, "post")
                for (p, _), x, y in zip(g.scal, g.scalars(e, s1, a), g.scalars(e, s2, a)): e.oblige(s, x == y, "state word %s advances alike" % p, "post")
                if g.ring:
                    e.oblige(s, g.cursor(e, s1, a) == g.cursor(e, s2, a), "cursor advances alike", "post")
                    e.oblige(s, g.array(e, s1, a) == g.array(e, s2, a), "ring advances alike", "post")
        rep.take(e, k1, k2)
    return run

def cloned(g):
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "src")
        rep.cover("source object", st.pc)
        k = g.key(e, "clone")
        if g.ring:
            A0 = g.array(e, st, a); n = g.n(e, st, a); f = g.ring[0]
            def inv(c):
                me = c.this
                v = e.read(c.st, me.sub(f))
                B = e.flush(e.read(c.st, LV(v.oid, v.path[:-1])) if isinstance(v, LV) else v)
                i = e.z(c.var("i"), "i32")
                return [("range", z3.And(i >= 0, i <= n)), ("source unchanged", g.array(e, c.st, a) == A0),
                        ("words before i copied", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i), z3.Select(B, q) == z3.Select(A0, q)), trig=consts_trig))]
            for k2, fn in e.prog.functions.items():
                if k2 == "%s::<ctor>(&R:%s)" % (g.cls, g.cls): e.loopspecs[k2] = [LoopSpec(inv=inv, force=True, variant=lambda c: n - e.z(c.var("i"), "i32"))]
        old = st.copy()
        for s, v in runs(e, st, k, [], a):
            if not isinstance(v, LV) or v.oid == a.oid: raise Unsupported("clone does not return a new object")
            if e.read(s, v).cls != g.cls: e.oblige(s, z3.BoolVal(False), "clone has the class of the original", "post"); continue
            for o, l in ((v, "copy"), (a, "original")):
                skip = g.irrelevant
                for nme, f in g.same_params(e, old, a, s, o, skip): e.oblige(s, f, "%s: parameter %s" % (l, nme), "post")
                for (p, _), x, y in zip(g.scal, g.scalars(e, old, a), g.scalars(e, s, o)): e.oblige(s, x == y, "%s: state word %s" % (l, p), "post")
                if g.ring:
                    e.oblige(s, g.cursor(e, s, o) == g.cursor(e, old, a), "%s: cursor" % l, "post")
                    A, B = g.array(e, old, a), g.array(e, s, o)
                    e.oblige(s, ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < n), z3.Select(A, q) == z3.Select(B, q))), "%s: ring" % l, "post")
            if g.ring:
                p, q = e.read(s, v.sub(g.ring[0])), e.read(s, a.sub(g.ring[0]))
                if isinstance(p, LV): e.oblige(s, z3.BoolVal(p.oid != q.oid), "the copy has a state array of its own", "post")
        rep.take(e, k)
    return run

def tasks(tier):
    T = []
    for g in GENS:
        T.append(Task(g.name + " truncated", truncated(g), weight=4))
        T.append(Task(g.name + " clone", cloned(g), weight=3))
    return T
