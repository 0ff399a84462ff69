"""Tasks over the lattice objects, for one configuration (C14: word outputs, C16: SIMD outputs)."""
from lattice import *
class Cfg:
    """names and sizes of one instance of the algorithm; E outputs elements per step"""
    E = 1; simd = False
    def __init__(self, w, U):
        self.w, self.U, self.name = w, U, "u%d" % w; self.lgv = "MTToolBox::linear_generator_vector<%s>" % U; self.ae = "MTToolBox::AlgorithmEquidistribution<%s>" % U; self.vmax = w
    def prog(self): return frontend.load("rt.cpp")
    def lctor(self, one): return "%s::<ctor>(&R:MTToolBox::EquidistributionCalculatable<%s>%s)" % (self.lgv, self.U, ",i32" if one else "")
    def actor(self): return "%s::<ctor>(&R:MTToolBox::EquidistributionCalculatable<%s>,i32,i32)" % (self.ae, self.U)
    def lctor_args(self, e, st, g, pos): return [g] + ([pos] if pos is not None else [])
    def actor_args(self, e, st, g, v, m): return [g, v, m]
    def newfields(self, e, cx, one): return {}
    def ctor_post(self, e, s, this, O, n, m, p):
        rd = lambda f: e.toint(e.read(s, this.sub(f)), "i32")
        O(rd("bit_len") == n, "width"); O(rd("stateBitSize") == z3.If(m == 0, BS(p), m), "state size is mexp when given, bitSize otherwise")
    def cfgfacts(self, h, r): return z3.BoolVal(True)
    def extra(self, r, f): return {}
    def setup_this(self, e, st, this): pass
def mkexec(c):
    w = c.w; e = LatExec(c.prog(), w, c.lgv); e.P0, e.Q0, e.R0, e.s0 = z3.Const("p", GP), z3.Const("q", GQ), z3.Bool("rev"), z3.Const("s0", GS); e.cfg = c; e.E = c.E
    e.axioms.append(Schema([GP, GQ, B, GS, I], lambda p, q, r, s, v: z3.Implies(z3.And(v >= 1, v <= w), (OUTW(w)(p, q, r, s, v) & ~MASK(w)(v)) == 0), "outputs have v bits", trig=[("OUTW%d" % w, (0, 1, 2, 3, 4))]))
    e.pos_contract()
    return e
def width(e, st, name="v"):
    """a number of bits v per element, and the width n = v * elements of the lattice"""
    v = z3.Int(name); st.assume(v >= 1, v <= e.cfg.vmax); return v, v * e.E
def mkthis(e, st, L, name="ae"):
    """an AlgorithmEquidistribution object with its basis of L + 1 objects"""
    this = mkobj(e, st, e.cfg.ae); st.assume(L >= 1, L <= e.w)
    arr = e.new_obj(st, ArrV("*R:" + e.lgv, L + 1, z3.Const("basis0", AII)), "basis"); e.otype[arr.oid] = "[?]*R:" + e.lgv
    e.write(st, this.sub("basis"), arr.sub(0)); e.write(st, this.sub("size"), L + 1)
    sz = z3.Int("stateBitSize"); st.assume(sz >= 1, sz <= 1 << 22); e.write(st, this.sub("stateBitSize"), sz); e.cfg.setup_this(e, st, this)
    e.init_heap(st, e.lgv)
    return this, sz
def c0(e): return (e.P0, e.Q0, e.R0, e.s0)

def next_state(c):
    def run(rep):
        w = c.w; e = mkexec(c); k = e.lgv + "::next_state(i32)"; st = State(); e.get_next_contract()
        r = z3.Int("obj"); v, N = width(e, st); st.assume(r > 0); e.init_heap(st, e.lgv); this = LV("H:" + e.lgv, (r,)); h = e.H(st)
        p, q, rv, s0, n0, x0, z0 = h["P"][r], h["Q"][r], h["R"][r], h["S"][r], h["C"][r], h["X"][r], h["Z"][r]; n = BS(p)
        st.assume(n0 >= 0, n0 <= KMAX, z3.Or(z0, (x0 & MASK(w)(N)) == 0), n >= 1, n <= 1 << 20, e.cfg.cfgfacts(h, r))
        rep.cover("precondition", st.pc)
        vv = lambda s, c, x: V(w)(p, q, rv, s, c, x, N); O = lambda s: OUTW(w)(p, q, rv, s, N)
        V0 = vv(s0, n0, bv(0, w)); jw = z3.Int("nonzero_output")
        def step(s, c, x): return z3.Implies(x == 0, vv(s, c, x) == vv(T(p, s), c + 1, O(s)))
        st.assume(z3.Or(vv(ST(p, s0, 0), n0, bv(0, w)) == VZERO, z3.And(jw >= 0, jw < (n if c.E == 1 else 2 * n), O(ST(p, s0, jw)) != 0)))       # lemma vec_zero
        st.assume(step(s0, n0, bv(0, w)), vv(s0, n0, x0) == vv(s0, n0, x0 & MASK(w)(N)))
        def inv(cx):
            s = cx.st; h = e.H(s); zc = None
            kk = h["C"][r] - n0
            cands = [e.toint(e.read(s, lv), "i32") for nm, lv in s.env.values() if lv.oid in s.store and e.otype.get(lv.oid) == "i32" and not (is_z3(e.read(s, lv)) and e.read(s, lv).eq(v))]
            zc = cands[-1] if cands else None
            if zc is None: raise AnnotationMismatch("no counter of zero outputs")
            if "first" in cx.g: s.assume(step(h["S"][r], h["C"][r], h["X"][r]))
            cx.g["first"] = 1
            return [("count of zero outputs", z3.And(zc == kk - 1, kk >= 1, zc <= 2 * n)), ("state", h["S"][r] == ST(p, s0, kk)), ("leading bits", h["X"][r] == O(ST(p, s0, kk - 1))), ("not exhausted", z3.Not(h["Z"][r])),
                    ("vector", vv(h["S"][r], h["C"][r], h["X"][r]) == V0), ("outputs so far are zero", ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < kk - 1), O(ST(p, s0, j)) == 0), "j", trig=[("ST", (2,))])),
                    ("others", z3.And(*[h[f] == z3.Store(h0[f], r, h[f][r]) for f in "SCXZ"]))]
        h0 = h
        e.loopspecs[k] = [LoopSpec(inv=inv)]
        res, exc = e.verify(k, [v], this, st)
        for s, _ in res:
            h = e.H(s); O_ = lambda f, nm: e.oblige(s, f, nm, "post"); S, C, X, Z = h["S"][r], h["C"][r], h["X"][r], h["Z"][r]
            O_(z3.Implies(z0, z3.And(S == s0, C == n0, X == x0, Z)), "an exhausted object stays")
            live = lambda f: z3.Implies(z3.Not(z0), f)
            O_(live(C > n0), "the count increases"); O_(live(vv(S, C, X) == vv(s0, n0, x0)), "the lattice vector is unchanged"); O_(live((X & ~MASK(w)(N)) == 0), "leading coefficient has v bits")
            O_(live(Z == (X == 0)), "exhausted iff no leading coefficient"); O_(live(z3.Implies(Z, vv(S, C, X) == VZERO)), "only a zero vector is exhausted")
            O_(z3.And(*[h[f] == z3.Store(h0[f], r, h[f][r]) for f in "SCXZ"]), "no other object changes")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("next_state " + c.name, run)


def chk(e, st, L):
    for n, f in L: e.oblige(st, f, n, "post")
def uptr(e, c): return lambda st: (c["n"], c["bp"](st), c["v"])
def main(c):
    """get_equidist_main(v): from the generating set of v+1 objects to the reduced basis; result = the dimension"""
    def run(rep):
        w = c.w; e = mkexec(c); k = c.ae + "::get_equidist_main(i32)"; st = State(); vv, v = width(e, st); L = z3.Int("width") if not c.simd else v; this, sz = mkthis(e, st, L); st.assume(v <= L)
        P0, Q0, R0, s0 = c0(e); cc = c0(e); sp = SP(w); Kv = K(P0, Q0, R0, s0, v)
        e.lattice_contracts(lambda s: (v + 1, e.bp(s, this), v))
        h = e.H(st); assume_all(e, st, ready(e, h, e.bp(st, this), L, v, cc)); rep.cover("precondition", st.pc)
        def inv(cx):
            s = cx.st; h = e.H(s); bp = e.bp(s, this); x = h["X"][bp[v]]
            piv = None
            cand = []
            for nm, lv in s.env.values():
                if lv.oid in s.store and e.otype.get(lv.oid) == "i32":
                    t = e.read(s, lv)
                    if is_z3(t) and z3.is_app_of(t, z3.Z3_OP_UNINTERPRETED) and t.decl().name() == "POS%d" % w: cand.append((lv.oid, lv))
            if "piv" not in cx.g:
                if len(cand) != 1: raise AnnotationMismatch("no pivot variable")
                cx.g["piv"] = cand[0][1]
            piv = e.toint(e.read(s, cx.g["piv"]), "i32")
            return ready(e, h, bp, L, v, cc) + [("pivot", piv == POS(w)(x))]
        def leave(cx):
            s = cx.st; h = e.H(s); bp = e.bp(s, this)
            dropped = z3.Implies(e.vec(h, bp[v], v) == VZERO, sp(v + 1, bp, h["S"], h["C"], h["X"], v) == sp(v, bp, h["S"], h["C"], h["X"], v))
            s.assume(dropped)                                   # lemma spn_drop
            chk(e, s, reduced(e, h, bp, L, v, cc))              # premises of lemma dimension
            s.assume(Schema([I], lambda i: z3.Implies(z3.And(i >= 0, i < v), h["C"][bp[i]] >= Kv), "lemma dimension", trig=istrig))
            s.assume(h["C"][bp[0]] >= Kv)
        def inv2(cx):
            s = cx.st; h = e.H(s); bp = e.bp(s, this); ent = cx.g.setdefault("ent", (cx.entry if hasattr(cx, "entry") and cx.entry is not None else s))
            vs = intvars(e, s)
            if "ix" not in cx.g:
                ix = [lv for lv, t in vs if z3.is_int_value(t) and t.as_long() in (0, 1)]
                mn = [lv for lv, t in vs if t.eq(z3.simplify(h["C"][bp[0]])) or z3.is_app_of(t, z3.Z3_OP_SELECT)]
                if not ix or not mn: raise AnnotationMismatch("variables of the minimum loop")
                cx.g["ix"], cx.g["mn"] = ix[-1], mn[-1]
            i, m = e.toint(e.read(s, cx.g["ix"]), "i32"), e.toint(e.read(s, cx.g["mn"]), "i32")
            return [("index", z3.And(i >= 0, z3.Or(i <= v, i <= 1))), ("minimum so far", FAI(lambda j: z3.Implies(z3.And(j >= 0, j < i, j < v), m <= h["C"][bp[j]]), "j")), ("bound", m >= Kv)]
        def leave2(cx): cx.st.ghost["mn"] = e.toint(e.read(cx.st, cx.g["mn"]), "i32")
        def inv3(cx):
            if "ix" not in cx.g:
                ix = [lv for lv, t in intvars(e, cx.st) if z3.is_int_value(t) and t.as_long() == 0]
                if not ix: raise AnnotationMismatch("index of the message loop")
                cx.g["ix"] = ix[-1]
            return [("index", e.toint(e.read(cx.st, cx.g["ix"]), "i32") >= 0)]
        e.loopspecs[k] = [LoopSpec(inv=inv, on_exit=leave), LoopSpec(inv=inv2, on_exit=leave2), LoopSpec(inv=inv3)]
        res, exc = e.verify(k, [vv], this, st)
        for s, r in res:
            h = e.H(s); bp = e.bp(s, this); m = e.toint(r, "i32")
            chk(e, s, reduced(e, h, bp, L, v, cc))
            j = z3.Int("mj"); e.oblige(s, ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < v), m <= h["C"][bp[j]]), "j", trig=istrig), "result is at most every count", "post")
            s.assume(m <= Kv)                                   # lemma dimension
            e.oblige(s, m == Kv, "result is the dimension of equidistribution", "post"); e.oblige(s, m * v <= sz, "result is within the bound", "post")
        for s, t in exc:
            h = e.H(s); bp = e.bp(s, this); m = s.ghost.get("mn")
            if m is None: e.oblige(s, z3.BoolVal(False), "no exception while the basis is reduced", "post"); continue
            e.oblige(s, ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < v), m <= h["C"][bp[j]]), "j", trig=istrig), "minimum count at the exception", "post"); s.assume(m <= Kv)
            e.oblige(s, Kv * v > sz, "exception only over the theoretical bound", "post")
        if not res: raise Unsupported("no result")
        rep.take(e, k)
    return Task("get_equidist_main " + c.name, run)
def hasapp(t, f):
    return z3.is_app(t) and (t.decl().name() == f or any(hasapp(c, f) for c in t.children()))
def intvars(e, s):
    out = []
    for nm, lv in s.env.values():
        if lv.oid in s.store and e.otype.get(lv.oid) == "i32":
            try: t = e.toint(e.read(s, lv), "i32")
            except Unsupported: continue
            if is_z3(t): out.append((lv, z3.simplify(t)))
    return out

def adjusting(e, h, bp, L, v, cc, i):
    """the invariant of adjust: objects before i are cut to v bits"""
    P0, Q0, R0, s0 = cc; w = e.w; X, Z = h["X"], h["Z"]; x = X[bp[v]]; z = Z[bp[v]]
    last = z3.And((x & ~MASK(w)(v)) == 0, (x == 0) == z, z3.Implies(z, e.vec(h, bp[v], v) == VZERO))
    return state_common(e, h, bp, L, P0, Q0, R0) + [
        ("triangular form", FAI(lambda j: z3.Implies(z3.And(j >= 0, j < v), POS(w)(X[bp[j]]) == j))),
        ("last object", z3.If(i <= v, z3.And(POS(w)(x) == v, z3.Not(z)), last)),
        ("used objects", FAI(lambda j: z3.Implies(z3.And(j > v, j <= L), Z[bp[j]]))),
        ("the basis generates the lattice", SP(w)(v + 1, bp, h["S"], h["C"], X, v) == LAT(P0, Q0, R0, s0, v))]
def adjust(c):
    """adjust(v): from the reduced basis for v+1 bits to the generating set for v bits"""
    def run(rep):
        w = c.w; e = mkexec(c); k = c.ae + "::adjust(i32)"; st = State(); L = z3.Int("width"); this, sz = mkthis(e, st, L); sp = SP(w); cc = c0(e)
        v = z3.Int("v"); st.assume(v >= 1, v + 1 <= L)
        e.lattice_contracts()
        h = e.H(st); bp = e.bp(st, this); assume_all(e, st, reduced(e, h, bp, L, v + 1, cc)); rep.cover("precondition", st.pc)
        st.assume(z3.Implies(sp(v + 1, bp, h["S"], h["C"], h["X"], v + 1) == LAT(*cc, v + 1), sp(v + 1, bp, h["S"], h["C"], h["X"], v) == LAT(*cc, v)))   # lemma trunc
        st.assume(POS(w)(h["X"][bp[v]]) == v, z3.Not(h["Z"][bp[v]]))
        def inv(cx):
            s = cx.st; h = e.H(s)
            if "ix" not in cx.g:
                ix = [lv for lv, t in intvars(e, s) if z3.is_int_value(t) and t.as_long() == 0]
                if not ix: raise AnnotationMismatch("index of adjust")
                cx.g["ix"] = ix[-1]
            i = e.toint(e.read(s, cx.g["ix"]), "i32")
            return [("index", z3.And(i >= 0, i <= L + 1))] + adjusting(e, h, e.bp(s, this), L, v, cc, i)
        e.loopspecs[k] = [LoopSpec(inv=inv)]
        res, exc = e.verify(k, [v], this, st)
        for s, r in res: chk(e, s, ready(e, e.H(s), e.bp(s, this), L, v, cc))
        if exc or not res: raise Unsupported("exceptions of adjust")
        rep.take(e, k)
    return Task("adjust " + c.name, run)
def ctors(c):
    """the constructors of one lattice object"""
    def run(rep):
        w = c.w
        for pos in range(-1, w):
            one = pos >= 0
            e = mkexec(c); st = State(); e.init_heap(st, e.lgv); r = z3.Int("obj"); st.assume(r > 0); this = LV("H:" + e.lgv, (r,)); g = e.gen(st); h0 = e.H(st)
            k = c.lctor(one); p, q, rv, s0 = e.g4(st, g); at = " for bit %d" % pos if one else ""
            res, exc = e.verify(k, c.lctor_args(e, st, g, z3.IntVal(pos) if one else None), this, st)
            for s, _ in res:
                h = e.H(s); x = h["X"][r]
                e.oblige(s, z3.And(h["P"][r] == p, h["Q"][r] == q, h["R"][r] == rv, h["C"][r] == 0, h["S"][r] == (ZERO(p, s0) if one else s0)), "fields of a new lattice object" + at, "post"); e.oblige(s, c.cfgfacts(h, r), "configuration of a new lattice object" + at, "post")
                e.oblige(s, z3.And(x == (1 << (w - 1 - pos) if one else 0), z3.Not(h["Z"][r])), "leading coefficient of a new lattice object" + at, "post")
                e.oblige(s, z3.And(*[h[f] == z3.Store(h0[f], r, h[f][r]) for f in h]), "no other object changes" + at, "post")
                e.oblige(s, z3.And(*[a == b for a, b in zip(e.g4(s, g), (p, q, rv, s0))]), "the generator is not changed" + at, "post")
            if exc or not res: raise Unsupported("constructor")
            rep.take(e, k)
    return Task("linear_generator_vector constructors " + c.name, run)
def add_task(c):
    def run(rep):
        w = c.w; e = mkexec(c); st = State(); e.init_heap(st, e.lgv); r, q = z3.Int("obj"), z3.Int("src"); st.assume(r > 0, q > 0); this = LV("H:" + e.lgv, (r,)); h0 = e.H(st); k = "%s::add(&R:%s)" % (e.lgv, e.lgv)
        res, exc = e.verify(k, [LV("H:" + e.lgv, (q,))], this, st)
        for s, _ in res:
            h = e.H(s)
            e.oblige(s, h["S"] == z3.Store(h0["S"], r, ADD(h0["P"][r], h0["S"][r], h0["S"][q])), "states are added", "post"); e.oblige(s, h["X"] == z3.Store(h0["X"], r, h0["X"][r] ^ h0["X"][q]), "leading coefficients are added", "post")
            e.oblige(s, z3.And(*[h[f] == h0[f] for f in h if f not in "SX"]), "nothing else changes", "post")
        if exc or not res: raise Unsupported("add")
        rep.take(e, k)
    return Task("linear_generator_vector add " + c.name, run)
def ctor(c):
    def run(rep):
        w = c.w; e = mkexec(c); st = State(); k = c.actor(); e.init_heap(st, e.lgv)
        this = mkobj(e, st, c.ae, True); g = e.gen(st); p, q, rv, s0 = e.g4(st, g); st.assume(p == e.P0, q == e.Q0, rv == e.R0, s0 == e.s0); cc = c0(e); h0 = e.H(st)
        vv, v = width(e, st, "bits"); m = z3.Int("mexp"); st.assume(BS(p) >= 1, BS(p) <= 1 << 20, m >= 0); rep.cover("precondition", st.pc)
        e.lattice_contracts()
        def mk(one):
            def f(cx, con):
                r = e.on_heap(cx.this); gp, gq, gr, gs = e.g4(cx.st, cx.args[0])
                if one:
                    i = e.toint(cx.args[1], "i32"); e.oblige(cx.st, z3.And(i >= 0, i < w), "precondition: bit position", "pre"); x = UNIT(w)(i)
                else: x = bv(0, w)
                e.write(cx.st, cx.this, Rec(e.lgv, {"rand": Rec(GENC, {"p": gp, "q": gq, "rev": gr, "s": ZERO(gp, gs) if one else gs}), "count": z3.IntVal(0), "zero": z3.BoolVal(False), "next": x, **c.newfields(e, cx, one)}))
            return f
        for one in (0, 1):
            kk = c.lctor(one); e.contracts[kk] = Contract(kk, apply=mk(one))
        def fresh(e, h, bp, i, a0):
            ff = lambda f: FAI(lambda j: z3.Implies(z3.And(j >= 0, j < i), f(j)), "j")
            return [("distinct", ForallGoal([I, I], lambda i1, j: z3.Implies(z3.And(i1 >= 0, i1 < j, j < i), bp[i1] != bp[j]), "ij", trig=istrig2)), ("allocated", ff(lambda j: z3.And(bp[j] > 0, bp[j] < a0))),
                    ("generators", ff(lambda j: z3.And(h["P"][bp[j]] == e.P0, h["Q"][bp[j]] == e.Q0, h["R"][bp[j]] == e.R0))), ("states", ff(lambda j: z3.And(h["S"][bp[j]] == ZERO(p, s0), h["C"][bp[j]] == 0, z3.Not(h["Z"][bp[j]])))), ("leading bits", ff(lambda j: h["X"][bp[j]] == UNIT(w)(j))), ("configurations", ff(lambda j: e.cfg.cfgfacts(h, bp[j])))]
        def inv(cx):
            s = cx.st; h = e.H(s)
            if "ix" not in cx.g:
                ix = [lv for lv, t in intvars(e, s) if z3.is_int_value(t) and t.as_long() == 0]
                if not ix: raise AnnotationMismatch("index of the constructor")
                cx.g["ix"] = ix[-1]
            i = e.toint(e.read(s, cx.g["ix"]), "i32"); al = s.ghost.get("alloc:" + e.lgv)
            if al is None: al = z3.Int("alloc0." + e.lgv); s.ghost["alloc:" + e.lgv] = al; s.assume(al > 0)
            return [("index", z3.And(i >= 0, i <= v, al > 0))] + fresh(e, h, e.bp(s, this), i, al)
        e.loopspecs[k] = [LoopSpec(inv=inv)]
        a0 = z3.Int("alloc0." + e.lgv); st.ghost["alloc:" + e.lgv] = a0; st.assume(a0 > 0)
        res, exc = e.verify(k, c.actor_args(e, st, g, vv, m), this, st)
        for s, _ in res:
            h = e.H(s); bp = e.bp(s, this); al = s.ghost["alloc:" + e.lgv]
            chk(e, s, fresh(e, h, bp, v, al))
            e.oblige(s, e.vec(h, bp[v], v) == V(w)(p, q, rv, s0, z3.IntVal(0), bv(0, w), v), "the last object is the vector of the given state", "post")
            s.assume(SP(w)(v + 1, bp, h["S"], h["C"], h["X"], v) == LAT(p, q, rv, s0, v))                       # definition of the lattice (premises just obliged)
            chk(e, s, ready(e, h, bp, v, v, cc))
            O = lambda f, n: e.oblige(s, f, n, "post")
            rd = lambda f: e.toint(e.read(s, this.sub(f)), "i32")
            O(rd("size") == v + 1, "number of objects"); c.ctor_post(e, s, this, O, v, m, p)
            O(z3.And(*[a == b for a, b in zip(e.g4(s, g), (p, q, rv, s0))]), "the generator is not changed")
        if exc or not res: raise Unsupported("constructor")
        rep.take(e, k)
    return Task("AlgorithmEquidistribution constructor " + c.name, run)
def sums(c, which):
    """get_all_equidist / get_equidist over the contracts of get_equidist_main and adjust"""
    def run(rep):
        w = c.w; e = mkexec(c); k = c.ae + "::" + which + "(*i32)"; st = State(); L = z3.Int("width"); this, sz = mkthis(e, st, L); p, q, rv, s0 = c0(e)
        e.write(st, this.sub("bit_len"), L); KV = lambda v: K(p, q, rv, s0, v); ds = DSUM(); al = which == "get_all_equidist"; N = L if al else L - 1; SUM = lambda a: ds(p, q, rv, s0, a, N, sz)
        e.axioms.append(Schema([I], lambda a: z3.And(z3.Implies(a > N, SUM(a) == 0), z3.Implies(z3.And(a >= 1, a <= N), SUM(a) == (sz / a) - KV(a) + SUM(a + 1))), "sum of the defects", trig=lambda apps, sel, bysort: [(x,) for t in apps.get("K", {}).values() for x in (t.arg(4), t.arg(4) + 1)]))
        st.ghost["ready"], st.ghost["done"] = L, z3.IntVal(0)
        st.assume(KV(L + 1) >= 0)
        def main_(cx, con):
            v = e.toint(cx.args[0], "i32"); e.oblige(cx.st, z3.And(v >= 1, v <= L, cx.st.ghost["ready"] == v), "precondition of get_equidist_main: generating set of this width", "pre")
            cx.st.ghost["ready"], cx.st.ghost["done"] = z3.IntVal(0), v; cx.st.assume(KV(v) >= 0, KV(v) * v <= sz, KV(v) <= (sz / v)); return KV(v)
        def adjust_(cx, con):
            v = e.toint(cx.args[0], "i32"); e.oblige(cx.st, z3.And(v >= 1, cx.st.ghost["done"] == v + 1), "precondition of adjust: reduced basis of one more bit", "pre")
            cx.st.ghost["done"], cx.st.ghost["ready"] = z3.IntVal(0), v
        for kk, f in (("::get_equidist_main(i32)", main_), ("::adjust(i32)", adjust_)): e.contracts[c.ae + kk] = Contract(c.ae + kk, apply=f)
        if which == "get_all_equidist":
            n = z3.Int("veqlen"); st.assume(n >= L); arr = e.new_obj(st, ArrV("i32", n, z3.Const("veq", z3.ArraySort(I, I))), "veq"); e.otype[arr.oid] = "[?]i32"
        else:
            arr = e.new_obj(st, z3.Int("sum0"), "sum"); e.otype[arr.oid] = "i32"
        rep.cover("precondition", st.pc)
        veq = lambda s: e.flush(e.read(s, arr))
        def filled(s, b): return FAI(lambda j: z3.Implies(z3.And(j >= b, j < L), veq(s)[j] == KV(j + 1)), "j")
        def inv(cx):
            s = cx.st; b = e.toint(e.read(s, this.sub("bit_len")), "i32")
            if "sum" not in cx.g:
                cand = [lv for lv, t in intvars(e, s) if (hasapp(t, "K") if al else z3.is_int_value(t) and t.as_long() == 0) and not t.eq(KV(L))]
                if len(cand) != 1: raise AnnotationMismatch("variable of the sum")
                cx.g["sum"] = cand[0]
            x = e.toint(e.read(s, cx.g["sum"]), "i32")
            return [("width", z3.And(b >= 0, b < L, s.ghost["done"] == b + 1)), ("sum so far", x == SUM(b + 1)), ("range", z3.And(x >= 0, x <= sz * (L - b)))] + ([("k(v) so far", filled(s, b))] if which == "get_all_equidist" else [])
        e.loopspecs[k] = [LoopSpec(inv=inv, variant=lambda cx: e.toint(e.read(cx.st, this.sub("bit_len")), "i32"))]
        res, exc = e.verify(k, [arr.sub(0) if which == "get_all_equidist" else arr], this, st)
        for s, r in res:
            r = e.toint(r, "i32"); O = lambda f, n: e.oblige(s, f, n, "post")
            tot = r if which == "get_all_equidist" else e.toint(e.read(s, arr), "i32")
            O(tot == SUM(z3.IntVal(1)), "total is the sum of floor(size/v) - k(v)"); O(z3.And(tot >= 0, tot <= sz * L), "total is within bounds")
            if which == "get_all_equidist": O(filled(s, 0), "k(v) of every width")
            else: O(r == KV(L), "result is k of the full width")
        if exc or not res: raise Unsupported("no result")
        rep.take(e, k)
    return Task("%s %s" % (which, c.name), run)
def lemmas(w):
    """the facts of lattice.posfacts, for the definition of POS as the index from the top of the lowest one bit and of masks"""
    def run(rep):
        e = LibExec(frontend.load("rt.cpp")); st = State(); p = lowpos; m = lambda v: ((1 << v) - 1) << (w - v)
        x, y = z3.BitVec("x", w), z3.BitVec("y", w)
        top = bv(1 << (w - 1), w)
        for i in range(w):
            e.oblige(st, z3.And((p(x) == i) == (x << i == top), (p(x) < i) == (x << i == 0)), "POS by shifts, %d" % i, "lemma")
            e.oblige(st, z3.Implies(z3.And(x << i == top, y << i == top), z3.And((x ^ y) << i == 0, (y ^ x) << i == 0)), "sum of two words of the same POS, %d" % i, "lemma")
            e.oblige(st, bv(1 << (w - 1 - i), w) << i == top, "POS of a unit, %d" % i, "lemma")
        e.oblige(st, z3.And(p(x) >= -1, p(x) < w, (p(x) == -1) == (x == 0)), "range of POS", "lemma")
        for v in range(1, w + 1):
            e.oblige(st, z3.And(z3.Implies(x & ~bv(m(v), w) == 0, (x << v if v < w else bv(0, w)) == 0), z3.Implies((x << v if v < w else bv(0, w)) == 0, x & bv(m(v), w) == x)), "POS and the mask of %d bits" % v, "lemma")
        rep.take(e)
    return Task("POS lemmas %d" % w, run)
