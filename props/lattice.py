"""Contracts of the lattice objects of the equidistribution algorithm (C14, C15, C16)."""
from equi import *
from leanlem import lean_task
VEC = z3.DeclareSort("LVEC"); LATS = z3.DeclareSort("LATS"); VZERO = z3.Const("vec0", VEC)
AII = z3.ArraySort(I, I); AIS = z3.ArraySort(I, GS)
def AIX(w): return z3.ArraySort(I, BVS(w))
def V(w): return F("VEC%d" % w, GP, GQ, B, GS, I, BVS(w), I, VEC)                  # lattice vector of (state, count, leading bits) in v bits
def SP(w): return F("SPAN%d" % w, I, AII, AIS, AII, AIX(w), I, LATS)                # span of the first n objects
LAT = F("LATTICE", GP, GQ, B, GS, I, LATS)
def POS(w): return F("POS%d" % w, BVS(w), I)
def MASK(w): return F("MASK%d" % w, I, BVS(w))
def I2B(w): return F("I2B%d" % w, I, BVS(w))
KMAX = 1 << 30                                                                       # assumed bound of the counts
def lowpos(x):
    """position of the lowest one bit counted from the top, -1 for 0"""
    w = x.size(); r = z3.IntVal(-1)
    for b in reversed(range(w)): r = z3.If(z3.Extract(b, b, x) == 1, z3.IntVal(w - 1 - b), r)
    return r
def poslem(w):
    """(name, formula over POS, number of words, uses v) of the facts about calc_1pos and masks"""
    m = lambda v: MASK(w)(v)
    return [("range", 1, False, lambda p, x, v: z3.And(p(x) >= -1, p(x) < w, (p(x) == -1) == (x == 0))),
            ("xor", 2, False, lambda p, x, y, v: z3.Implies(z3.And(p(x) == p(y), x != 0), z3.And(p(x ^ y) < p(x), p(y ^ x) < p(x)))),
            ("mask", 1, True, lambda p, x, v: z3.And(z3.Implies(z3.And((x & ~m(v)) == 0, x != 0), p(x) < v), z3.Implies(z3.And(x != 0, p(x) < v), (x & m(v)) == x)))]
def posfacts(e, w):
    p = POS(w); lem = {n: f for n, _, _, f in poslem(w)}
    xs = lambda apps: [t.arg(0) for t in apps.get("POS%d" % w, {}).values()]
    vs = lambda apps: [t.arg(0) for t in apps.get("MASK%d" % w, {}).values()]
    e.axioms.append(Schema([BVS(w)], lambda x: lem["range"](p, x, None), "POS range", trig=[("POS%d" % w, (0,))]))
    def xortrig(apps, sel, bysort):
        out = []
        for t in list(apps.get("POS%d" % w, {}).values()):
            a = t.arg(0)
            if z3.is_app_of(a, z3.Z3_OP_BXOR) and a.num_args() == 2: out.append((a.arg(0), a.arg(1)))
        return out
    e.axioms.append(Schema([BVS(w)] * 2, lambda x, y: lem["xor"](p, x, y, None), "POS of a sum", trig=xortrig))
    e.axioms.append(Schema([BVS(w), I], lambda x, v: z3.Implies(z3.And(v >= 1, v <= w), lem["mask"](p, x, v)), "POS and masks", trig=lambda apps, sel, bysort: [(x, v) for x in xs(apps) for v in vs(apps)]))
    e.axioms.append(Schema([I], lambda i: z3.Implies(z3.And(i >= 0, i < w), z3.And(p(UNIT(w)(i)) == i)), "POS of a unit", trig=[("UNIT%d" % w, (0,))]))
    e.axioms.append(Schema([I], lambda v: [z3.Implies(v == k, MASK(w)(v) == (((1 << k) - 1) << (w - k))) for k in range(1, w + 1)], "MASK", trig=[("MASK%d" % w, (0,))]))
    for ww in (8, 16, 32, 64, 128):
        e.axioms.append(Schema([I], lambda v, ww=ww: [z3.Implies(v == k, I2B(ww)(v) == k) for k in range(0, min(w, ww) + 1)], "I2B", trig=[("I2B%d" % ww, (0,))]))

class LatExec(EquiExec):
    equi_contract = False
    kvb = False
    def __init__(self, prog, w, lgv):
        super().__init__(prog); self.w, self.lgv = w, lgv; self.heap = [lgv]; self.moved = set()
        posfacts(self, w)
        self.axioms.append(self.sp_schema())
    def fields_of(self, cls):
        if cls == self.lgv: return [(c, n, "R:" + GENC) if n == "rand" else (c, n, t) for (c, n, t) in self.prog.all_fields(cls)]
        return super().fields_of(cls)
    def tobv(self, v, t):
        if is_z3(v) and z3.is_int(v) and const_choice(z3.simplify(v), 8) is None and int_ty(t): return I2B(int_ty(t)[1])(v)
        return super().tobv(v, t)
    # -- shared_ptr<generator> members are the generator itself (unique owner)
    def sp_value(self, st, v):
        while isinstance(v, LV):
            x = self.read(st, v)
            if isinstance(x, Rec) and x.cls == GENC: 
                if v.oid in self.moved: raise Unsupported("shared generator")
                return v, x
            v = x
        if isinstance(v, Rec) and v.cls == GENC: return None, v
        raise Unsupported("shared_ptr value")
    def intrinsic(self, fn, this, args, e, st, ctor_type=None):
        k = fn["key"]
        if k.startswith("std::shared_ptr<") or k.startswith("std::__shared_ptr<"):
            if fn["n"] == "shared_ptr":
                if not args: return Rec(GENC, {"p": z3.Const(fresh_name("nullp"), GP), "q": z3.Const(fresh_name("nullq"), GQ), "rev": z3.Bool(fresh_name("nullrev")), "s": z3.Const(fresh_name("nulls"), GS)})
                lv, x = self.sp_value(st, args[0]); return x
            if fn["n"] == "operator=" or fn["n"] == "reset" and args:
                lv, x = self.sp_value(st, args[0]); self.write(st, this, x)
                if lv is not None: self.moved.add(lv.oid)
                return this
            if fn["n"] in ("operator->", "operator*", "get"): return this
            raise Unsupported("shared_ptr function " + fn["n"])
        if k.startswith("std::__shared_ptr_access<"):
            if this.oid in self.moved: raise Unsupported("shared generator")
            return this
        if k.split("<")[0] == "std::swap":
            a, b = self.read(st, args[0]), self.read(st, args[1]); self.write(st, args[0], b); self.write(st, args[1], a); return None
        return super().intrinsic(fn, this, args, e, st, ctor_type) if ctor_type is not None else super().intrinsic(fn, this, args, e, st)
    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        if fn["key"].startswith("std::") and "shared_ptr" in fn["key"]: return self.intrinsic(fn, this, args, e, st)
        return super().call_fn(fn, this, args, st, line, e, virt)
    # -- heap views
    def H(self, st):
        self.init_heap(st, self.lgv); r = st.store["H:" + self.lgv]; g = r.f["rand"]
        f = lambda a: self.flush(a)
        return {**self.cfg.extra(r, f), "S": f(g.f["s"]), "P": f(g.f["p"]), "Q": f(g.f["q"]), "R": f(g.f["rev"]), "C": f(r.f["count"]), "X": f(r.f["next"]), "Z": f(r.f["zero"])}
    def bp(self, st, this):
        b = self.read(st, this.sub("basis"))
        arr = LV(b.oid, b.path[:-1]) if b.path and not isinstance(b.path[-1], str) else b
        if b.path and not isinstance(b.path[-1], str) and (not is_conc(b.path[-1]) or int(b.path[-1])): raise Unsupported("basis pointer")
        return self.flush(self.read(st, arr))
    def vec(self, h, r, v): return V(self.w)(h["P"][r], h["Q"][r], h["R"][r], h["S"][r], h["C"][r], h["X"][r], v)
    def sp_schema(self):
        w = self.w; sp = SP(w); done = set()
        def peel(n, bp, S, C, X, v):
            out = []
            for t in (bp, S, C, X):
                if z3.is_app_of(t, z3.Z3_OP_ITE):
                    c = t.arg(0); A = [x.arg(1) if z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(0).eq(c) else x for x in (bp, S, C, X)]; D = [x.arg(2) if z3.is_app_of(x, z3.Z3_OP_ITE) and x.arg(0).eq(c) else x for x in (bp, S, C, X)]
                    return [sp(n, bp, S, C, X, v) == z3.If(c, sp(n, *A, v), sp(n, *D, v))] + peel(n, *A, v) + peel(n, *D, v)
            if z3.is_app_of(bp, z3.Z3_OP_STORE) and z3.is_app_of(bp.arg(0), z3.Z3_OP_STORE):
                b, x, y = bp.arg(1), bp.arg(2), None; a, z = bp.arg(0).arg(1), bp.arg(0).arg(2); B0 = bp.arg(0).arg(0)
                out.append(z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, z == B0[b], x == B0[a]), sp(n, bp, S, C, X, v) == sp(n, B0, S, C, X, v)))
                return out + peel(n, B0, S, C, X, v)
            st_ = [t for t in (S, C, X) if z3.is_app_of(t, z3.Z3_OP_STORE)]
            if st_:
                r = st_[0].arg(1); base = [t.arg(0) if z3.is_app_of(t, z3.Z3_OP_STORE) and t.arg(1).eq(r) else t for t in (S, C, X)]; m = MASK(w)(v)
                vv = lambda s, c, x: V(w)(self.P0, self.Q0, self.R0, s[r], c[r], x[r], v)
                out.append(z3.Implies(z3.Or(z3.And(S[r] == base[0][r], C[r] == base[1][r], (X[r] & m) == (base[2][r] & m)), vv(S, C, X) == vv(*base)), sp(n, bp, S, C, X, v) == sp(n, bp, *base, v)))
                return out + peel(n, bp, *base, v)
            return out
        return Schema([I, AII, AIS, AII, AIX(w), I], peel, "span", trig=[("SPAN%d" % w, (0, 1, 2, 3, 4, 5))])
    # -- contracts
    def on_heap(self, this):
        if not isinstance(this, LV) or this.oid != "H:" + self.lgv: raise Unsupported("lattice object outside the heap")
        return this.path[0] if is_z3(this.path[0]) else z3.IntVal(this.path[0])
    def lattice_contracts(self, spn=None):
        """add, next_state by contract; spn() gives the (n, basis array, width) in use (lemma instances)"""
        w = self.w; L = self.lgv
        def add(c, con):
            st = c.st; r, q = self.on_heap(c.this), self.on_heap(c.args[0]); h = self.H(st)
            s1 = ADD(h["P"][r], h["S"][r], h["S"][q]); self.write(st, c.this.sub("rand").sub("s"), s1); self.write(st, c.this.sub("next"), h["X"][r] ^ h["X"][q])
            h2 = self.H(st)
            if spn:
                n, bp, v = spn(st); ix = []
                for nm, lv in st.env.values():
                    try: x = self.read(st, lv)
                    except Unsupported: continue
                    if is_z3(x) and z3.is_int(x) and not any(x.eq(y) for y in ix): ix.append(x)
                if len(ix) > 12: ix = ix[:12]
                for a in ix:
                    for b in ix:
                        if a.eq(b): continue
                        st.assume(z3.Implies(z3.And(a >= 0, a < n, b >= 0, b < n, a != b, r == bp[a], q == bp[b], r != q, h["C"][r] <= h["C"][q]), SP(w)(n, bp, h2["S"], h2["C"], h2["X"], v) == SP(w)(n, bp, h["S"], h["C"], h["X"], v)))
        ka = "%s::add(&R:%s)" % (L, L); self.contracts[ka] = Contract(ka, apply=add)
        def nxt(c, con):
            st = c.st; r = self.on_heap(c.this); v0 = self.toint(c.args[0], "i32"); v = v0 * self.E; h = self.H(st)
            self.oblige(st, z3.And(v0 >= 1, v0 <= self.cfg.vmax, self.cfg.cfgfacts(h, r), h["C"][r] >= 0, h["C"][r] <= KMAX, z3.Or(h["Z"][r], (h["X"][r] & MASK(w)(v)) == 0)), "precondition of next_state", "pre")
            s, cn, x, z = z3.Const(fresh_name("ns"), GS), z3.Int(fresh_name("nc")), z3.BitVec(fresh_name("nx"), w), z3.Bool(fresh_name("nz"))
            ok = h["Z"][r]; vv = lambda s, cc, x: V(w)(h["P"][r], h["Q"][r], h["R"][r], s, cc, x, v)
            st.assume(z3.If(ok, z3.And(s == h["S"][r], cn == h["C"][r], x == h["X"][r], z), z3.And(cn > h["C"][r], vv(s, cn, x) == vv(h["S"][r], h["C"][r], h["X"][r]), (x & ~MASK(w)(v)) == 0, z == (x == 0), z3.Implies(z, vv(s, cn, x) == VZERO))))
            st.assume(cn <= KMAX)
            self.write(st, c.this.sub("rand").sub("s"), s); self.write(st, c.this.sub("count"), cn); self.write(st, c.this.sub("next"), x); self.write(st, c.this.sub("zero"), z)
        kn = "%s::next_state(i32)" % L; self.contracts[kn] = Contract(kn, apply=nxt)
    def pos_contract(self):
        w = self.w; k = "MTToolBox::calc_1pos(%s)" % ("u%d" % w if w < 128 else "R:MTToolBox::w128_t")
        self.contracts[k] = Contract(k, apply=lambda c, con: POS(w)(self.zw(c.args[0], "u%d" % w, c.st)))
    def get_next_contract(self):
        """one SIMD step: the leading bits of the elements, packed from the top"""
        if not self.cfg.simd: return
        k = self.lgv + "::get_next(i32)"
        def f(c, con):
            r = self.on_heap(c.this); v = self.toint(c.args[0], "i32"); h = self.H(c.st); w = self.w
            self.oblige(c.st, z3.And(v >= 1, v <= self.cfg.vmax, self.cfg.cfgfacts(h, r)), "precondition of get_next", "pre")
            self.write(c.st, c.this.sub("next"), OUTW(w)(h["P"][r], h["Q"][r], h["R"][r], h["S"][r], v * self.E)); self.write(c.st, c.this.sub("rand").sub("s"), T(h["P"][r], h["S"][r]))
        self.contracts[k] = Contract(k, apply=f)

def UNIT(w): return F("UNIT%d" % w, I, BVS(w))                                       # bit i from the top
def DSUM(): return F("DSUM", GP, GQ, B, GS, I, I, I, I)                              # (.., a, n, size): sum of the defects of a..n bits
def isidx(t): return not z3.is_app_of(t, z3.Z3_OP_SELECT)
def istrig(apps, sel, bysort): return [(t,) for t in sel.get("Int", {}).values() if isidx(t)]
def istrig2(apps, sel, bysort):
    x = [t for t in sel.get("Int", {}).values() if isidx(t)]
    return [(a, b) for a in x for b in x if not a.eq(b)]
def FAI(fn, name="i"): return ForallGoal([I], fn, name, trig=istrig)
def state_common(e, h, bp, L, P0, Q0, R0):
    X, C, Z = h["X"], h["C"], h["Z"]
    return [("objects of the basis are distinct", ForallGoal([I, I], lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j <= L), bp[i] != bp[j]), "ij", trig=istrig2)),
            ("objects are allocated", FAI(lambda i: z3.Implies(z3.And(i >= 0, i <= L), bp[i] > 0))),
            ("counts", FAI(lambda i: z3.Implies(z3.And(i >= 0, i <= L), z3.And(C[bp[i]] >= 0, C[bp[i]] <= KMAX)))),
            ("generators of the basis", FAI(lambda i: z3.Implies(z3.And(i >= 0, i <= L), z3.And(h["P"][bp[i]] == P0, h["Q"][bp[i]] == Q0, h["R"][bp[i]] == R0)))),
            ("configuration of the objects", FAI(lambda i: z3.Implies(z3.And(i >= 0, i <= L), e.cfg.cfgfacts(h, bp[i])))),
            ("exhausted objects", FAI(lambda i: z3.Implies(z3.And(i >= 0, i <= L, Z[bp[i]]), X[bp[i]] == 0)))]
def ready(e, h, bp, L, v, c0):
    """the first v+1 objects generate the v-bit lattice; the first v are in triangular form"""
    P0, Q0, R0, s0 = c0; w = e.w; X, Z = h["X"], h["Z"]
    return state_common(e, h, bp, L, P0, Q0, R0) + [
        ("triangular form", FAI(lambda i: z3.Implies(z3.And(i >= 0, i < v), POS(w)(X[bp[i]]) == i))),
        ("last object", z3.And((X[bp[v]] & ~MASK(w)(v)) == 0, (X[bp[v]] == 0) == Z[bp[v]], z3.Implies(Z[bp[v]], e.vec(h, bp[v], v) == VZERO))),
        ("used objects", FAI(lambda i: z3.Implies(z3.And(i > v, i <= L), Z[bp[i]]))),
        ("the basis generates the lattice", SP(w)(v + 1, bp, h["S"], h["C"], X, v) == LAT(P0, Q0, R0, s0, v))]
def reduced(e, h, bp, L, v, c0):
    """the first v objects are a reduced basis of the v-bit lattice"""
    P0, Q0, R0, s0 = c0; w = e.w; X, Z = h["X"], h["Z"]
    return state_common(e, h, bp, L, P0, Q0, R0) + [
        ("triangular form", FAI(lambda i: z3.Implies(z3.And(i >= 0, i < v), POS(w)(X[bp[i]]) == i))),
        ("used objects", FAI(lambda i: z3.Implies(z3.And(i >= v, i <= L), Z[bp[i]]))),
        ("the basis generates the lattice", SP(w)(v, bp, h["S"], h["C"], X, v) == LAT(P0, Q0, R0, s0, v))]
def assume_all(e, st, L):
    for n, f in L: st.assume(Schema(f.sorts, f.fn, n, trig=f.trig) if isinstance(f, ForallGoal) else f)
