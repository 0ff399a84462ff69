"""C18: best bits tempering."""
from equi import *
UNITS = ["rt.cpp"]
LEVEL = "proof"
NOTE = "AlgorithmBestBits<uint32_t/uint64_t>: make_pattern and inRange against their bit-level specification for every parameter count 1..7 (the range in which 1 << n(n+1)/2 fits in int) with symbolic shifts, level and pattern; search_best_temper and operator() by loop invariants for every parameter count, level, limit, number of candidates and defect function: kept candidates are exactly those of minimal defect. Vectors of shared_ptr are modelled as sequences (assumed contract of std::vector); stored candidates are frozen (a later write is rejected)."
ASSUMPTIONS = ["installing all parameters with a full mask and preparing the tempering forgets the earlier tempering parameters (C07)", "the total defect is a function of the generator's components, between 0 and state size * width (C15)", "fewer than 2^31 candidates", "0 <= shift amounts <= word size, limit <= word size"]
TRUSTED = ["std::vector, std::shared_ptr", "iostream output (not observed)"]
P = lambda: frontend.load("rt.cpp")
TPV = z3.DeclareSort("TPV"); SEQ = z3.DeclareSort("SEQ"); B64 = z3.BitVecSort(64)
LEN = F("LEN", SEQ, B64); AT = F("AT", SEQ, B64, TPV)
DELTAF = F("DELTAF", TPV, I); PATT = F("PATT", TPV, I); PI = F("PARENT", TPV, B64)
def PARAM(w, k): return F("PARAM%d_%d" % (w, k), TPV, BVS(w))
def MK(w, k): return F("MKPAT%d_%d" % (w, k), BVS(w), I, I, BVS(w))
INR = F("INRANGE", I, I, B); BASEQ = F("BASEQ", GQ, GQ)
def INST(w, n): return F("INSTALL%d_%d" % (w, n), *([GP, GQ] + [BVS(w)] * n + [GQ]))
VT = "std::vector<"; SPA = "std::__shared_ptr_access<"; SP = "std::shared_ptr<"
LIM = bv(1 << 31, 64)
def atidx(apps, sel, bysort): return [(t.arg(1),) for t in apps.get("AT", {}).values()] if isinstance(apps.get("AT"), dict) else [(t.arg(1),) for t in apps.get("AT", [])]
def FA(fn, name): return ForallGoal([B64], fn, name, trig=atidx)
class BExec(EquiExec):
    kvb = False
    def __init__(self, prog, w, n):
        super().__init__(prog); self.w, self.n = w, n; self.frozen = set(); self.gpat = {}; self.tpv = {}; self.absty["SEQ"] = SEQ; self.pix = None
    def isvec(self, cls): return cls.startswith(VT)
    def fields_of(self, cls):
        if self.isvec(cls): return [(cls, "seq", "SEQ")]
        return super().fields_of(cls)
    def tp(self): return "MTToolBox::temper_params<%s>" % {32: "unsigned int", 64: "unsigned long"}[self.w]
    def write(self, st, lv, v):
        if lv.oid in self.frozen: raise Unsupported("a stored candidate is changed")
        super().write(st, lv, v)
    def empty(self, st):
        s = z3.Const(fresh_name("seq"), SEQ); st.assume(LEN(s) == 0); return s
    def virtual(self, st, x, src=None):
        a = self.new_obj(st, ArrV("u%d" % self.w, self.n, None, {k: PARAM(self.w, k)(x) for k in range(self.n)}), "vparam"); self.otype[a.oid] = "[%d]u%d" % (self.n, self.w)
        o = self.new_obj(st, Rec(self.tp(), {"param": a.sub(0), "delta": DELTAF(x), "size": self.n}), "vcand"); self.otype[o.oid] = "R:" + self.tp()
        self.frozen |= {a.oid, o.oid}; self.tpv[o.oid] = (x, src); self.gpat[o.oid] = PATT(x)
        st.assume(DELTAF(x) >= -(1 << 31), DELTAF(x) < 1 << 31)
        return o
    def params_of(self, st, o):
        p = self.deref(st, self.read(st, o.sub("param")), 0)
        if p.path and not isinstance(p.path[-1], str): base, arr = p.path[-1], LV(p.oid, p.path[:-1])
        else: base, arr = 0, p
        if not is_conc(base) or int(base) != 0: raise Unsupported("parameter array")
        a = self.read(st, arr)
        if not isinstance(a, ArrV) or not is_conc(a.n) or int(a.n) != self.n: raise Unsupported("parameter array size")
        return arr, [self.zw(self.read(st, arr.sub(k)), "u%d" % self.w, st) for k in range(self.n)]
    def element(self, st, o):
        """the stored value of a candidate object"""
        if o.oid in self.tpv: return self.tpv[o.oid][0]
        arr, ps = self.params_of(st, o); x = z3.Const(fresh_name("cand"), TPV)
        for k in range(self.n): st.assume(PARAM(self.w, k)(x) == ps[k])
        st.assume(DELTAF(x) == self.toint(self.read(st, o.sub("delta")), "i32"))
        if o.oid in self.gpat: st.assume(PATT(x) == self.gpat[o.oid])
        if self.pix is not None: st.assume(PI(x) == self.pix)
        self.frozen |= {arr.oid, o.oid}; self.tpv[o.oid] = (x, None)
        return x
    def push(self, st, vec, x):
        s0 = self.read(st, vec.sub("seq")); s = z3.Const(fresh_name("seq"), SEQ)
        st.assume(LEN(s) == LEN(s0) + 1, z3.ULT(LEN(s), LIM), AT(s, LEN(s0)) == x)
        st.assume(Schema([B64], lambda j: z3.Implies(z3.ULT(j, LEN(s0)), AT(s, j) == AT(s0, j)), "push", trig=atidx))
        self.write(st, vec.sub("seq"), s); self.on_push(st, x, LEN(s0))
    def on_push(self, st, x, pos): pass
    def ptr(self, st, v):
        while isinstance(v, LV):
            t = self.read(st, v)
            if not isinstance(t, LV): return v
            v = t
        raise Unsupported("pointer to a candidate")
    def intrinsic(self, fn, this, args, e, st, ctor_type=None):
        k = fn["key"]
        if k.startswith(VT):
            n = fn["n"]
            if n == "vector" and not args: return Rec(k.split("::<ctor>")[0], {"seq": self.empty(st)})
            if n == "push_back": self.push(st, this, self.element(st, self.ptr(st, args[0]))); return None
            if n == "size": return LEN(self.read(st, this.sub("seq")))
            if n == "clear": self.write(st, this.sub("seq"), self.empty(st)); return None
            if n == "empty": return LEN(self.read(st, this.sub("seq"))) == 0
            if n in ("operator[]", "at"):
                s = self.read(st, this.sub("seq")); i = self.zw(args[0], "u64", st)
                self.safe(st, z3.ULT(i, LEN(s)), "vector index in range", e["l"])
                o = self.virtual(st, AT(s, i), (s, i)); r = self.new_obj(st, o, "elem"); self.otype[r.oid] = "*R:" + self.tp(); self.frozen.add(r.oid); return r
            raise Unsupported("vector function " + n)
        if k.startswith(SPA): return self.read(st, this)
        if k.startswith(SP):
            if fn["n"] == "shared_ptr" and len(args) == 1: return self.ptr(st, args[0])
            raise Unsupported("shared_ptr function " + fn["n"])
        return super().intrinsic(fn, this, args, e, st, ctor_type) if ctor_type is not None else super().intrinsic(fn, this, args, e, st)
    def gen_call(self, fn, this, args, st, line):
        if fn["n"] == "setUpTempering":
            p, q, r, s = self.g4(st, this); x = {}; c = q; tq = TEMPQ(self.w); full = (1 << self.w) - 1
            while z3.is_app(c) and c.decl().eq(tq) and len(x) < self.n:
                m, i = z3.simplify(c.arg(2)), z3.simplify(c.arg(4))
                if not (z3.is_bv_value(m) and m.as_long() == full and z3.is_int_value(i) and 0 <= i.as_long() < self.n and i.as_long() not in x): break
                x[i.as_long()] = c.arg(3); c = c.arg(1)
            if len(x) == self.n:
                r = INST(self.w, self.n)(p, BASEQ(c), *[x[k] for k in range(self.n)]); st.assume(BASEQ(r) == BASEQ(c)); self.write(st, this.sub("q"), r); self.assumed.add("interface contract: setUpTempering"); return None
        return super().gen_call(fn, this, args, st, line)
    def equi_call(self, fn, this, args, st, line):
        r = super().equi_call(fn, this, args, st, line)
        if r is not None: st.assume(r <= BS(self.read(st, this.sub("p"))) * self.w)
        return r

def setup(w, U, n):
    p = P(); e = BExec(p, w, n); C = "MTToolBox::AlgorithmBestBits<%s>" % U
    st = State(); g = e.gen(st, "g"); this = mkobj(e, st, C); p0, q0, r0, s0 = e.g4(st, g); st.assume(BS(p0) >= 1, BS(p0) <= 1 << 20)
    for f, v in (("size", n), ("num_pat", n * (n + 1) // 2), ("obSize", w), ("bit_len", w)): e.write(st, this.sub(f), v)
    return p, e, C, st, g, this
def mkcontract(e, p, C):
    def one(n):
        k = [x for x in p.functions if x.startswith(C + "::" + n + "(")]
        if len(k) != 1: raise Unsupported("%s: %d functions" % (n, len(k)))
        return k[0]
    w, n = e.w, e.n
    def mk(c, con):
        st = c.st; res, pat, v, para = c.args[0], e.toint(c.args[1], "i32"), e.toint(c.args[2], "i32"), c.args[3]
        e.oblige(st, z3.And(pat >= 0, pat < 1 << (n * (n + 1) // 2), v >= 0, v < w), "precondition of make_pattern", "pre")
        arr, _ = e.params_of(st, res); _, xs = e.params_of(st, para)
        for k in range(n): e.write(st, arr.sub(k), MK(w, k)(xs[k], pat, v))
        e.write(st, res.sub("delta"), 0); e.gpat[res.oid] = pat
    e.contracts[one("make_pattern")] = Contract(one("make_pattern"), apply=mk)
    def inr(c, con):
        pat, v = e.toint(c.args[0], "i32"), e.toint(c.args[1], "i32")
        e.oblige(c.st, z3.And(pat >= 0, pat < 1 << (n * (n + 1) // 2), v >= 0, v < w), "precondition of inRange", "pre")
        return INR(pat, v)
    e.contracts[one("inRange")] = Contract(one("inRange"), apply=inr)
    return one
def DD(w, n, p, qb, r, s, xs, v): return DELTA(p, INST(w, n)(p, qb, *xs), r, s, v + 1, BS(p))
def candfacts(w, n, x, par, v, p, qb, r, s):
    """x is the candidate PATT(x) of the parent with parameters par"""
    return z3.And(PATT(x) >= 0, PATT(x) < 1 << (n * (n + 1) // 2), INR(PATT(x), v), *[PARAM(w, k)(x) == MK(w, k)(par[k], PATT(x), v) for k in range(n)],
                  DELTAF(x) == DD(w, n, p, qb, r, s, [MK(w, k)(par[k], PATT(x), v) for k in range(n)], v), DELTAF(x) <= BS(p) * w, DELTAF(x) >= 0)

def search(w, U, n):
    def run(rep):
        p, e, C, st, g, this = setup(w, U, n); one = mkcontract(e, p, C); key = one("search_best_temper")
        p0, q0, r0, s0 = e.g4(st, g); N = 1 << (n * (n + 1) // 2)
        v = z3.Int("v_bit"); X = z3.Const("parent", TPV); Y = z3.Int("any_pattern"); pix = z3.Const("parent_index", B64); e.pix = pix
        para = e.virtual(st, X); par = [PARAM(w, k)(X) for k in range(n)]
        vec = e.new_obj(st, Rec("std::vector<x>", {"seq": z3.Const("current0", SEQ)}), "current"); e.otype[vec.oid] = "R:std::vector<x>"
        c0 = e.read(st, vec.sub("seq")); qb = BASEQ(q0)
        pos = e.new_obj(st, bv(0, 64), "ghostpos"); e.otype[pos.oid] = "u64"
        def on_push(s, x, at): e.write(s, pos, z3.If(PATT(x) == Y, at, e.zw(e.read(s, pos), "u64", s)))
        e.on_push = on_push
        st.assume(v >= 0, v < w, z3.ULT(LEN(c0), LIM), Y >= 0, Y < N, INR(z3.IntVal(0), v))
        DY = DD(w, n, p0, qb, r0, s0, [MK(w, k)(par[k], Y, v) for k in range(n)], v); BD = BS(p0) * w
        st.assume(DY >= 0, DY <= BD)
        rep.cover("precondition", st.pc)
        def present(s, sq):
            at = e.zw(e.read(s, pos), "u64", s)
            return z3.And(z3.ULE(LEN(c0), at), z3.ULT(at, LEN(sq)), PATT(AT(sq, at)) == Y)
        def inv(c):
            s = c.st; sq = e.read(s, vec.sub("seq")); i = e.toint(c.var("i"), "i32"); d = e.toint(c.var("delta"), "i32"); a, b, r, x = e.g4(s, g)
            return [("generator", z3.And(a == p0, BASEQ(b) == qb, r == r0, x == s0)), ("range", z3.And(i >= -1, i < N)), ("length", z3.And(z3.UGE(LEN(sq), LEN(c0)), z3.ULT(LEN(sq), LIM))),
                ("number of pattern bits", e.toint(e.read(s, this.sub("num_pat")), "i32") == n * (n + 1) // 2),
                ("earlier candidates kept", FA(lambda j: z3.Implies(z3.ULT(j, LEN(c0)), AT(sq, j) == AT(c0, j)), "j")),
                ("candidates of this parent", FA(lambda j: z3.Implies(z3.And(z3.UGE(j, LEN(c0)), z3.ULT(j, LEN(sq))), z3.And(PATT(AT(sq, j)) > i, PI(AT(sq, j)) == pix, candfacts(w, n, AT(sq, j), par, v, p0, qb, r0, s0))), "j")),
                ("running minimum", z3.And(d <= BD, z3.If(LEN(sq) == LEN(c0), d == BD, d == DELTAF(AT(sq, LEN(sq) - 1))))),
                ("any evaluated pattern is stored or beaten", z3.Implies(z3.And(Y > i, INR(Y, v)), z3.Or(present(s, sq), d < DY))),
                ("pattern 0 is a candidate", z3.Implies(i < 0, z3.UGT(LEN(sq), LEN(c0))))]
        e.loopspecs[key] = [LoopSpec(inv=inv, force=True)]
        verbose = z3.Bool("verbose")
        res, exc = e.verify(key, [g, v, para, vec, verbose], this, st)
        for s, _ in res:
            sq = e.read(s, vec.sub("seq")); a, b, r, x = e.g4(s, g); at = e.zw(e.read(s, pos), "u64", s)
            O = lambda f, nm: e.oblige(s, f, nm, "post")
            O(z3.And(a == p0, r == r0, x == s0, BASEQ(b) == qb), "only the tempering parameters change")
            O(FA(lambda j: z3.Implies(z3.ULT(j, LEN(c0)), AT(sq, j) == AT(c0, j)), "j"), "earlier candidates kept")
            O(z3.And(z3.UGT(LEN(sq), LEN(c0)), z3.ULT(LEN(sq), LIM)), "at least one candidate")
            O(FA(lambda j: z3.Implies(z3.And(z3.UGE(j, LEN(c0)), z3.ULT(j, LEN(sq))), z3.And(PI(AT(sq, j)) == pix, candfacts(w, n, AT(sq, j), par, v, p0, qb, r0, s0))), "j"), "every stored candidate is an in-range choice with its defect in level+1 bits")
            O(z3.Implies(INR(Y, v), z3.Or(present(s, sq), DELTAF(AT(sq, LEN(sq) - 1)) < DY)), "every in-range choice is stored or beaten by a stored one")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, key)
    return Task("level search u%d params %d" % (w, n), run)

def outer(w, U, n):
    def run(rep):
        p, e, C, st, g, this = setup(w, U, n); one = mkcontract(e, p, C); key = one("operator()"); kb = one("search_best_temper")
        p0, q0, r0, s0 = e.g4(st, g); N = 1 << (n * (n + 1) // 2); qb = BASEQ(q0); BD = BS(p0) * w; no = z3.BoolVal(False)
        IX = z3.Const("any_parent", B64); Y = z3.Int("any_pattern"); st.assume(Y >= 0, Y < N)
        lim = z3.Int("limit"); st.assume(lim >= 0, lim <= w); e.write(st, this.sub("limit"), lim)
        gw = e.new_obj(st, z3.BitVec("gw", 64), "ghostw"); e.otype[gw.oid] = "u64"
        W_ = lambda x, D: z3.Or(z3.And(PI(x) == IX, PATT(x) == Y), DELTAF(x) < D)
        PAR = lambda sq, i: [PARAM(w, k)(AT(sq, i)) for k in range(n)]
        def DS(sq, v): return DD(w, n, p0, qb, no, s0, [MK(w, k)(PARAM(w, k)(AT(sq, IX)), Y, v) for k in range(n)], v)
        def sbt(c, con):
            s = c.st; gg, v, para, vec = c.args[0], e.toint(c.args[1], "i32"), c.args[2], c.args[3]
            a, b, r, x = e.g4(s, gg); src = e.tpv.get(para.oid, (None, None))[1]
            if src is None: raise Unsupported("parent is not an element of a vector")
            sq0, i = src; s0_ = e.read(s, vec.sub("seq")); sq = z3.Const(fresh_name("cur"), SEQ); at = z3.BitVec(fresh_name("wit"), 64); b2 = z3.Const(fresh_name("q"), GQ)
            e.oblige(s, z3.And(v >= 0, v < w, z3.ULT(LEN(s0_), LIM)), "precondition of search_best_temper", "pre")
            e.write(s, gg.sub("q"), b2); s.assume(BASEQ(b2) == BASEQ(b)); e.write(s, vec.sub("seq"), sq)
            cf = lambda t: candfacts(w, n, t, PAR(sq0, i), v, a, BASEQ(b), r, x)
            s.assume(z3.UGT(LEN(sq), LEN(s0_)), z3.ULT(LEN(sq), LIM))
            s.assume(FA(lambda j: z3.Implies(z3.ULT(j, LEN(s0_)), AT(sq, j) == AT(s0_, j)), "j"))
            s.assume(FA(lambda j: z3.Implies(z3.And(z3.UGE(j, LEN(s0_)), z3.ULT(j, LEN(sq))), z3.And(PI(AT(sq, j)) == i, cf(AT(sq, j)))), "j"))
            D = DD(w, n, a, BASEQ(b), r, x, [MK(w, k)(PARAM(w, k)(AT(sq0, i)), Y, v) for k in range(n)], v)
            s.assume(z3.Implies(INR(Y, v), z3.And(z3.UGE(at, LEN(s0_)), z3.ULT(at, LEN(sq)), z3.Or(z3.And(PI(AT(sq, at)) == i, PATT(AT(sq, at)) == Y), DELTAF(AT(sq, at)) < D))))
            e.write(s, gw, z3.If(i == IX, at, e.zw(e.read(s, gw), "u64", s)))
        e.contracts[kb] = Contract(kb, apply=sbt)
        def gen_ok(c):
            a, b, r, x = e.g4(c.st, g); return ("generator", z3.And(a == p0, BASEQ(b) == qb, z3.Not(r), x == s0))
        def idx(c): 
            v = c.var("i"); return z3.ZeroExt(32, v) if is_z3(v) and z3.is_bv(v) and v.size() == 32 else e.zw(v, "u64", c.st) if not (is_z3(v) and z3.is_bv(v)) else v
        GW = lambda c: e.zw(e.read(c.st, gw), "u64", c.st)
        # level loop
        def inv_p(c):
            sq = vec(c, "params"); lv = e.toint(c.var("p"), "i32")
            return [gen_ok(c), ("level", z3.And(lv >= 0, lv <= lim)), ("candidates", z3.And(z3.UGE(LEN(sq), 1), z3.ULT(LEN(sq), LIM)))]
        def end_p(c):
            s = c.st; old = vec_at(c.start, "params"); sq = vec(c, "params"); lv = e.toint(e.read(c.start, lvof(c.start, "p")), "i32"); d = e.toint(c.var("delta"), "i32")
            O = lambda f, nm: e.oblige(s, f, nm, "post")
            O(FA(lambda j: z3.Implies(z3.ULT(j, LEN(sq)), z3.And(z3.ULT(PI(AT(sq, j)), LEN(old)), candfacts(w, n, AT(sq, j), PAR(old, PI(AT(sq, j))), lv, p0, qb, no, s0))), "j"), "every survivor is an in-range choice of a surviving parent")
            hyp = z3.And(z3.ULT(IX, LEN(old)), INR(Y, lv)); D = DS(old, lv)
            O(FA(lambda j: z3.Implies(z3.And(z3.ULT(j, LEN(sq)), hyp), DELTAF(AT(sq, j)) <= D), "j"), "no in-range choice of any surviving parent has a smaller defect than a survivor")
            q = s.ghost.get("gq"); 
            O(z3.Implies(z3.And(hyp, D == DELTAF(AT(sq, bv(0, 64)))), z3.And(z3.ULT(q, LEN(sq)), PI(AT(sq, q)) == IX, PATT(AT(sq, q)) == Y)), "every choice of minimal defect survives")
        def lvof(s, nm):
            l = [l for (a, l) in s.env.values() if a == nm]
            if not l: raise AnnotationMismatch("no variable " + nm)
            return l[-1]
        def vec_at(s, nm): return e.read(s, lvof(s, nm).sub("seq"))
        def vec(c, nm): return vec_at(c.st, nm)
        def hyps_cur(c, sq, P_, i, lv):
            return [("candidates of the parents", FA(lambda j: z3.Implies(z3.ULT(j, LEN(sq)), z3.And(z3.ULT(PI(AT(sq, j)), i), candfacts(w, n, AT(sq, j), PAR(P_, PI(AT(sq, j))), lv, p0, qb, no, s0))), "j"))]
        # 1: candidates of every parent
        def inv_1(c):
            P_, sq, i, lv = vec(c, "params"), vec(c, "current"), idx(c), e.toint(c.var("p"), "i32")
            return [gen_ok(c), ("index", z3.ULE(i, LEN(P_))), ("length", z3.And(z3.ULT(LEN(sq), LIM), z3.Implies(z3.UGT(i, 0), z3.UGE(LEN(sq), 1))))] + hyps_cur(c, sq, P_, i, lv) + \
                [("any choice is stored or beaten", z3.Implies(z3.And(z3.ULT(IX, i), INR(Y, lv)), z3.And(z3.ULT(GW(c), LEN(sq)), W_(AT(sq, GW(c)), DS(P_, lv)))))]
        # 2: least defect
        def wit(c):
            c.g["n"] = c.g.get("n", 0) + 1
            if c.g["n"] == 2: c.g["w"] = z3.BitVec(fresh_name("argmin"), 64)
            return c.g["n"]
        def inv_2(c):
            sq, i, d = vec(c, "current"), idx(c), e.toint(c.var("delta"), "i32"); k = wit(c)
            ws = [] if k == 1 else [c.g["w"]] if k == 2 else [c.g["w"], i - 1]
            return [("index", z3.ULE(i, LEN(sq))), ("bound", d <= BD), ("least so far", FA(lambda j: z3.Implies(z3.ULT(j, i), d <= DELTAF(AT(sq, j))), "j")),
                    ("attained", z3.Or([d == BD] + [z3.And(z3.ULT(x, i), d == DELTAF(AT(sq, x))) for x in ws]))]
        def exit_2(c): c.st.ghost["gm"] = c.g["w"]
        # 3: keep the minimal ones
        def inv_3(c):
            sq, ps, i, d, lv = vec(c, "current"), vec(c, "params"), idx(c), e.toint(c.var("delta"), "i32"), e.toint(c.var("p"), "i32"); k = wit(c); P_ = c.st.ghost["P"]; gm = z3.If(d == BD, bv(0, 64), c.st.ghost["gm"])
            ws = [] if k == 1 else [c.g["w"]] if k == 2 else [c.g["w"], LEN(ps) - 1]
            x = AT(sq, GW(c))
            return [("index", z3.ULE(i, LEN(sq))), ("length", z3.And(z3.ULT(LEN(ps), LIM), z3.ULE(LEN(ps), i))), ("kept ones are minimal", FA(lambda j: z3.Implies(z3.ULT(j, LEN(ps)), z3.And(DELTAF(AT(ps, j)) == d, z3.ULT(PI(AT(ps, j)), LEN(P_)), candfacts(w, n, AT(ps, j), PAR(P_, PI(AT(ps, j))), lv, p0, qb, no, s0))), "j")),
                    ("one is kept", z3.Implies(z3.UGT(i, gm), z3.UGE(LEN(ps), 1))),
                    ("the witness is kept", z3.Implies(z3.And(z3.UGT(i, GW(c)), DELTAF(x) == d), z3.Or([z3.And(z3.ULT(q, LEN(ps)), AT(ps, q) == x) for q in ws])))]
        def exit_3(c): c.st.ghost["gq"] = c.g["w"]
        def exit_1(c): c.st.ghost["P"] = vec(c, "params")
        def exit_p(c): c.st.ghost["Pfin"] = vec(c, "params")
        SP_ = LoopSpec(inv=inv_p, body_end=end_p, on_exit=exit_p); inner = [LoopSpec(inv=inv_1, on_exit=exit_1), LoopSpec(inv=inv_2, on_exit=exit_2), LoopSpec(inv=inv_3, on_exit=exit_3)]; seen = {}
        def specs(eng, s, loop):
            """by the candidate lists in scope: none - plain loop; one - the level loop (first), then plain; two - the three loops of a level"""
            n = sum(1 for (a, l) in s.env.values() if isinstance(l, LV) and l.oid in s.store and isinstance(s.store[l.oid], Rec) and e.isvec(s.store[l.oid].cls))
            if n == 0: return LoopSpec()
            d = seen.setdefault(n, []); lid = (loop["l"], id(loop))
            if lid not in d: d.append(lid)
            k = d.index(lid)
            if n == 1: return SP_ if k == 0 else LoopSpec()
            if k >= 3: raise AnnotationMismatch("more loops than annotated")
            return inner[k]
        e.loopspecs[key] = specs
        res, exc = e.verify(key, [g, z3.Bool("verbose")], this, st)
        for s, v in res:
            pf, qf, rf, sf = e.g4(s, g); sq = s.ghost["Pfin"]
            O = lambda f, nm: e.oblige(s, f, nm, "post")
            j = bv(0, 64)
            if is_z3(qf) and qf.decl().eq(INST(w, n)):
                a = qf.arg(2)
                if z3.is_app(a) and a.num_args() == 1 and a.arg(0).decl().eq(AT): j = a.arg(0).arg(1)
            O(z3.And(z3.ULT(j, LEN(sq)), qf == INST(w, n)(p0, qb, *PAR(sq, j))), "a survivor of the last level is installed")
            O(z3.And(pf == p0, sf == s0), "only the tempering parameters change"); O(z3.Not(rf), "reverse output is off at the end"); O(e.toint(v, "i32") == 0, "returns 0")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, key)
    return Task("levels u%d params %d" % (w, n), run)

def layout(n, shifts):
    """controlled (parameter, distance) of the pattern bits, most significant first"""
    out = []; idx, s, row = 0, z3.BitVecVal(0, 32), 0
    for b in range(n * (n + 1) // 2):
        out.append((idx, s)); idx += 1
        if idx >= n: s = s + shifts[n - 1 - row]; idx = row; row += 1
    return out
class BitExec(LibExec):
    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        if fn["n"] == "toString": return OPAQUE
        return super().call_fn(fn, this, args, st, line, e, virt)
def bits(w, U, n):
    def run(rep):
        for nm in ("make_pattern", "inRange"):
            p = P(); e = BitExec(p); C = "MTToolBox::AlgorithmBestBits<%s>" % U; TPc = "MTToolBox::temper_params<%s>" % U
            key = [x for x in p.functions if x.startswith(C + "::" + nm + "(")][0]
            st = State(); this = mkobj(e, st, C); np = n * (n + 1) // 2
            sh = [z3.BitVec("shift%d" % k, 32) for k in range(n)]; arr = e.new_obj(st, ArrV("i32", n, None, dict(enumerate(sh))), "shifts"); e.otype[arr.oid] = "[%d]i32" % n
            for f, x in (("size", n), ("num_pat", np), ("obSize", w), ("bit_len", w), ("shifts", arr.sub(0))): e.write(st, this.sub(f), x)
            for x in sh: st.assume(x >= 0, x <= w)
            pat, v = z3.BitVec("pat", 32), z3.BitVec("v", 32); st.assume(pat >= 0, pat < 1 << np, v >= 0, v < w)
            rep.cover("precondition", st.pc)
            lay = layout(n, sh); on = [z3.Extract(np - 1 - b, np - 1 - b, pat) == 1 for b in range(np)]
            if nm == "inRange":
                res, exc = e.verify(key, [pat, v], this, st)
                for s, r in res:
                    r = r if is_z3(r) else z3.BoolVal(bool(r))
                    e.oblige(s, r == z3.And([z3.Implies(on[b], v + sh[k] + d <= w) for b, (k, d) in enumerate(lay)]), "in range iff every selected bit and its shifted copy stay inside the word", "post")
                    e.oblige(s, z3.Implies(pat == 0, r), "the empty choice is in range", "post")
            else:
                def obj(name, vals):
                    a = e.new_obj(st, ArrV("u%d" % w, n, None, dict(enumerate(vals))), name + ".param"); e.otype[a.oid] = "[%d]u%d" % (n, w)
                    o = e.new_obj(st, Rec(TPc, {"param": a.sub(0), "delta": z3.BitVec(name + ".delta", 32), "size": n}), name); e.otype[o.oid] = "R:" + TPc
                    return o, a
                xs = [z3.BitVec("para%d" % k, w) for k in range(n)]
                par, pa = obj("para", xs); out, oa = obj("result", [z3.BitVec("old%d" % k, w) for k in range(n)])
                res, exc = e.verify(key, [out, pat, v, par], this, st)
                for s, _ in res:
                    for k in range(n):
                        want = xs[k]
                        for b, (kk, d) in enumerate(lay):
                            if kk != k: continue
                            top = bv(w - 1, 32) - v - d; sel = z3.BitVecVal(1, w) << (top if w == 32 else z3.ZeroExt(32, top))
                            want = z3.If(top > 0, z3.If(on[b], want | sel, want & ~sel), want)
                        e.oblige(s, e.read(s, oa.sub(k)) == want, "parameter %d: the selected bits follow the pattern, the others come from the parent" % k, "post")
                        e.oblige(s, e.read(s, pa.sub(k)) == xs[k], "the parent is unchanged", "post")
            if not res or exc: raise Unsupported("paths without a result")
            rep.take(e, key)
    return Task("bit choice u%d params %d" % (w, n), run)

def tasks(tier):
    T = []
    for w, U in ((32, "unsigned int"), (64, "unsigned long")):
        for n in range(1, 8):
            T += [search(w, U, n), outer(w, U, n)]
            if (w, n) != (64, 7) or tier != "quick": T.append(bits(w, U, n))
    return T
