"""C16: dimension of equidistribution of SIMD outputs (SFMT, dSFMT)."""
from lattasks import *
import C01, C14, gens
UNITS = ["simd_sfmt.cpp", "simd_dsfmt.cpp", "w128_sfmt.cpp", "w128_dsfmt.cpp", "rt.cpp"]
LEVEL = "proof"
NOTE = "simd_/dsfmt_linear_generator_vector and AlgorithmSIMD/DSFMTEquidistribution under the contracts of C14 over 128-bit lattice words, for SFMT with 32- and 64-bit elements (from either end) and dSFMT with 52-bit elements: get_next packs the v leading bits of every element (each v proved separately, v is at most 64); constructors, add, next_state and get_equidist_main for every width. calc_SIMD_equidistribution / calc_dSFMT_equidistribution: for every number of bits and exponent, the value in v bits is the minimum over the start positions of the largest, over the widths, of k(v)*elements - (elements - width), the sum is that of floor(mexp/v) - value, an exception means a value over the bound. generate() of sfmt and dSFMT in every start position and width. Partial correctness of the reduction loop as in C14."
ASSUMPTIONS = C14.ASSUMPTIONS + ["bitSize() is at least the linear complexity of the generator (lemma bound)"]
TRUSTED = C14.TRUSTED
BOUNDED = ["termination of get_equidist_main: real code run on random SIMD generators of up to 512 state bits against exact linear algebra, for the driver's time budget"]
W128 = "MTToolBox::w128_t"; AG = "MTToolBox::AbsGen<%s>" % W128
LSB = z3.Bool("lsb0")
class SCfg(Cfg):
    simd = True; w = 128
    def __init__(self, name, unit, lgv, ae, infocls, mode, E, vmax, fn):
        self.name, self.unit, self.info, self.mode, self.E, self.vmax, self.fn = name, unit, "MTToolBox::" + infocls, mode, E, vmax, fn
        self.lgv = "MTToolBox::%s<%s, %s>" % (lgv, W128, AG); self.ae = "MTToolBox::%s<%s, %s>" % (ae, W128, AG); self.haslsb = mode is not None
        self.U = W128
    def prog(self): return frontend.load(self.unit)
    def lctor(self, one): return "%s::<ctor>(&R:%s%s,&R:%s%s)" % (self.lgv, AG, ",i32" if one else "", self.info, ",bool" if self.haslsb else "")
    def actor(self): return "%s::<ctor>(&R:%s,i32,R:%s,i32%s)" % (self.ae, AG, self.info, ",bool" if self.haslsb else "")
    def inforec(self): return Rec(self.info, {"bitSize": z3.IntVal(128), "elementNo": z3.IntVal(self.E), **({"bitMode": z3.IntVal(self.mode)} if self.haslsb else {})})
    def infolv(self, e, st): lv = e.new_obj(st, self.inforec(), "info"); e.otype[lv.oid] = "R:" + self.info; return lv
    def lctor_args(self, e, st, g, pos): return [g] + ([pos] if pos is not None else []) + [self.infolv(e, st)] + ([LSB] if self.haslsb else [])
    def actor_args(self, e, st, g, v, m): return [g, v, self.inforec(), m] + ([LSB] if self.haslsb else [])
    def newfields(self, e, cx, one):
        r = e.read(cx.st, cx.args[1 + one]) if isinstance(cx.args[1 + one], LV) else cx.args[1 + one]
        d = {"info": Rec(self.info, {f: e.toint(x, "i32") for f, x in r.f.items()})}
        if self.haslsb: d["lsb"] = e.tobool(cx.args[2 + one])
        return d
    def ctor_post(self, e, s, this, O, n, m, p):
        rd = lambda f: e.toint(e.read(s, this.sub(f)), "i32"); x = e.read(s, this.sub("info"))
        O(rd("stateBitSize") == m, "state size is the given bound")
        O(z3.And(*[e.toint(x.f[f], "i32") == v for f, v in self.inforec().f.items()]), "configuration of the algorithm object")
    def cfgfacts(self, h, r): return z3.And(*[h["info." + f][r] == v for f, v in self.inforec().f.items()], *([h["lsb"][r] == LSB] if self.haslsb else []))
    def extra(self, r, f): return {**{"info." + k: f(r.f["info"].f[k]) for k in self.inforec().f}, **({"lsb": f(r.f["lsb"])} if self.haslsb else {})}
    def setup_this(self, e, st, this): e.write(st, this.sub("info"), self.inforec())
CFG = [SCfg("SFMT 32-bit", "simd_sfmt.cpp", "simd_linear_generator_vector", "AlgorithmSIMDEquidistribution", "SIMDInfo", 32, 4, 32, "calc_SIMD_equidistribution"),
       SCfg("SFMT 64-bit", "simd_sfmt.cpp", "simd_linear_generator_vector", "AlgorithmSIMDEquidistribution", "SIMDInfo", 64, 2, 64, "calc_SIMD_equidistribution"),
       SCfg("dSFMT", "simd_dsfmt.cpp", "dsfmt_linear_generator_vector", "AlgorithmDSFMTEquidistribution", "DSFMTInfo", None, 2, 52, "calc_dSFMT_equidistribution")]
def get_next(c):
    def run(rep):
        k = c.lgv + "::get_next(i32)"; ew = 128 // c.E
        for v in range(1, c.vmax + 1):
            e = mkexec(c); setbit_contract(e); st = State(); this = mkobj(e, st, c.lgv)
            g = e.gen(st); p, q, rv, s0 = e.g4(st, g); e.write(st, this.sub("rand"), e.read(st, g)); e.write(st, this.sub("info"), c.inforec())
            if c.haslsb: e.write(st, this.sub("lsb"), LSB)
            b0 = e.read(st, this); o = OUT(128)(p, q, rv, s0)
            res, exc = e.verify(k, [z3.IntVal(v)], this, st); at = ", %d bits" % v
            for s, _ in res:
                b = e.read(s, this); x = b.f["next"]; O = lambda f, n: e.oblige(s, f, n + at, "post")
                want = []
                for i in range(c.E):
                    el = z3.Extract(ew * i + ew - 1, ew * i, o)
                    for j in range(v):
                        top = bit(el, 51 - j) if not c.haslsb else z3.If(LSB, bit(el, j), bit(el, ew - 1 - j))
                        want.append(bit(x, 127 - (i * v + j)) == top)
                O(z3.And(*want), "leading bits of every element, packed from the top")
                n = c.E * v
                if n < 128: O(z3.Extract(127 - n, 0, x) == 0, "no other bits")
                O(z3.And(b.f["rand"].f["s"] == T(p, s0), b.f["rand"].f["p"] == p, b.f["rand"].f["q"] == q), "one step of the generator")
                O(z3.And(e.toint(b.f["count"], "i32") == e.toint(b0.f["count"], "i32"), e.tobool(b.f["zero"]) == e.tobool(b0.f["zero"])), "count and zero are kept")
            if exc or not res: raise Unsupported("get_next")
            rep.take(e, k)
    return Task("get_next " + c.name, run)

# ---- the minimum over start positions of the largest value over widths
SETSTART = F("SETSTART", GP, I, GP); SETWEIGHT = F("SETWEIGHT", GP, I, GP); WRESET = F("WRESET", GP, GS, GS)
def modep(p, sm, wm): return SETWEIGHT(SETSTART(p, z3.IntVal(sm)), z3.IntVal(wm))
class CalcExec(EquiExec):
    equi_contract = False
    def __init__(self, c):
        super().__init__(c.prog()); self.cfg = c
    def fields_of(self, cls):
        if cls == self.cfg.ae: return [(cls, "p", "GP"), (cls, "q", "GQ"), (cls, "rev", "bool"), (cls, "s", "GS"), (cls, "len", "i32"), (cls, "sz", "i32"), (cls, "used", "i32")]
        return super().fields_of(cls)
    def gen_call(self, fn, this, args, st, line):
        n = fn["n"]
        if n in ("setStartMode", "setWeightMode"):      # independent settings; the width also clears the previous word
            self.assumed.add("interface contract: " + n)
            p, q, rev, s = self.g4(st, this); m = self.toint(args[0], "i32"); p0, sm, wm = p, None, None
            while z3.is_app(p0) and p0.decl().name() in ("SETSTART", "SETWEIGHT"):
                if p0.decl().name() == "SETSTART": sm = p0.arg(1) if sm is None else sm
                else: wm = p0.arg(1) if wm is None else wm
                p0 = p0.arg(0)
            if n == "setStartMode": sm = m
            else: wm = m; self.write(st, this.sub("s"), WRESET(z3.Const("anyp", GP), s))
            if sm is not None: p0 = SETSTART(p0, sm)
            if wm is not None: p0 = SETWEIGHT(p0, wm)
            self.write(st, this.sub("p"), p0); return None
        return super().gen_call(fn, this, args, st, line)
    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        c = self.cfg
        if fn["key"].startswith(AG + "::<ctor>(&R:") and fn.get("copy"):
            self.assumed.add("interface contract: copy"); self.write(st, this, self.read(st, args[0])); return None
        if fn["key"].startswith(AG + "::<dtor>"): return None
        if fn.get("cls") == c.ae:
            n = fn["key"].split("(")[0].split("::")[-1]; self.used_contracts.add("contract of %s: %s" % (c.ae.split("<")[0], n))
            if n == "<ctor>":
                p, q, r, s = self.g4(st, args[0]); v = self.toint(args[1], "i32"); inf = self.read(st, args[2]) if isinstance(args[2], LV) else args[2]; sz = self.toint(args[3], "i32")
                self.oblige(st, z3.And(v >= 1, v <= c.vmax, sz >= 1, *[self.toint(inf.f[f], "i32") == x for f, x in c.inforec().f.items()], *([self.tobool(args[4]) == LSB] if c.haslsb else [])), "precondition of the algorithm object: width and configuration@%d" % line, "pre", line)
                for f, x in (("p", p), ("q", q), ("rev", r), ("s", s), ("len", v), ("sz", sz), ("used", z3.IntVal(0))): self.write(st, this.sub(f), x)
                return None
            if n == "<dtor>": return None
            if n == "get_equidist":
                o = self.read(st, this).f; v = self.toint(args[0], "i32"); u = self.toint(o["used"], "i32")
                self.oblige(st, z3.And(v == o["len"], u == 0), "precondition of get_equidist: the width of the object, used once@%d" % line, "pre", line)
                self.write(st, this.sub("used"), u + 1); r = K(o["p"], o["q"], o["rev"], o["s"], v)
                self.oblige(st, o["sz"] == BS(self.p0), "the state size bounds the linear complexity@%d" % line, "pre", line)
                st.assume(r >= 0, r * v * c.E <= o["sz"], r <= o["sz"], r * c.E * 1 <= o["sz"]); st.ghost["lastK"], st.ghost["lastv"], st.ghost["lastp"] = r, v, o["p"]; return r
            raise Unsupported("function " + n)
        return super().call_fn(fn, this, args, st, line, e, virt)
SUMD = F("SUMD", I, I)
def calc(c):
    def run(rep):
        e = CalcExec(c); st = State(); g = e.gen(st, "rand"); p, q, rv, s0 = e.g4(st, g); e.p0 = p
        k = [x for x in e.prog.functions if x.startswith("MTToolBox::" + c.fn + "<")]
        if len(k) != 1: raise AnnotationMismatch("%s: %s" % (c.fn, k))
        k = k[0]; n, m, N = z3.Int("bit_len"), z3.Int("mexp"), z3.Int("veqlen"); st.assume(n >= 1, n <= c.vmax, N >= n, m >= 1, m <= 1 << 20, BS(p) >= 1, BS(p) <= 1 << 21)
        arr = e.new_obj(st, ArrV("i32", N, z3.Const("veq", AII)), "veq"); e.otype[arr.oid] = "[?]i32"
        inc = 2 if c.mode == 64 else 1; top = c.E if c.mode is None else 4
        sms, wms = list(range(0, top, inc)), list(range(inc, top + 1, inc)); pairs = [(a, b) for a in sms for b in wms]
        sw = T; KF = lambda sm, wm, v: K(modep(p, sm, wm), q, rv, T(modep(p, sm, wm), WRESET(z3.Const("anyp", GP), s0)), v) * c.E - (c.E - wm // inc)
        mx = lambda a, b: z3.If(a > b, a, b); mn = lambda a, b: z3.If(a < b, a, b)
        def best(sm, v):
            r = z3.IntVal(-1)
            for wm in wms: r = mx(r, KF(sm, wm, v))
            return r
        def R(v):
            r = z3.IntVal(2 ** 31 - 1)
            for sm in sms: r = mn(r, best(sm, v))
            return r
        e.axioms.append(Schema([I], lambda i: z3.And(z3.Implies(i == 1, SUMD(i) == 0), z3.Implies(z3.And(i >= 1, i <= n), SUMD(i + 1) == SUMD(i) + m / i - RES(i))), "sum of the defects", trig=[("SUMD", (0,))]))
        e.axioms.append(Schema([I], lambda i: RES(i) == R(i), "result in i bits", trig=[("RES", (0,))]))
        iarr = lambda s, lv: e.flush(e.read(s, lv))
        def warr(s):
            out = [lv for nm, lv in s.env.values() if lv.oid in s.store and lv.oid != arr.oid and isinstance(s.store[lv.oid], ArrV) and s.store[lv.oid].et == "i32"]
            if len(out) != 1: raise AnnotationMismatch("array of the widths")
            return iarr(s, out[0])
        def index(cx, init, key="ix", no=()):
            s = cx.st; vs = intvars(e, s)
            if key in cx.g: return e.toint(e.read(s, cx.g[key]), "i32")
            if key + "?" not in cx.g:
                cx.g[key + "?"] = [lv for lv, t in vs if z3.is_int_value(t) and t.as_long() == init]
                if not cx.g[key + "?"]: raise AnnotationMismatch("loop variable")
                return z3.IntVal(init)
            ch = [lv for lv, t in vs if not z3.is_int_value(t) and any(lv.oid == x.oid and lv.path == x.path for x in cx.g[key + "?"]) and (key == "ix" or lv.oid != cx.g["ix"].oid)]
            if key == "ix" and len(ch) > 1: ch = ch[-1:]
            if len(ch) != 1: raise AnnotationMismatch("loop variable")
            cx.g[key] = ch[0]; return e.toint(e.read(s, ch[0]), "i32")
        J = lambda f: FAI(lambda j: z3.Implies(z3.And(j >= 0, j < n), f(j)), "j")
        def inv1(cx):
            i = index(cx, 0); a = iarr(cx.st, arr); return [("index", z3.And(i >= 0, i <= n)), ("initial values", J(lambda j: z3.Implies(j < i, a[j] == 2 ** 31 - 1)))]
        def inv2(cx):
            i = index(cx, 0); a = warr(cx.st); return [("index", z3.And(i >= 0, i <= n)), ("initial values", J(lambda j: z3.Implies(j < i, a[j] == -1)))]
        def inv3(cx):
            s = cx.st
            if "t" not in cx.g: cx.g["t"] = s.ghost.get("nv", 0); s.ghost["nv"] = cx.g["t"] + 1; cx.g["W0"] = warr(s)
            if cx.g["t"] >= len(pairs): raise AnnotationMismatch("more passes than modes")
            sm, wm = pairs[cx.g["t"]]; v = index(cx, 1); a, a0 = warr(s), cx.g["W0"]
            return [("index", z3.And(v >= 1, v <= n + 1)), ("largest value so far", J(lambda j: a[j] == z3.If(j < v - 1, mx(a0[j], KF(sm, wm, j + 1)), a0[j]))), ("within the bound", ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < n, j < v - 1), KF(sm, wm, j + 1) <= m / (j + 1)), "j", trig=lambda apps, sel, bysort: istrig(apps, sel, bysort) + [(z3.simplify(t.arg(4) - 1),) for t in apps.get("K", {}).values()]))]
        def inv4(cx):
            s = cx.st; i = index(cx, 0); a0 = cx.g.setdefault("V0", iarr(s, arr)); a, w = iarr(s, arr), warr(s)
            return [("index", z3.And(i >= 0, i <= n)), ("smallest value so far", J(lambda j: a[j] == z3.If(j < i, mn(a0[j], w[j]), a0[j])))]
        def inv5(cx):
            i = index(cx, 1); x = index(cx, 0, "sum")
            if "fix" not in cx.g:
                cx.g["fix"] = 1; a = iarr(cx.st, arr); e.oblige(cx.st, ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(a[j] == RES(j + 1), a[j] >= -1, a[j] <= 1 << 23)), "j", trig=istrig), "value of every width: minimum over the start positions of the largest over the widths", "post")
                cx.st.assume(Schema([I], lambda j: z3.Implies(z3.And(j >= 0, j < n), z3.And(a[j] == RES(j + 1), a[j] >= -1, a[j] <= 1 << 23)), "values", trig=istrig))
            return [("index", z3.And(i >= 1, i <= n + 1)), ("sum so far", x == SUMD(i)), ("range", z3.And(x >= -(i << 24) if False else x >= -i * (1 << 24), x <= i * (1 << 24)))]
        e.loopspecs[k] = [LoopSpec(inv=f) for f in (inv1, inv2, inv3, inv4, inv5)]
        info = c.infolv(e, st); rep.cover("precondition", st.pc)
        res, exc = e.verify(k, [g, arr.sub(0), n, info, m] + ([LSB] if c.haslsb else []), None, st)
        for s, r in res:
            a = iarr(s, arr); O = lambda f, nm: e.oblige(s, f, nm, "post")
            O(J(lambda j: a[j] == RES(j + 1)), "reported value of every width"); O(e.toint(r, "i32") == SUMD(n + 1), "result is the sum of floor(mexp/v) - value(v)")
            O(J(lambda j: a[j] <= m / (j + 1)), "no value exceeds floor(mexp/v)"); O(z3.And(*[x == y for x, y in zip(e.g4(s, g), (p, q, rv, s0))]), "the given generator is not changed")
            O(z3.BoolVal(s.ghost.get("nv") == len(pairs)), "every start position and width is visited")
        for s, t in exc:
            v, kk, pp = s.ghost.get("lastv"), s.ghost.get("lastK"), s.ghost.get("lastp")
            if v is None: e.oblige(s, z3.BoolVal(False), "no exception before a value is computed", "post"); continue
            e.oblige(s, z3.Or(*[z3.And(pp == modep(p, a, b), KF(a, b, v) > m / v) for a, b in pairs]), "exception only over the theoretical bound", "post")
        if not res: raise Unsupported("no result")
        rep.take(e, k)
    return Task(c.fn + " " + c.name, run)
RES = F("RES", I, I)
def fwd(c):
    """get_equidist forwards"""
    def run(rep):
        e = mkexec(c); st = State(); v, N = width(e, st); this, sz = mkthis(e, st, N); k = c.ae + "::get_equidist(i32)"; cl = []
        def f(cx, con):
            r = z3.Int(fresh_name("main")); cl.append((cx.this, e.toint(cx.args[0], "i32"), r)); return r
        e.contracts[c.ae + "::get_equidist_main(i32)"] = Contract(k, apply=f); res, exc = e.verify(k, [v], this, st)
        for s, r in res: e.oblige(s, z3.And(e.toint(r, "i32") == cl[0][2], cl[0][1] == v, z3.BoolVal(len(cl) == 1 and cl[0][0].oid == this.oid)) if cl else z3.BoolVal(False), "get_equidist is the value of get_equidist_main", "post")
        if exc or not res: raise Unsupported("get_equidist")
        rep.take(e, k)
    return Task("get_equidist " + c.name, run)
def modes(name, E):
    """generate() of the bundled generators in every start position and width; the setters"""
    def run(rep):
        g = gens.BY[name]; ew = 128 // E; e = g.engine(); st = State(); a = g.make(e, st, "g"); k = g.key(e, "generate", ""); rep.cover("any valid state", st.pc)
        pv0 = e.read(st, a.sub("previous")); sm, wm = e.toint(e.read(st, a.sub("start_mode")), "i32"), e.toint(e.read(st, a.sub("weight_mode")), "i32")
        for s, o in gens.runs(e, st, k, [], a):
            o = e.read(s, o) if isinstance(o, LV) else o; Vw = g.V(e, s, a); n = g.n(e, s, a); cur = Vw(C_(0)); pre = Vw(n - 1); pv = e.read(s, a.sub("previous"))
            el = lambda x, i: z3.Extract(ew * i + ew - 1, ew * i, x)
            for q in range(E):
                for w_ in range(1, E + 1):
                    word = [el(pre, q + i) if q + i < E else el(cur, q + i - E) for i in range(E)] if q else [el(cur, i) for i in range(E)]
                    at = " (start %d, width %d)" % (q, w_)
                    e.oblige(s, z3.Implies(z3.And(sm == q, wm == w_), z3.And(*[el(o, i) == (word[i] if i < w_ else el(pv0, i)) for i in range(E)])), "output: the first elements from the start position, the others of the previous step" + at, "post")
                    e.oblige(s, z3.Implies(z3.And(sm == q, wm == w_), z3.And(*[el(pv, i) == word[i] for i in range(E)])), "previous word" + at, "post")
        rep.take(e, k)
        for nm in ("setStartMode", "setWeightMode"):
            e = g.engine(); st = State(); a = g.make(e, st, "g"); k = g.key(e, nm); m = z3.Int("mode"); o = st.copy()
            for s, _ in gens.runs(e, st, k, [m], a):
                f = "start_mode" if nm == "setStartMode" else "weight_mode"
                e.oblige(s, e.toint(e.read(s, a.sub(f)), "i32") == m, nm + " stores the mode", "post")
                for x, h in g.same_params(e, s, a, o, a, skip=(f,)): e.oblige(s, h, "%s leaves %s" % (nm, x), "post")
                e.oblige(s, z3.And(g.array(e, s, a) == g.array(e, o, a), g.cursor(e, s, a) == g.cursor(e, o, a)), nm + " leaves the state array", "post")
                e.oblige(s, e.read(s, a.sub("previous")) == (e.read(o, a.sub("previous")) if f == "start_mode" else bv(0, 128)), nm + (" leaves" if f == "start_mode" else " clears") + " the previous word", "post")
            rep.take(e, k)
    return Task("modes of " + name, run)
C_ = lambda i: z3.IntVal(i)
def setbit_contract(e):
    k = [x for x in e.prog.functions if x.startswith("MTToolBox::setBitOfPos") and "w128" in x.split("(")[1]]
    if len(k) != 1: return
    def f(cx, con):
        p = cx.args[1]; p = z3.simplify(e.toint(p, "i32")); b = e.zw(cx.args[2], "u32", cx.st)
        if not z3.is_int_value(p): raise Unsupported("bit position")
        p = p.as_long(); e.oblige(cx.st, z3.BoolVal(0 <= p < 128), "precondition of setBitOfPos", "pre")
        old = e.read(cx.st, cx.args[0])
        if not z3.is_bv(old): old = z3.BitVec(fresh_name("uninit"), 128)
        parts = ([z3.Extract(127, p + 1, old)] if p < 127 else []) + [z3.Extract(0, 0, b)] + ([z3.Extract(p - 1, 0, old)] if p else [])
        e.write(cx.st, cx.args[0], z3.simplify(z3.Concat(*parts)))
    e.contracts[k[0]] = Contract(k[0], apply=f)
def tasks(tier):
    T_ = []
    for c in CFG: T_ += [get_next(c), next_state(c), ctors(c), add_task(c), ctor(c), main(c), fwd(c), calc(c)]
    T_ += [modes("SFMT", 4), modes("dSFMT", 2), lemmas(128), lean_task("Lattice.lean", ["vec_step", "vec_add", "spn_update", "spn_reindex", "spn_drop", "trunc", "vec_zero", "dimension", "bound"])]
    T_ += [t for t in C01.tasks(tier) if t.name.startswith("w128") and any(t.name.endswith(x) for x in ("calc_1pos", "setBitOfPos", "isZero", "setZero", "getOne"))]
    return T_
