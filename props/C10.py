"""C10: hasFactorOfDegree."""
from absgen import *
from leanlem import lean_task, joined
UNITS = ["period.cpp"]
LEVEL = "proof"
NOTE = "hasFactorOfDegree for every non-zero polynomial and every degree d with deg f < 2d: outer and inner loop invariants (an arbitrary irreducible G of degree d divides the argument iff it divides the current polynomial; no irreducible factor of degree below m is left; t = x^(2^m)+x modulo the current polynomial; the current polynomial divides the argument), termination by m < deg and decreasing degree. The facts about GF(2)[x] used (an irreducible g divides x^(2^m)-x iff deg g | m, cofactors, quotients, congruences) are proved in Lean/Mathlib (lean/Factor.lean), re-checked on every run."
ASSUMPTIONS = ["NTL GCD, /, %, *, + over GF(2) are the ring operations; IterIrredTest decides irreducibility", "deg f < 2^24"]
TRUSTED = ["NTL GF2X arithmetic", "Lean 4 kernel and Mathlib for lean/Factor.lean"]
DV = F("divides", Poly, Poly, B); CONG = F("cong", Poly, I, Poly, B); CONGX = F("congx", Poly, I, Poly, B); NF = F("nf", I, Poly, B)
LEM = ["cong_start", "congx_of_cong", "cong_dvd", "congx_dvd", "cong_sq", "cong_mod", "congx_mod", "congx_irr", "nf_start", "nf_dvd", "nf_step", "nf_deg", "nf_cofactor", "same_degree", "div_facts", "irr_div"]
ONE = z3.IntVal(1)
X1 = MONO(ONE, ONE); X2 = MONO(z3.IntVal(2), ONE)
def P(): return frontend.load("period.cpp")

def laws(e, G, f0):
    A = lambda sorts, fn, name, *pats: e.axioms.append(Schema(sorts, fn, name, trig=joined(*pats)))
    NZ = lambda p: DEG(p) >= 0
    imp = z3.Implies
    A([Poly, Poly], lambda p, t: imp(z3.Or(NZ(p), NZ(t)), z3.And(NZ(GCDp(p, t)), DV(GCDp(p, t), p), DV(GCDp(p, t), t), imp(z3.And(DV(G, p), DV(G, t)), DV(G, GCDp(p, t))), imp(DV(G, GCDp(p, t)), z3.And(DV(G, p), DV(G, t))), imp(DEG(GCDp(p, t)) < 1, ISONE(GCDp(p, t))), imp(ISONE(GCDp(p, t)), DEG(GCDp(p, t)) == 0))), "gcd", ("gcd", ("p", "t")))
    A([Poly, Poly], lambda p, a: imp(z3.And(NZ(p), DV(a, p)), z3.And(NZ(DIVp(p, a)), DEG(DIVp(p, a)) == DEG(p) - DEG(a), DV(DIVp(p, a), p), DV(G, p) == z3.Or(DV(G, a), DV(G, DIVp(p, a))), imp(DV(p, f0), DV(DIVp(p, a), f0)))), "div_facts irr_div", ("quo", ("p", "a")))
    for C, n in ((CONG, "cong"), (CONGX, "congx")):
        A([Poly, I, Poly, Poly], (lambda C: lambda t, m, p, a: imp(z3.And(C(t, m, p), NZ(p), DV(a, p)), C(t, m, DIVp(p, a))))(C), n + "_dvd", (n, ("t", "m", "p")), ("quo", ("p", "a")))
        A([Poly, I, Poly], (lambda C: lambda t, m, p: imp(C(t, m, p), C(MODp(t, p), m, p)))(C), n + "_mod", (n, ("t", "m", "p")), ("rem", ("t", "p")))
    e.axioms.append(Schema([Poly, I, Poly], lambda t, m, p: [imp(CONG(t, m, p), z3.And(CONGX(ADDp(X1, t), m, p), CONGX(ADDp(t, X1), m, p)))], "congx_of_cong", trig=[("cong", (0, 1, 2))]))
    e.axioms.append(Schema([Poly, I, Poly], lambda t, m, p: imp(CONG(t, m, p), CONG(MULp(t, t), m + 1, p)), "cong_sq", trig=[("cong", (0, 1, 2))])); e.axioms[-1].rounds = 2
    A([I, Poly, Poly], lambda m, p, a: imp(z3.And(NF(m, p), NZ(p), DV(a, p)), NF(m, DIVp(p, a))), "nf_dvd", ("nf", ("m", "p")), ("quo", ("p", "a")))
    # nf_step at the gcd test
    A([Poly, I, Poly], lambda t, m, p: imp(z3.And(m >= 1, NF(m - 1, p), CONGX(t, m, p), z3.Or(ISONE(GCDp(p, t)), ISONE(GCDp(t, p)))), NF(m, p)), "nf_step", ("congx", ("t", "m", "p")))
    A([I, Poly], lambda m, p: z3.And(imp(z3.And(NF(m, p), DEG(p) >= 1), m < DEG(p)), imp(z3.And(NF(m, p), NZ(p), DV(G, p), DEG(G) < DEG(p)), m < DEG(p) - DEG(G))), "nf_deg nf_cofactor", ("nf", ("m", "p")))
    # an irreducible G | p of degree d: G | t iff d | m; for 1 <= m < d it does not
    A([Poly, I, Poly], lambda t, m, p: imp(z3.And(CONGX(t, m, p), DV(G, p), m >= 1, m < DEG(G)), z3.Not(DV(G, t))), "congx_irr", ("congx", ("t", "m", "p")))
    e.axioms.append(Schema([Poly], lambda p: z3.And(DEG(p) >= -1, imp(z3.And(NZ(p), DV(G, p)), DEG(G) <= DEG(p)), imp(z3.And(NZ(p), DV(G, p), DEG(G) == DEG(p)), z3.And(G == p, IRRED(p))), imp(IRRED(p), z3.And(DEG(p) >= 1))), "same_degree", trig=[("deg", (0,)), ("irreducible", (0,))]))
    return A

def t_factor(rep):
    p = P(); e = AbsExec(p); k = p.find("MTToolBox::hasFactorOfDegree")
    st = State(); f0 = z3.Const("f0", Poly); lv = e.new_obj(st, f0, "poly"); e.otype[lv.oid] = "R:NTL::GF2X"
    d = z3.Int("degree"); G = z3.Const("G", Poly)
    st.assume(d >= 1, d < 1 << 24, DEG(f0) >= 0, DEG(f0) < 2 * d, DEG(f0) <= 1 << 24)
    st.assume(IRRED(G), DEG(G) == d)          # an arbitrary irreducible polynomial of degree d
    laws(e, G, f0)
    st.assume(DV(f0, f0), NF(z3.IntVal(0), f0), CONG(X2, ONE, f0), DEG(X1) == 1, DEG(X2) == 2)
    rep.cover("precondition", st.pc)
    def V(c, n): return e.read(c.st, c.var(n)) if isinstance(c.var(n), LV) else c.var(n)
    def common(c):
        po = e.read(c.st, lv); m = e.toint(c.var("m"), "i32")
        return po, m, [("an irreducible of degree d divides it iff it divides the argument", DV(G, f0) == DV(G, po)), ("it divides the argument", DV(po, f0)), ("at least degree d is left", DEG(po) >= d),
                ("no larger than the argument", DEG(po) <= DEG(f0)), ("step counter", z3.And(m >= 1, m <= DEG(f0) + 1)), ("no factor of degree below m", NF(m - 1, po)), ("power", CONG(V(c, "t2m"), m, po)), ("power plus x", CONGX(V(c, "t"), m, po))]
    def ahead(c):
        """gcds already computed when the loop is entered: they still are the gcds of the current polynomials"""
        out = []; po, t = e.read(c.st, lv), V(c, "t"); pe, te = e.read(c.entry, lv), e.read(c.entry, c.varlv("t"))
        for vid, (nm, l) in c.entry.env.items():
            if vid not in c.st.env or nm == "t": continue
            try: g0, g1 = e.read(c.entry, l), e.read(c.st, c.st.env[vid][1])
            except Exception: continue
            if z3.is_expr(g0) and z3.is_expr(g1) and g0.sort() == Poly and g1.sort() == Poly and (g0.eq(GCDp(pe, te)) or g0.eq(GCDp(te, pe))): out.append(("gcd at the loop head (%s)" % nm, g1 == (GCDp(po, t) if g0.eq(GCDp(pe, te)) else GCDp(t, po))))
        return out
    e.loopspecs[k] = [LoopSpec(inv=lambda c: common(c)[2], variant=lambda c: DEG(f0) + 1 - e.toint(c.var("m"), "i32")),
                      LoopSpec(inv=lambda c: common(c)[2] + [("outer test", DEG(e.read(c.st, lv)) >= d)] + ahead(c), variant=lambda c: DEG(e.read(c.st, lv)), force=True)]
    e.separate_returns = True
    res, exc = e.verify(k, [lv, d], None, st)
    for s, v in res:
        v = v if is_z3(v) else z3.BoolVal(bool(v))
        po = e.read(s, lv)
        e.oblige(s, z3.Implies(v, z3.And(IRRED(po), DEG(po) == d, DV(po, f0))), "true: the argument now holds an irreducible factor of degree d", "post")
        e.oblige(s, z3.Implies(z3.Not(v), z3.Not(DV(G, f0))), "false: no irreducible polynomial of degree d divides the argument", "post")
        e.oblige(s, z3.Implies(z3.And(v, DV(G, f0)), G == po), "true: it is the only one", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)

def tasks(tier): return [Task("hasFactorOfDegree", t_factor, weight=10), lean_task("Factor.lean", LEM)]
