"""C13: reducible search, characteristic polynomial, annihilate."""
from absgen import *
import C12
from C12 import MPf, minpoly_contract
UNITS = ["alg.cpp", "alg128.cpp"]
LEVEL = "proof"
NOTE = "For 32-, 64- and 128-bit words: AlgorithmReducibleRecursionSearch::start by loop invariant over the ghost sequence of tries (as C12), callees minpoly (C08) and hasFactorOfDegree (C10) by contract; calcCharacteristicPolynomial unrolled completely (its bound is the word size; the 128-bit instance in the thorough tier) with minpoly and LCM by contract; annihilate by loop invariant 'rg holds the partial sum of c_i*T^i, the copy is the i-fold step', for every polynomial."
ASSUMPTIONS = ["bitSize() and getMexp() do not depend on the parameter values", "bitSize() < 2*getMexp() (so hasFactorOfDegree is within its precondition)", "the minimal polynomial has degree at most bitSize()", "the counter does not overflow"]
TRUSTED = ["contract of minpoly (C08)", "contract of hasFactorOfDegree (C10)", "contract of LCM (C08)", "NTL coeff/deg"]
P = lambda w=32: frontend.load("alg128.cpp" if w == 128 else "alg.cpp")
WT = ((32, "unsigned int"), (64, "unsigned long"), (128, "MTToolBox::w128_t"))
HASF = F("hasfactor", Poly, I, B); FAC = F("factor", Poly, I, Poly)

def factor_contract(e):
    def ap(c, con):
        f = e.read(c.st, c.args[0]); d = e.toint(c.args[1], "i64"); 
        r = z3.Bool(fresh_name("hasf")); f2 = z3.Const(fresh_name("fac"), Poly); inr = DEG(f) < 2 * d
        c.st.assume(z3.Implies(inr, r == HASF(f, d)), z3.Implies(z3.And(inr, r), z3.And(f2 == FAC(f, d), DEG(f2) == d)))
        e.write(c.st, c.args[0], f2); return r
    return Contract("MTToolBox::hasFactorOfDegree(&R:NTL::GF2X,i64)", apply=ap)
def lcm_contract(e):
    def ap(c, con):
        x, y = (e.read(c.st, c.args[i]) for i in (1, 2)); e.write(c.st, c.args[0], LCMp(x, y)); return None
    return Contract("MTToolBox::LCM(&R:NTL::GF2X,&R:NTL::GF2X,&R:NTL::GF2X)", apply=ap)

def search_task(w, U):
    C = "MTToolBox::AlgorithmReducibleRecursionSearch<%s>" % U
    def run(rep):
        p = P(w); e = AbsExec(p)
        k = p.find(C + "::start(i32)")
        for con in (minpoly_contract(e, w, U), factor_contract(e)): e.contracts[con.key] = con
        st = State(); g = e.gen(st, "g"); pg = e.pgen(st, "pg")
        this = mkobj(e, st, C)
        cnt0 = z3.Int("count0"); poly0 = z3.Const("poly0_", Poly); tc = z3.Int("try_count")
        for f, v in (("rand", g), ("baseGenerator", pg), ("poly", poly0), ("irreducible", z3.Const("irr0", Poly)), ("count", cnt0)): e.write(st, this.sub(f), v)
        st.assume(cnt0 >= 0, cnt0 <= 1 << 61, tc >= -(1 << 31), tc < 1 << 31)
        p0, q0, r0, s0 = e.g4(st, g); pos0 = e.read(st, pg.sub("pos"))
        Gp, Gq, Gs, Gm = F("g_p", I, GP), F("g_q", I, GQ), F("g_s", I, GS), F("g_poly", I, Poly)
        n = BS(p0); me = MEXP(p0); st.assume(n >= 0, n <= 1 << 22, me >= 1, me <= n, n < 2 * me)
        def seqax(i):
            a = pos0 + i; pn = SETUP(Gp(i), Gs(i), a); sn = SEED(w)(pn, SETUPS(Gp(i), Gs(i), a), bv(1, w)); qn = SETUPQ(Gp(i), Gq(i), a)
            return z3.Implies(i >= 0, z3.And(Gp(i + 1) == pn, Gq(i + 1) == qn, Gm(i) == MPf(pn, qn, r0, sn, 0, BS(pn)), Gs(i + 1) == STf(pn, sn, 2 * BS(pn)), BS(pn) == n, MEXP(pn) == me, DEG(Gm(i)) <= n,
                z3.Implies(HASF(Gm(i), me), DEG(Gm(i)) >= me)))
        e.axioms.append(Schema([I], seqax, "search sequence", trig=[("g_p", (0,))]))
        st.assume(Gp(0) == p0, Gq(0) == q0, Gs(0) == s0)
        def acc(i): return HASF(Gm(i), me)
        rep.cover("precondition", st.pc)
        def parts(s):
            return e.g4(s, g), e.read(s, pg.sub("pos")) - pos0, e.toint(e.read(s, this.sub("count")), "i64"), e.read(s, this.sub("poly")), e.read(s, this.sub("irreducible"))
        def inv(c):
            i = e.toint(c.var("i"), "i32"); (pp, qq, rr, ss), d, cnt, po, ir = parts(c.st)
            return [("tries counted", z3.And(i >= 0, d == i, z3.Implies(tc >= 0, i <= tc), z3.Implies(tc < 0, i == 0))), ("counter", cnt == cnt0 + d),
                    ("generator follows the sequence", z3.And(pp == Gp(d), qq == Gq(d), rr == r0, ss == Gs(d))),
                    ("all so far rejected", ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < d), z3.Not(acc(j))), "j", trig=[("g_poly", (0,))]))]
        e.loopspecs[k] = [LoopSpec(inv=inv, variant=lambda c: tc - e.toint(c.var("i"), "i32"))]
        e.separate_returns = True
        res, exc = e.verify(k, [tc], this, st)
        for s, v in res:
            v = v if is_z3(v) else z3.BoolVal(bool(v))
            (pp, qq, rr, ss), d, cnt, po, ir = parts(s)
            last = d - 1
            e.oblige(s, z3.Implies(v, z3.And(d >= 1, d <= tc, acc(last))), "true: the last drawn parameter has an irreducible factor of degree mexp, within the tries", "post")
            e.oblige(s, ForallGoal([I], lambda j: z3.Implies(z3.And(v, j >= 0, j < d - 1), z3.Not(acc(j))), "j"), "true: no earlier parameter had one", "post")
            e.oblige(s, z3.Implies(v, z3.And(po == Gm(last), ir == FAC(Gm(last), me), pp == Gp(d), qq == Gq(d), ss == Gs(d))), "true: factor, unfactored polynomial and generator are those of this try", "post")
            e.oblige(s, z3.Implies(z3.Not(v), d == z3.If(tc > 0, tc, 0)), "false: exactly try_count parameters drawn", "post")
            e.oblige(s, ForallGoal([I], lambda j: z3.Implies(z3.And(z3.Not(v), j >= 0, j < d), z3.Not(acc(j))), "j"), "false: no parameter had one", "post")
            e.oblige(s, cnt == cnt0 + d, "the counter counts every drawn parameter", "post")
            for f, o in (("rand", g), ("baseGenerator", pg)): e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub(f)), o), "configuration unchanged: " + f, "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("reducible search u%d" % w, run, weight=5)

def ctor_task(w, U):
    C = "MTToolBox::AlgorithmReducibleRecursionSearch<%s>" % U
    def run(rep):
        p = P(w); e = AbsExec(p)
        k = [x for x in p.functions if x.startswith(C + "::<ctor>(&R:MTToolBox::Red")][0]
        st = State(); g = e.gen(st, "g"); pg = e.pgen(st, "pg"); this = mkobj(e, st, C, uninit=True)
        res, exc = e.verify(k, [g, pg], this, st)
        for s, v in res:
            e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub("rand")), g), "generator", "post")
            e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub("baseGenerator")), pg), "parameter source", "post")
            e.oblige(s, e.toint(e.read(s, this.sub("count")), "i64") == 0, "counter starts at zero", "post")
        if not res or exc: raise Unsupported("no result")
        rep.take(e, k)
        for nm, f in (("getCharacteristicPolynomial()", "poly"), ("getIrreducibleFactor()c", "irreducible"), ("getCount()c", "count")):
            e = AbsExec(p); st = State(); this = mkobj(e, st, C)
            e.write(st, this.sub("poly"), z3.Const("pp", Poly)); e.write(st, this.sub("irreducible"), z3.Const("ii", Poly)); e.write(st, this.sub("count"), z3.Int("cc"))
            k = [x for x in p.functions if x.rstrip("c") == (C + "::" + nm).rstrip("c")][0]; want = e.read(st, this.sub(f))
            res, exc = e.verify(k, [], this, st)
            for s, v in res:
                while isinstance(v, LV): v = e.read(s, v)
                e.oblige(s, v == want, nm + " returns the field", "post")
            if not res or exc: raise Unsupported("no result")
            rep.take(e, k)
    return Task("constructor and getters u%d" % w, run)

def char_task(w, U):
    def run(rep):
        p = P(w); e = AbsExec(p); e.separate_returns = True
        k = p.find("MTToolBox::calcCharacteristicPolynomial<%s>(*R:MTToolBox::ReducibleGenerator<%s>,&R:NTL::GF2X)" % (U, U))
        for con in (minpoly_contract(e, w, U), lcm_contract(e)): e.contracts[con.key] = con
        st = State(); g = e.gen(st, "g"); po = z3.Const("poly_in", Poly)
        poly = e.new_obj(st, po, "poly"); e.otype[poly.oid] = "R:NTL::GF2X"
        p0, q0, r0, s0 = e.g4(st, g); n = BS(p0)
        Ls, Ss = [po], [s0]
        for i in range(w):
            Ls.append(LCMp(Ls[-1], MPf(p0, q0, r0, Ss[-1], i, n))); Ss.append(STf(p0, Ss[-1], 2 * n))
        res, exc = e.verify(k, [g, poly], None, st)
        for s, v in res:
            # number of bit positions used on this path = number of calls of minpoly
            pf = e.read(s, poly); m = [i for i, x in enumerate(Ls) if x.eq(pf)]
            if not m: e.oblige(s, z3.BoolVal(False), "result is an LCM of minimal polynomials of bits 0,1,...", "post"); continue
            i = m[0]
            e.oblige(s, pf == Ls[i], "result is the LCM of the argument and the minimal polynomials of bits 0..k-1", "post")
            if i: e.oblige(s, z3.And([DEG(Ls[j]) != n for j in range(i)]), "no shorter LCM had full degree", "post")
            if i < w: e.oblige(s, DEG(Ls[i]) == n, "stops only at full degree or after all bits", "post")
            pp, qq, rr, ss = e.g4(s, g)
            e.oblige(s, z3.And(pp == p0, qq == q0, rr == r0, ss == Ss[i]), "the generator was only stepped", "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("calcCharacteristicPolynomial u%d" % w, run, weight=3)

ACC = F("ACC", GP, Poly, GS, I, GS)
def anni_task(w, U):
    def run(rep):
        p = P(w); e = AbsExec(p)
        k = p.find("MTToolBox::annihilate<%s>(*R:MTToolBox::EquidistributionCalculatable<%s>,&R:NTL::GF2X)" % (U, U))
        st = State(); g = e.gen(st, "rg"); f = z3.Const("f", Poly); poly = e.new_obj(st, f, "poly"); e.otype[poly.oid] = "R:NTL::GF2X"
        p0, q0, r0, s0 = e.g4(st, g)
        st.assume(DEG(f) >= -1, DEG(f) <= 1 << 24)
        e.axioms.append(Schema([I], lambda i: z3.And(ACC(p0, f, s0, 0) == ZERO(p0, s0), z3.Implies(i >= 0, ACC(p0, f, s0, i + 1) == z3.If(COEFF(f, i), ADD(p0, ACC(p0, f, s0, i), STf(p0, s0, i)), ACC(p0, f, s0, i)))), "partial sums", trig=[("ACC", (3,))]))
        st.assume(ACC(p0, f, s0, 0) == ZERO(p0, s0))
        def clones(s): return [LV(o) for o in s.store if e.otype.get(o) == "R:" + GENC and o != g.oid]
        def inv(c):
            i = e.toint(c.var("i"), "i32"); o = clones(c.st)
            if len(o) != 1: raise Unsupported("annihilate keeps %d copies" % len(o))
            cp, cq, cr, cs = e.g4(c.st, o[0]); pp, qq, rr, ss = e.g4(c.st, g)
            return [("counter", z3.And(i >= 0, z3.If(DEG(f) >= 0, i <= DEG(f) + 1, i == 0))), ("sum so far", z3.And(pp == p0, qq == q0, rr == r0, ss == ACC(p0, f, s0, i))), ("the copy is the i-fold step", z3.And(cp == p0, cs == STf(p0, s0, i)))]
        e.loopspecs[k] = [LoopSpec(inv=inv, variant=lambda c: DEG(f) + 1 - e.toint(c.var("i"), "i32"))]
        res, exc = e.verify(k, [g, poly], None, st)
        for s, v in res:
            pp, qq, rr, ss = e.g4(s, g)
            e.oblige(s, ss == ACC(p0, f, s0, z3.If(DEG(f) >= 0, DEG(f) + 1, 0)), "state is the sum of c_i times the i-fold step, i = 0..deg", "post")
            e.oblige(s, z3.And(pp == p0, qq == q0, rr == r0), "parameters, tempering and output mode unchanged", "post")
            e.oblige(s, e.read(s, poly) == f, "polynomial unchanged", "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("annihilate u%d" % w, run)

def tasks(tier):
    return [f(w, U) for w, U in WT for f in (search_task, ctor_task, char_task, anni_task) if f is not char_task or w < 128 or tier == "thorough"]
