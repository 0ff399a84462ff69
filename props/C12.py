"""C12: AlgorithmRecursionSearch."""
from absgen import *
UNITS = ["alg.cpp"]
LEVEL = "proof"
NOTE = "AlgorithmRecursionSearch<uint32_t/uint64_t>::start for every generator, parameter source, primitivity test and try count: loop invariant over the ghost sequence of parameters, states and polynomials (try i uses source value i, the state seeded with one, the minimal polynomial of that state); callees minpoly (contract proved in C08) and the primitivity object (contract: C09) by contract. Constructors, getMinPoly and getCount under contract too."
ASSUMPTIONS = ["bitSize() does not depend on the parameter values and is at most 2^22", "the primitivity object is a function of (degree, polynomial) for its configuration", "the counter does not overflow (fewer than 2^62 tries)"]
TRUSTED = ["contract of minpoly (C08)", "contract of AlgorithmPrimitivity::operator() (C09)"]
P = lambda: frontend.load("alg.cpp")
MPf = F("MINPOLY", GP, GQ, B, GS, I, I, Poly)
PRIM = F("primitive", I, Poly, B)

def minpoly_contract(e, w, U):
    def ap(c, con):
        st = c.st; g = c.args[1]; p, q, r, s = e.g4(st, g)
        pos = e.toint(c.args[2], "i32"); size = e.toint(c.args[3], "i32")
        n = z3.simplify(z3.If(size <= 0, BS(p), size))
        e.write(st, c.args[0], MPf(p, q, r, s, pos, n))
        e.write(st, g.sub("s"), STf(p, s, 2 * n))
        return None
    return Contract("MTToolBox::minpoly<%s>(&R:NTL::GF2X,&R:MTToolBox::AbstractGenerator<%s>,i32,i32)" % (U, U),
        requires=lambda c: [("bit position lies in the word", z3.And(e.toint(c.args[2], "i32") >= 0, e.toint(c.args[2], "i32") < w))], apply=ap)
def prim_contract(e):
    return Contract("MTToolBox::AlgorithmPrimitivity::operator()(i32,&R:NTL::GF2X)c", apply=lambda c, con: PRIM(e.toint(c.args[0], "i32"), e.read(c.st, c.args[1])))

def search_task(w, U):
    C = "MTToolBox::AlgorithmRecursionSearch<%s>" % U
    def run(rep):
        p = P(); e = AbsExec(p)
        k = p.find(C + "::start(i32)")
        for con in (minpoly_contract(e, w, U), prim_contract(e)): e.contracts[con.key] = con
        st = State(); g = e.gen(st, "g"); pg = e.pgen(st, "pg")
        this = mkobj(e, st, C)
        prim = e.new_obj(st, Rec("MTToolBox::AlgorithmPrimitivity", {}), "prim"); e.otype[prim.oid] = "R:MTToolBox::AlgorithmPrimitivity"
        cnt0 = z3.Int("count0"); poly0 = z3.Const("poly0_", Poly); tc = z3.Int("try_count")
        e.write(st, this.sub("rand"), g); e.write(st, this.sub("baseGenerator"), pg); e.write(st, this.sub("isPrime"), prim)
        e.write(st, this.sub("poly"), poly0); e.write(st, this.sub("count"), cnt0)
        st.assume(cnt0 >= 0, cnt0 <= 1 << 61, tc >= -(1 << 31), tc < 1 << 31)
        p0, q0, r0, s0 = e.g4(st, g); pos0 = e.read(st, pg.sub("pos"))
        # ghost sequences: parameters/temperings/states before try i, polynomial of try i
        Gp, Gq, Gs, Gm = F("g_p", I, GP), F("g_q", I, GQ), F("g_s", I, GS), F("g_poly", I, Poly)
        one = bv(1, w)
        def seqax(i):
            a = pos0 + i; pn = SETUP(Gp(i), Gs(i), a); sn = SEED(w)(pn, SETUPS(Gp(i), Gs(i), a), one); qn = SETUPQ(Gp(i), Gq(i), a)
            return z3.Implies(i >= 0, z3.And(Gp(i + 1) == pn, Gq(i + 1) == qn, Gm(i) == MPf(pn, qn, r0, sn, 0, BS(pn)), Gs(i + 1) == STf(pn, sn, 2 * BS(pn)), BS(pn) == BS(p0)))
        e.axioms.append(Schema([I], seqax, "search sequence", trig=[("g_p", (0,))]))
        st.assume(Gp(0) == p0, Gq(0) == q0, Gs(0) == s0)
        e.axioms.append(Schema([Poly], lambda x: z3.And(DEG(x) >= -1, DEG(x) <= 1 << 24), "degree range", trig=[("deg", (0,))]))
        n = BS(p0); st.assume(n >= 0, n <= 1 << 22)
        def acc(i): return z3.And(DEG(Gm(i)) == n, PRIM(n, Gm(i)))
        rep.cover("precondition", st.pc)
        def parts(s):
            r = e.g4(s, g); return r, e.read(s, pg.sub("pos")) - pos0, e.toint(e.read(s, this.sub("count")), "i64"), e.read(s, this.sub("poly"))
        def inv(c):
            i = e.toint(c.var("i"), "i32"); (pp, qq, rr, ss), d, cnt, po = parts(c.st)
            return [("tries counted", z3.And(i >= 0, d == i, z3.Implies(tc >= 0, i <= tc), z3.Implies(tc < 0, i == 0))), ("counter", cnt == cnt0 + d),
                    ("generator follows the sequence", z3.And(pp == Gp(d), qq == Gq(d), rr == r0, ss == Gs(d))),
                    ("polynomial of the last try", z3.If(d == 0, po == poly0, po == Gm(d - 1))),
                    ("all so far rejected", ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < d), z3.Not(acc(j))), "j", trig=[("g_poly", (0,))]))]
        e.loopspecs[k] = [LoopSpec(inv=inv, variant=lambda c: tc - e.toint(c.var("i"), "i32"))]
        e.separate_returns = True
        res, exc = e.verify(k, [tc], this, st)
        for s, v in res:
            v = v if is_z3(v) else z3.BoolVal(bool(v))
            (pp, qq, rr, ss), d, cnt, po = parts(s)
            last = d - 1
            e.oblige(s, z3.Implies(v, z3.And(d >= 1, d <= tc, acc(last))), "true: the last drawn parameter is accepted, within the tries", "post")
            e.oblige(s, z3.Implies(v, ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < d - 1), z3.Not(acc(j))), "j")) if False else ForallGoal([I], lambda j: z3.Implies(z3.And(v, j >= 0, j < d - 1), z3.Not(acc(j))), "j"), "true: no earlier parameter was acceptable", "post")
            e.oblige(s, z3.Implies(v, z3.And(po == Gm(last), pp == Gp(d), qq == Gq(d), ss == Gs(d))), "true: reported polynomial and generator are those of this try", "post")
            e.oblige(s, z3.Implies(z3.Not(v), d == z3.If(tc > 0, tc, 0)), "false: exactly try_count parameters drawn", "post")
            e.oblige(s, ForallGoal([I], lambda j: z3.Implies(z3.And(z3.Not(v), j >= 0, j < d), z3.Not(acc(j))), "j"), "false: every parameter was rejected", "post")
            e.oblige(s, cnt == cnt0 + d, "the counter counts every drawn parameter", "post")
            e.oblige(s, rr == r0, "output mode unchanged", "post")
            for f, o in (("rand", g), ("baseGenerator", pg), ("isPrime", prim)):
                e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub(f)), o), "configuration unchanged: " + f, "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("search u%d" % w, run)

def glob(e, name):
    """the library's MersennePrimitivity object"""
    def hook(d, st, oid):
        if d["n"] != name: return None
        if oid not in st.store:
            st.store[oid] = Rec("MTToolBox::AlgorithmPrimitivity", {"name": name}); e.otype[oid] = "R:MTToolBox::AlgorithmPrimitivity"
        return LV(oid)
    e.global_hook = hook

def ctor_task(w, U):
    C = "MTToolBox::AlgorithmRecursionSearch<%s>" % U
    def run(rep):
        for k in [x for x in P().functions if x.startswith(C + "::<ctor>(&R:MTToolBox::Rec")]:
            p = P(); e = AbsExec(p); glob(e, "MersennePrimitivity")
            st = State(); g = e.gen(st, "g"); pg = e.pgen(st, "pg"); this = mkobj(e, st, C, uninit=True)
            prim = e.new_obj(st, Rec("MTToolBox::AlgorithmPrimitivity", {}), "prim"); e.otype[prim.oid] = "R:MTToolBox::AlgorithmPrimitivity"
            three = "AlgorithmPrimitivity" in k.split("(")[1]
            res, exc = e.verify(k, [g, pg] + ([prim] if three else []), this, st)
            for s, v in res:
                e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub("rand")), g), "generator", "post")
                e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub("baseGenerator")), pg), "parameter source", "post")
                e.oblige(s, e.toint(e.read(s, this.sub("count")), "i64") == 0, "counter starts at zero", "post")
                ip = e.read(s, this.sub("isPrime"))
                if three: e.oblige(s, e.ptr_cmp("==", ip, prim), "given primitivity test", "post")
                else: e.oblige(s, bool(isinstance(ip, LV) and getattr(e.read(s, ip), "f", {}).get("name") == "MersennePrimitivity"), "default: Mersenne primitivity", "post")
            if not res or exc: raise Unsupported("no result")
            rep.take(e, k)
        for nm, f in (("getMinPoly()c", "poly"), ("getCount()c", "count")):
            p = P(); e = AbsExec(p); st = State(); this = mkobj(e, st, C)
            e.write(st, this.sub("poly"), z3.Const("pp", Poly)); e.write(st, this.sub("count"), z3.Int("cc"))
            k = p.find(C + "::" + nm); want = e.read(st, this.sub(f))
            res, exc = e.verify(k, [], this, st)
            for s, v in res:
                while isinstance(v, LV): v = e.read(s, v)
                e.oblige(s, v == want, nm + " returns the field", "post")
            if not res or exc: raise Unsupported("no result")
            rep.take(e, k)
    return Task("constructors and getters u%d" % w, run)

def tasks(tier):
    return [f(w, U) for w, U in ((32, "unsigned int"), (64, "unsigned long")) for f in (search_task, ctor_task)]
