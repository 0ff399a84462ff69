"""C15: sums of defects, the theoretical bound, the reducible variant."""
from lattasks import *
import C14
UNITS = ["rt.cpp", "util.cpp"]
LEVEL = "proof"
NOTE = "Sums of get_all_equidist / get_equidist by loop invariant (sum so far = sum of floor(size/v) - k(v)) for every width and state size; the state size field (mexp when given) from the constructor; get_equidist_main returns only counts within the bound and throws otherwise. AlgorithmReducibleEquidistribution: the object it builds holds the state projected by annihilate(chi/factor) with mexp as state size; its two getters forward. calcCharacteristicPolynomial and annihilate by contract (C13)."
ASSUMPTIONS = C14.ASSUMPTIONS
TRUSTED = C14.TRUSTED
BOUNDED = C14.BOUNDED
CHARS = F("CHARS", GP, GQ, B, GS, Poly, GS); CHARP = F("CHARP", GP, GQ, B, GS, Poly, Poly); ANNI = F("ANNI", GP, GS, Poly, GS)
class RExec(EquiExec):
    def equi_call(self, fn, this, args, st, line):
        n = fn["n"]
        if n in ("get_all_equidist", "get_equidist"):
            r = z3.Int(fresh_name(n)); self.calls = getattr(self, "calls", []) + [(n, this, args, r)]; return r
        return super().equi_call(fn, this, args, st, line)
def reducible(w, U):
    G = "MTToolBox::AbsGen<%s>" % U; C = "MTToolBox::AlgorithmReducibleEquidistribution<%s, %s>" % (U, G); A = "MTToolBox::AlgorithmEquidistribution<%s>" % U
    def run(rep):
        p = frontend.load("rt.cpp"); e = RExec(p); st = State(); g = e.gen(st, "rg"); this = mkobj(e, st, C, uninit=True); p0, q0, r0, s0 = e.g4(st, g)
        def charp(c, con):
            s = c.st; gg = c.args[0]; a, b, r, x = e.g4(s, gg); f = e.read(s, c.args[1])
            e.write(s, c.args[1], CHARP(a, b, r, x, f)); e.write(s, gg.sub("s"), CHARS(a, b, r, x, f))
        kk = p.find("MTToolBox::calcCharacteristicPolynomial<%s>(*R:MTToolBox::ReducibleGenerator<%s>,&R:NTL::GF2X)" % (U, U)); e.contracts[kk] = Contract(kk, apply=charp)
        def ann(c, con):
            s = c.st; gg = c.args[0]; a, b, r, x = e.g4(s, gg); e.write(s, gg.sub("s"), ANNI(a, x, e.read(s, c.args[1])))
        kk = p.find("MTToolBox::annihilate<%s>(*R:MTToolBox::EquidistributionCalculatable<%s>,&R:NTL::GF2X)" % (U, U)); e.contracts[kk] = Contract(kk, apply=ann)
        f = z3.Const("factor", Poly); fl = e.new_obj(st, f, "irreducibleFactor"); e.otype[fl.oid] = "R:NTL::GF2X"; v, m = z3.Int("bits"), z3.Int("mexp"); st.assume(v >= 1, v <= w, m >= 1); rep.cover("precondition", st.pc)
        k = [x for x in p.functions if x.startswith(C + "::<ctor>(&R:") and len(p.functions[x]["ps"]) == 4][0]
        st.assume(z3.Not(z3.BoolVal(False)), DEG(f) >= 0)
        res, exc = e.verify(k, [g, fl, v, m], this, st)
        for s, _ in res:
            a = e.read(s, e.read(s, this.sub("ae"))); one = MONO(z3.IntVal(0), z3.IntVal(1)); O = lambda f, n: e.oblige(s, f, n, "post")
            if not isinstance(a, Rec) or "len" not in a.f: raise Unsupported("equidistribution object")
            O(a.f["s"] == ANNI(p0, CHARS(p0, q0, r0, s0, one), DIVp(CHARP(p0, q0, r0, s0, one), f)), "the state is projected to the factor's subspace")
            O(z3.And(a.f["p"] == p0, a.f["q"] == q0, a.f["rev"] == r0), "parameters, tempering and output mode are the given generator's")
            O(z3.And(e.toint(a.f["len"], "i32") == v, a.f["sz"] == m), "width and state size")
            O(z3.And(*[x == y for x, y in zip(e.g4(s, g), (p0, q0, r0, s0))]), "the given generator is not changed")
        if exc or not res: raise Unsupported("constructor")
        rep.take(e, k)
        for nm in ("get_all_equidist", "get_equidist"):
            e = RExec(p); st = State(); this = mkobj(e, st, C, uninit=True); ae = mkobj(e, st, A, name="ae"); e.write(st, this.sub("ae"), ae)
            arr = e.new_obj(st, ArrV("i32", z3.Int("n"), z3.Const("out", z3.ArraySort(I, I))), "out"); e.otype[arr.oid] = "[?]i32"; k = "%s::%s(*i32)" % (C, nm); arg = arr.sub(0)
            res, exc = e.verify(k, [arg], this, st); cl = getattr(e, "calls", [])
            for s, r in res:
                ok = len(cl) == 1 and cl[0][0] == nm and cl[0][1].oid == ae.oid and cl[0][2][0].oid == arr.oid
                e.oblige(s, z3.And(z3.BoolVal(ok), e.toint(r, "i32") == cl[0][3]) if cl else z3.BoolVal(False), nm + " forwards to the equidistribution object", "post")
            if exc or not res: raise Unsupported("no result")
            rep.take(e, k)
    return Task("AlgorithmReducibleEquidistribution u%d" % w, run)
def tasks(tier):
    return [f for c in C14.CFG for f in (sums(c, "get_all_equidist"), sums(c, "get_equidist"), ctor(c), main(c), reducible(c.w, c.U))]
