"""C21: TestLinearity."""
from absgen import *
UNITS = ["alg.cpp", "alg128.cpp"]
LEVEL = "proof"
NOTE = "TestLinearity<uint32_t/uint64_t (thorough: w128_t)>::operator() executed symbolically for an arbitrary generator (uninterpreted step, output, addition and seeding functions); the 100-step loops have a constant bound and are unrolled completely. Result <=> both comparisons hold on all 100 outputs; the argument keeps its state; for a linear generator (the C05 axioms) the result is true."
ASSUMPTIONS = ["clone() returns an independent equal generator, and generate/seed/add are functions of the object's own state (C05-C07 prove this for the bundled generators)"]
TRUSTED = []
P = lambda w=32: frontend.load("alg128.cpp" if w == 128 else "alg.cpp")

def tasks(tier):
    TT = []
    for w, U in ((32, "unsigned int"), (64, "unsigned long")) + (((128, "MTToolBox::w128_t"),) if tier == "thorough" else ()):
        def run(rep, w=w, U=U):
            p = P(w); e = AbsExec(p); e.absty.pop("x", None)
            k = p.find("MTToolBox::TestLinearity<%s>::operator()(&R:MTToolBox::EquidistributionCalculatable<%s>)" % (U, U))
            st = State(); g = e.gen(st, "g"); this = mkobj(e, st, "MTToolBox::TestLinearity<%s>" % U)
            old = st.copy()
            res, exc = e.verify(k, [g], this, st)
            p0, q0, r0, s0 = e.g4(old, g)
            s1 = SEED(w)(p0, s0, bv(1234, w)); s2 = SEED(w)(p0, s0, bv(4321, w))
            def it(s, n):
                for _ in range(n): s = T(p0, s)
                return s
            o = lambda s: OUT(w)(p0, q0, r0, s)
            A1 = ADD(p0, s1, s1); A2 = ADD(p0, s2, s1)
            conds = []; a, b, c, d = A1, s1, s2, A2
            lin = []
            add = lambda x, y: ADD(p0, x, y)
            for i in range(100):
                conds.append(o(a) == 0); conds.append((o(b) ^ o(c)) == o(d))
                # instances of linearity at the states of this run
                lin += [T(p0, add(b, b)) == add(T(p0, b), T(p0, b)), T(p0, add(c, b)) == add(T(p0, c), T(p0, b)), o(add(b, b)) == o(b) ^ o(b), o(add(c, b)) == o(c) ^ o(b)]
                a, b, c, d = T(p0, a), T(p0, b), T(p0, c), T(p0, d)
            spec = z3.And(conds)
            for s, v in res:
                v = v if is_z3(v) else z3.BoolVal(bool(v))
                e.oblige(s, z3.Implies(v, spec), "true only if both comparisons hold on the first 100 outputs", "post")
                e.oblige(s, z3.Implies(spec, v), "true if both comparisons hold on the first 100 outputs", "post")
                pn, qn, rn, sn = e.g4(s, g)
                e.oblige(s, z3.And(pn == p0, qn == q0, rn == r0, sn == s0), "the tested generator is unchanged", "post")
                e.oblige(s, z3.Implies(z3.And(lin), v), "a linear generator is accepted", "post")
            if not res or exc: raise Unsupported("paths without a result")
            rep.take(e, k)
        TT.append(Task("linearity u%d" % w, run))
    return TT
