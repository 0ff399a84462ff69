"""C08: minpoly and LCM."""
from absgen import *
from leanlem import lean_task
UNITS = ["alg.cpp", "alg128.cpp"]
LEVEL = "proof"
NOTE = "minpoly<uint32_t/uint64_t/w128_t> for every generator, size and bit position: loop invariant 'after i draws the state is the i-fold step and v[j] is bit pos of output j for all j<i'; the vector, its length 2n and the bound n reach NTL::MinPolySeq. LCM: result is (x*y)/gcd(x,y), also when the result aliases an argument; divisibility and degree of that quotient: lemma lcm_facts in lean/Factor.lean, re-checked on every run."
ASSUMPTIONS = ["NTL::MinPolySeq(h,a,m) computes the minimal polynomial of the sequence a of length >= 2m when its linear complexity is <= m", "NTL polynomial arithmetic is exact and handles aliased arguments as documented",
               "bitSize() lies in 0..2^22 (no int overflow in 2*size)", "pos lies in the word"]
TRUSTED = ["NTL (MinPolySeq, GCD, mul, /=)"]
P = lambda w=32: frontend.load("alg128.cpp" if w == 128 else "alg.cpp")
WT = ((32, "unsigned int"), (64, "unsigned long"), (128, "MTToolBox::w128_t"))

def bitat(w, x, pos): return z3.Extract(0, 0, z3.LShR(x, z3.Int2BV(pos, w))) == 1

class MinExec(AbsExec):
    def in_NTL_MinPolySeq(self, fn, this, args, e, st, ct):
        v = self.read(st, args[1])
        st.ghost["seq"] = self.flush(v.f["a"]); st.ghost["seqlen"] = self.toint(v.f["len"], "i64"); st.ghost["bound"] = self.toint(args[2], "i64")
        return super().in_NTL_MinPolySeq(fn, this, args, e, st, ct)

def poly_laws(e):
    e.axioms.append(Schema([Poly, Poly], lambda a, b: MULp(a, b) == MULp(b, a), "mul commutes", trig=[("mul", (0, 1))]))
    e.axioms.append(Schema([Poly, Poly], lambda a, b: GCDp(a, b) == GCDp(b, a), "gcd commutes", trig=[("gcd", (0, 1))]))
    # (a/g)*b = (a*b)/g for g = gcd(a,b)
    e.axioms.append(Schema([Poly, Poly], lambda a, b: z3.And(MULp(DIVp(a, GCDp(a, b)), b) == DIVp(MULp(a, b), GCDp(a, b)), MULp(a, DIVp(b, GCDp(a, b))) == DIVp(MULp(a, b), GCDp(a, b))), "exact quotient", trig=[("gcd", (0, 1))]))

def minpoly_task(w, U, given):
    def run(rep):
        p = P(w); e = MinExec(p)
        k = p.find("MTToolBox::minpoly<%s>(&R:NTL::GF2X,&R:MTToolBox::AbstractGenerator<%s>,i32,i32)" % (U, U))
        st = State(); g = e.gen(st, "g")
        poly = e.new_obj(st, z3.Const("poly_in", Poly), "poly"); e.otype[poly.oid] = "R:NTL::GF2X"
        pos = z3.Int("pos"); size = z3.Int("stateSize")
        st.assume(pos >= 0, pos < w)
        p0, q0, r0, s0 = e.g4(st, g)
        if given: st.assume(size > 0, size <= 1 << 22); n = size
        else: st.assume(size <= 0, size >= -(1 << 31)); n = BS(p0)
        st.assume(BS(p0) >= 0, BS(p0) <= 1 << 22)
        rep.cover("precondition", st.pc)
        def b(j): return bitat(w, OUT(w)(p0, q0, r0, ST(p0, s0, j)), pos)
        def inv(c):
            i = e.toint(c.var("i"), "i32")
            r = e.read(c.st, g); v = [lv for nm, lv in c.st.env.values() if e.otype.get(lv.oid) == VECGF2]
            vec = e.read(c.st, v[0])
            arr = e.flush(vec.f["a"])
            return [("counter", z3.And(i >= 0, i <= 2 * n)), ("length", e.toint(vec.f["len"], "i64") == 2 * n),
                    ("same generator", z3.And(r.f["p"] == p0, r.f["q"] == q0, e.g4(c.st, g)[2] == r0)),
                    ("state is the i-fold step", r.f["s"] == ST(p0, s0, i)),
                    ("bits so far", ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < i), z3.Select(arr, j) == b(j)), "j"))]
        e.loopspecs[k] = [LoopSpec(inv=inv, variant=lambda c: 2 * n - e.toint(c.var("i"), "i32"))]
        res, exc = e.verify(k, [poly, g, pos, size], None, st)
        for s, v in res:
            if "seq" not in s.ghost: e.oblige(s, z3.BoolVal(False), "the solver is called", "post"); continue
            a = s.ghost["seq"]
            e.oblige(s, s.ghost["seqlen"] == 2 * n, "2n bits are handed over", "post")
            e.oblige(s, s.ghost["bound"] == n, "bound is the state size", "post")
            e.oblige(s, ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < 2 * n), z3.Select(a, j) == b(j)), "j"), "bit j of the sequence is bit pos of output j", "post")
            e.oblige(s, e.read(s, poly) == MINSEQ(a, 2 * n, n), "the result is the solver's polynomial", "post")
            pn, qn, rn, sn = e.g4(s, g)
            e.oblige(s, z3.And(pn == p0, qn == q0, rn == r0, sn == ST(p0, s0, 2 * n)), "exactly 2n outputs were drawn, nothing else changed", "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("minpoly u%d size %s" % (w, "given" if given else "default"), run)

def lcm_task(alias):
    def run(rep):
        p = P(); e = AbsExec(p); poly_laws(e)
        k = p.find(r"MTToolBox::LCM\(")
        st = State()
        def mk(n):
            v = z3.Const(n, Poly); lv = e.new_obj(st, v, n); e.otype[lv.oid] = "R:NTL::GF2X"; return lv, v
        x, vx = mk("x"); y, vy = mk("y")
        l = x if alias == "x" else y if alias == "y" else mk("l")[0]
        res, exc = e.verify(k, [l, x, y], None, st)
        for s, v in res:
            e.oblige(s, e.read(s, l) == DIVp(MULp(vx, vy), GCDp(vx, vy)), "result is x*y/gcd(x,y)", "post")
            if alias != "x": e.oblige(s, e.read(s, x) == vx, "x unchanged", "post")
            if alias != "y": e.oblige(s, e.read(s, y) == vy, "y unchanged", "post")
        if not res or exc: raise Unsupported("no result")
        rep.take(e, k)
    return Task("LCM result aliases %s" % alias, run)

def tasks(tier):
    return [lean_task("Factor.lean", ["lcm_facts"])] + [minpoly_task(w, U, g) for w, U in WT for g in (True, False)] + [lcm_task(a) for a in ("none", "x", "y")]
