"""C24: the fixed point of dSFMT."""
from gens import *
from absgen import *
from leanlem import lean_task
import absgen
UNITS = ["dsfmt.cpp", "fixpoint.cpp"]
LEVEL = "proof"
NOTE = "dSFMT::setConst (every callee inlined, loop invariants for any size) leaves exactly F(H) xor H, where F is the step and H the all-constant-prefix state; do_recursion on prefixed words is the prefix-free recursion plus that constant, for all words and parameters (so the constant-input recursion is affine with this constant term); calc_fixpoint, over setConst/annihilate/getParityValue by contract and NTL's XGCD, returns the parity word (lung) of a state y in the factor's component with T(y) + pr(c) = y, and throws only if a Bezout identity is missing. Polynomial-operator lemmas in Lean 4 (lean/Fixpoint.lean), including uniqueness of y."
ASSUMPTIONS = ["irreducible*quotient annihilates every state (the caller passes the least common multiple of the minimal polynomials)", "masks below 2^52, 0 < sl1 < 64, pos1 inside the state (class invariant, C23)", "annihilate leaves the polynomial in the step operator applied to the state (C13); step and add are linear (C05)"]
TRUSTED = ["NTL XGCD returns Bezout coefficients; GF2X(1,1) with coefficient 0 set is X+1", "x % n for 0 <= x < 3n written as conditional subtraction (built-in simplification rule of the engine)"]
BOUNDED = ["the real calc_fixpoint on real dSFMT parameter sets with sizes 3 to 5 against independent linear algebra: driver replay/C24.cpp"]
D = "MTToolBox::dSFMT"; HI = 0x3ff0000000000000; LOWM = 0x000fffffffffffff
def two(x, y=None): return z3.Concat(x if y is None else y, x)
def lo(x): return z3.Extract(63, 0, x)
def hi(x): return z3.Extract(127, 64, x)
def sw(x): return (x << 32) | z3.LShR(x, 32)
def const_rec(e, st, g, lv):
    """the constant term: (word at the cursor, lung) of F(H) xor H"""
    sl = z3.ZeroExt(32, g.field(e, st, lv, "param.sl1")); m = [g.field(e, st, lv, "param.msk%d" % (i + 1)) for i in range(2)]
    L = (bv(HI, 64) << sl) ^ bv(HI, 64)
    return z3.Concat(*[z3.LShR(L, 12) ^ (L & m[i]) for i in (1, 0)]), two(L)
def msk_ok(e, st, g, lv): return [z3.ULE(g.field(e, st, lv, "param.msk%d" % i), LOWM) for i in (1, 2)]

def setconst(rep):
    g = BY["dSFMT"]; e = g.engine(); st = State(); a = g.make(e, st, "g"); n = g.n(e, st, a); k = D + "::setConst()"
    rep.cover("state", st.pc); st.assume(*msk_ok(e, st, g, a))
    arr = lambda s, lv: g.array(e, s, lv)
    def seltrig(apps, sel, bysort):
        out = [(t,) for t in sel.get("Int", {}).values()] + list(consts_trig(apps, sel, bysort))
        return out
    FA = lambda fn: ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < n), fn(q)), trig=seltrig)
    me = lambda cx: (lambda x: x if isinstance(x, LV) else a)(cx.this)
    def other(cx):
        """arrays of the other objects stay as they were (they are not in the write set of the loop)"""
        return []
    L = lambda inv: LoopSpec(inv=inv, force=True, variant=lambda cx: n - e.z(cx.var("i"), "i32"))
    def rng(cx): i = e.z(cx.var("i"), "i32"); return i, ("range", z3.And(i >= 0, i <= n))
    def zinv(cx):
        i, r = rng(cx); A = arr(cx.st, me(cx)); return [r, ("words before i are zero", FA(lambda q: z3.Implies(q < i, z3.Select(A, q) == 0)))]
    def pinv(f):
        def inv(cx):
            i, r = rng(cx); A, A0 = arr(cx.st, me(cx)), arr(cx.entry, me(cx)); return [r, ("words before i", FA(lambda q: z3.Select(A, q) == z3.If(q < i, f(cx, z3.Select(A0, q)), z3.Select(A0, q))))]
        return inv
    def pref(cx): p = e.read(cx.st, me(cx).sub("prefix")); return e.z(p, "u64")
    def cinv(cx):
        i, r = rng(cx); B = e.read(cx.st, me(cx).sub("state")); B = e.flush(e.read(cx.st, LV(B.oid, B.path[:-1]))); A0 = arr(st, a)
        return [r, ("words before i copied", FA(lambda q: z3.Implies(q < i, z3.Select(B, q) == z3.Select(A0, q))))]
    def ainv(cx):
        i, r = rng(cx); t = cx.var("that"); A, A0, Bq = arr(cx.st, me(cx)), arr(cx.entry, me(cx)), arr(cx.entry, t); ca, cb = g.cursor(e, cx.st, me(cx)), g.cursor(e, cx.st, t)
        return [r, ("words before i added", FA(lambda q: z3.Select(A, modn(ca + q, n)) == z3.If(q < i, z3.Select(A0, modn(ca + q, n)) ^ z3.Select(Bq, modn(cb + q, n)), z3.Select(A0, modn(ca + q, n)))))]
    specs = {"<ctor>(&R:%s)" % D: [L(cinv)], "setZero()": [L(zinv)], "setup_prefix()": [L(pinv(lambda cx, x: x & two(bv(LOWM, 64)))), L(pinv(lambda cx, x: x | two(pref(cx))))]}
    for k2 in e.prog.functions:
        if not k2.startswith(D + "::"): continue
        if k2[len(D) + 2:] in specs: e.loopspecs[k2] = specs[k2[len(D) + 2:]]
        elif k2.startswith(D + "::add("): e.loopspecs[k2] = [L(ainv)]
    old = st.copy(); W, Lg = const_rec(e, st, g, a)
    for s, _ in runs(e, st, k, [], a):
        V = g.V(e, s, a); O = lambda f, nm: e.oblige(s, f, nm, "post")
        O(e.z(e.read(s, a.sub("lung")), "w128") == Lg if False else g.scalars(e, s, a)[0] == Lg, "lung is the constant term of the recursion")
        O(g.scalars(e, s, a)[1] == 0, "previous output cleared")
        O(ForallGoal([IDX], lambda r: z3.Implies(z3.And(r >= 0, r < n), V(r) == z3.If(r == 0, W, bv(0, 128))), trig=seltrig), "state is the step of the prefix state, prefix removed")
        O(e.z(e.read(s, a.sub("prefix")), "u64") == 0, "prefix switched off")
        O(z3.And([z3.BoolVal(True)] + g.inv(e, s, a)), "class invariant")
        for nme, f in g.same_params(e, s, a, old, a):
            if nme != "prefix": O(f, "parameter %s unchanged" % nme)
    rep.take(e, k, *[x for x in e.loopspecs])

def affine(rep):
    g = BY["dSFMT"]; e = g.engine(); st = State(); a = g.make(e, st, "g"); st.assume(*msk_ok(e, st, g, a)); rep.cover("parameters", st.pc)
    k = [x for x in e.prog.functions if x.startswith(D + "::do_recursion(")][0]
    A, Bw, Lg = (z3.BitVec(x, 128) for x in ("A", "B", "L")); low = two(bv(LOWM, 64)); H = two(bv(HI, 64)); st.assume(A & ~low == 0, Bw & ~low == 0)
    W, Lc = const_rec(e, st, g, a)
    def one(s, x, y, l):
        """do_recursion(&x, &x, &y, &l) as next_state calls it"""
        o = [e.new_obj(s, v, n_) for v, n_ in ((x, "a"), (y, "b"), (l, "lung"))]
        for z in o: e.otype[z.oid] = "R:MTToolBox::w128_t"
        r = runs(e, s, k, [o[0], o[0], o[1], o[2]], a)
        if len(r) != 1: raise Unsupported("do_recursion branches")
        t = r[0][0]; return t, e.z(e.read(t, o[0]), "R:MTToolBox::w128_t"), e.z(e.read(t, o[1]), "R:MTToolBox::w128_t"), e.z(e.read(t, o[2]), "R:MTToolBox::w128_t")
    s, r1, b1, l1 = one(st, A, Bw, Lg); s, r2, b2, l2 = one(s, A | H, Bw | H, Lg)
    O = lambda f, nm: e.oblige(s, f, nm, "post")
    O(r2 == (r1 ^ W) | H, "word: prefix, and the low bits plus the constant term"); O(r1 & ~low == 0, "without prefix the word keeps 52 bits per half"); O(W & ~low == 0, "the constant term has 52 bits per half")
    O(l2 == l1 ^ Lc, "lung: plus the constant term"); O(z3.And(b1 == Bw, b2 == Bw | H), "the other word is only read")
    rep.take(e, k)

P1 = z3.Const("P", Poly); Q1 = z3.Const("Q", Poly); XP1 = z3.Const("X+1", Poly)
ACT = F("ACT", Poly, GS, GS); CST = z3.Const("constant", GS); LUNG = F("LUNG", GS, z3.BitVecSort(128)); STEP = F("STEP", GS, GS); SUM = F("SUM", GS, GS, GS); SZ = z3.Const("zerostate", GS)
XG1 = F("xg1", Poly, Poly, Poly); XG2 = F("xg2", Poly, Poly, Poly); SETC = F("setcoeff", Poly, I, I, Poly)
class FixExec(AbsExec):
    def __init__(self, prog):
        super().__init__(prog); A = self.axioms.append; self.defaults["R:NTL::GF2X"] = lambda: PZERO
        nm = lambda apps, n: list(apps.get(n, {}).values())
        one = MONO(z3.IntVal(0), z3.IntVal(1)); x1 = MONO(z3.IntVal(1), z3.IntVal(1))
        self.const_ax = [SETC(x1, z3.IntVal(0), z3.IntVal(1)) == XP1, SETC(one, z3.IntVal(1), z3.IntVal(1)) == XP1, ADDp(x1, one) == XP1, ADDp(one, x1) == XP1, SETC(SETC(PZERO, z3.IntVal(1), z3.IntVal(1)), z3.IntVal(0), z3.IntVal(1)) == XP1, SETC(SETC(PZERO, z3.IntVal(0), z3.IntVal(1)), z3.IntVal(1), z3.IntVal(1)) == XP1]
        A(Schema([Poly, GS], lambda f, s: z3.BoolVal(True) if not z3.is_app_of(f, z3.Z3_OP_UNINTERPRETED) or f.decl().name() != "mul" else z3.And(ACT(f, s) == ACT(f.arg(0), ACT(f.arg(1), s)), ACT(f, s) == ACT(f.arg(1), ACT(f.arg(0), s))), "act_mul, act_comm", trig=[("ACT", (0, 1))]))
        A(Schema([Poly, Poly], lambda f, h: MULp(f, h) == MULp(h, f), "commutative", trig=[("mul", (0, 1))]))
        A(Schema([Poly, Poly], lambda f, h: z3.And(GCDp(f, h) == GCDp(h, f), XG1(f, h) == XG2(h, f), XG2(f, h) == XG1(h, f)), "either order gives Bezout coefficients", trig=lambda apps, s, b: [(t.arg(0), t.arg(1)) for t in nm(apps, "gcd") + nm(apps, "xg1") + nm(apps, "xg2")]))
        # lean/Fixpoint.lean
        A(Schema([Poly, GS], lambda b, c: ACT(P1, ACT(MULp(b, Q1), c)) == SZ, "act_proj", trig=lambda apps, s, by: [(XG2(P1, Q1), CST)]))
        A(Schema([GS], lambda z: z3.Implies(z3.And(DEG(GCDp(P1, XP1)) == 0, ACT(P1, z) == SZ), SUM(STEP(ACT(XG2(P1, XP1), z)), z) == ACT(XG2(P1, XP1), z)), "act_fix", trig=lambda apps, s, by: [(PI,)]))
        A(Schema([GS, GS], lambda a, b: SUM(a, b) == SUM(b, a), "sum", trig=[("SUM", (0, 1))]))
    def fields_of(self, cls):
        if cls == D: return [(cls, "s", "GS")]
        return super().fields_of(cls)
    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        k = fn["key"]
        if k.startswith(D + "::"):
            n = k[len(D) + 2:]
            if n.startswith("<ctor>(&R:%s)" % D): self.assumed.add("interface contract: copy (C06)"); self.write(st, this.sub("s"), self.read(st, args[0].sub("s"))); return None
            if n.startswith("<dtor>"): return None
            if n.startswith("setConst("): self.assumed.add("contract: setConst"); self.write(st, this.sub("s"), CST); return None
            if n.startswith("getParityValue("): self.assumed.add("contract: getParityValue (C19)"); return LUNG(self.read(st, this.sub("s")))
            raise Unsupported("dSFMT::" + n)
        return super().call_fn(fn, this, args, st, line, e, virt)
PI = ACT(MULp(XG2(P1, Q1), Q1), CST)
def fixpoint(rep):
    prog = frontend.load("fixpoint.cpp"); e = FixExec(prog); st = State(); k = [x for x in prog.functions if x.startswith("calc_fixpoint(")][0]
    def ann(c, con):
        g = c.args[0]; f = e.pv(c.st, c.args[1]); e.write(c.st, g.sub("s"), ACT(f, e.read(c.st, g.sub("s"))))
    ka = [x for x in prog.functions if x.startswith("MTToolBox::annihilate<MTToolBox::w128_t>(")][0]; e.contracts[ka] = Contract(ka, apply=ann)
    s0 = z3.Const("state0", GS); lv = e.new_obj(st, Rec(D, {"s": s0}), "dsfmt"); e.otype[lv.oid] = "R:" + D
    po = []
    for v, n in ((P1, "irreducible"), (Q1, "quotient")):
        o = e.new_obj(st, v, n); e.otype[o.oid] = "R:NTL::GF2X"; po.append(o)
    st.assume(*e.const_ax); rep.cover("precondition", st.pc); e.separate_returns = True
    res, exc = e.verify(k, [lv, po[0], po[1]], None, st); ok = z3.And(DEG(GCDp(P1, Q1)) == 0, DEG(GCDp(P1, XP1)) == 0)
    y = ACT(XG2(P1, XP1), PI)
    for s, v in res:
        v = e.read(s, v) if isinstance(v, LV) else v; O = lambda f, n: e.oblige(s, f, n, "post")
        O(ok, "returns only if both Bezout identities exist")
        O(v == LUNG(y), "the value is the lung of the fixed point in the factor's component")
        O(SUM(STEP(y), PI) == y, "y is a fixed point of the constant-input recursion, projected to the factor's component")
        O(z3.And(e.read(s, lv.sub("s")) == s0, e.read(s, po[0]) == P1, e.read(s, po[1]) == Q1), "the arguments are unchanged")
    for s, _ in exc: e.oblige(s, z3.Not(ok), "throws only if a Bezout identity is missing", "post")
    if not res: raise Unsupported("calc_fixpoint")
    rep.take(e, k)

def tasks(tier):
    return [Task("setConst", setconst, weight=5), Task("affine recursion", affine, weight=2), Task("calc_fixpoint", fixpoint, weight=2),
            lean_task("Fixpoint.lean", ["act_sum", "act_mul", "act_comm", "act_proj", "act_split", "act_fix", "act_fix_unique"])]
