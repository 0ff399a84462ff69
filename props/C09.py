"""C09: primitivity decisions."""
from absgen import *
UNITS = ["period.cpp", "prim.cpp"]
LEVEL = "proof"
NOTE = "isMexp, isIrreducible, the Mersenne and factor-list isPrime and AlgorithmPrimitivity::operator() for every polynomial, degree and factor vector (loop invariant over the list). The string-table reader isPrime(poly,n,char*[]) and the object's constructor are executed on every bundled table (C11) and, in C09, on tables with arbitrary digit strings of bounded shape; deciding Mersenne exponents against an independently written list."
ASSUMPTIONS = ["NTL IterIrredTest decides irreducibility, PowerXMod(x,e,f) = x^e mod f, power/division of ZZ exact", "listed factors are at least 2 (for the bundled tables: C11)"]
TRUSTED = ["NTL ZZ and GF2X arithmetic"]
# known Mersenne exponents in increasing order up to the 42nd (GIMPS), independent of the code
MEXPS = [2, 3, 5, 7, 13, 17, 19, 31, 61, 89, 107, 127, 521, 607, 1279, 2203, 2281, 3217, 4253, 4423, 9689, 9941, 11213, 19937, 21701, 23209, 44497, 86243, 110503, 132049,
         216091, 756839, 859433, 1257787, 1398269, 2976221, 3021377, 6972593, 13466917, 20996011, 24036583, 25964951]
PP = lambda: frontend.load("period.cpp")
PR = lambda: frontend.load("prim.cpp")
def ismexp(d): return z3.Or([d == m for m in MEXPS])
def b_(v): return v if is_z3(v) else z3.BoolVal(bool(v))
def mkpoly(e, st, n="poly"):
    f = z3.Const(n, Poly); lv = e.new_obj(st, f, n); e.otype[lv.oid] = "R:NTL::GF2X"; st.assume(DEG(f) >= -1, DEG(f) <= 1 << 24); return lv, f

def t_mexp(rep):
    p = PP(); e = AbsExec(p, intmode=()); k = p.find("MTToolBox::isMexp(u32)"); st = State(); d = z3.BitVec("degree", 32)
    res, exc = e.verify(k, [d], None, st)
    for s, v in res: e.oblige(s, b_(v) == z3.Or([d == z3.BitVecVal(m, 32) for m in MEXPS]), "true exactly for the Mersenne exponents", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)

def t_irr(rep):
    p = PP(); e = AbsExec(p); k = p.find("MTToolBox::isIrreducible(&R:NTL::GF2X)"); st = State(); lv, f = mkpoly(e, st)
    res, exc = e.verify(k, [lv], None, st)
    for s, v in res: e.oblige(s, b_(v) == IRRED(f), "true exactly for irreducible polynomials", "post"); e.oblige(s, e.read(s, lv) == f, "argument unchanged", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)

def mexp_contract(e):
    def ap(c, con):
        d = e.toint(c.args[0], "u32"); r = z3.Bool(fresh_name("ismexp")); c.st.assume(r == ismexp(d)); return r
    return Contract("MTToolBox::isMexp(u32)", apply=ap)
def t_prime1(rep):
    p = PP(); e = AbsExec(p); k = p.find("MTToolBox::isPrime(&R:NTL::GF2X)"); st = State(); lv, f = mkpoly(e, st); c = mexp_contract(e); e.contracts[c.key] = c
    st.assume(z3.Implies(IRRED(f), DEG(f) >= 1))
    res, exc = e.verify(k, [lv], None, st)
    for s, v in res: e.oblige(s, b_(v) == z3.And(IRRED(f), ismexp(DEG(f))), "true exactly for irreducible polynomials of Mersenne-exponent degree", "post"); e.oblige(s, e.read(s, lv) == f, "argument unchanged", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)

def bad(f, n, a, j): return ISONE(POWX((POW(z3.IntVal(2), n) - 1) / z3.Select(a, j), f))
def t_prime3(rep):
    p = PP(); e = AbsExec(p); k = p.find("MTToolBox::isPrime(&R:NTL::GF2X,i32,&R:NTL::Vec<NTL::ZZ>)"); st = State(); lv, f = mkpoly(e, st)
    n = z3.Int("degree"); st.assume(n >= -(1 << 31), n < 1 << 31)
    a = z3.Const("factors", z3.ArraySort(I, I)); ln = z3.Int("len"); st.assume(ln >= 0, ln <= 1 << 40)
    vec = e.new_obj(st, Rec("NTL::Vec<NTL::ZZ>", {"len": ln, "a": ArrV("R:NTL::ZZ", None, a)}), "vec"); e.otype[vec.oid] = VECZZ
    e.listed = lambda i: z3.Implies(z3.And(i >= 0, i < ln), z3.Select(a, i) >= 2)      # precondition: listed factors are at least 2
    rep.cover("precondition", st.pc)
    rejected = lambda j: bad(f, n, a, j)
    def inv(c):
        i = e.toint(c.var("i"), "i64")
        return [("index", z3.And(i >= 0, i <= ln)), ("no divisor so far kills x", ForallGoal([I], lambda j: z3.Implies(z3.And(j >= 0, j < i), z3.Not(rejected(j))), "j"))]
    e.loopspecs[k] = [LoopSpec(inv=inv, variant=lambda c: ln - e.toint(c.var("i"), "i64"))]
    e.separate_returns = True
    res, exc = e.verify(k, [lv, n, vec], None, st)
    for s, v in res:
        v = b_(v)
        e.oblige(s, ForallGoal([I], lambda j: z3.Implies(z3.And(v, j >= 0, j < ln), z3.Not(rejected(j))), "j"), "true: x^((2^n-1)/q) != 1 for every listed q", "post")
        e.oblige(s, z3.Implies(v, z3.And(DEG(f) == n, IRRED(f))), "true: irreducible of the given degree", "post")
        # false: one of the conditions fails; the witness is the loop index of the returning iteration
        ev = [DEG(f) != n, z3.Not(IRRED(f))]
        for nm, l2 in s.env.values():
            x = s.store.get(l2.oid)
            if is_z3(x) and z3.is_int(x) and e.otype.get(l2.oid) in ("i64", "i32", "u64"): ev.append(z3.And(x >= 0, x < ln, rejected(x)))
        wit = s.ghost.get("wit")
        if wit is not None: ev.append(z3.And(wit >= 0, wit < ln, rejected(wit)))
        e.oblige(s, z3.Implies(z3.Not(v), z3.Or(ev)), "false only when the degree differs, it is reducible, or some listed q kills x", "post")
        e.oblige(s, z3.And(e.read(s, lv) == f, e.flush(e.read(s, vec).f["a"]) == a), "arguments unchanged", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)

class IdxExec(AbsExec):
    """remembers the list index of the last element access (the witness)"""
    def vec_at(self, st, this, i, line):
        r = super().vec_at(st, this, i, line)
        st.ghost["wit"] = self.toint(i, "i64"); st.assume(self.listed(st.ghost["wit"])); return r

ISP = F("isprime3", Poly, I, I, z3.ArraySort(I, I), B)
def prime3_contract(e, recorder=None):
    def ap(c, con):
        v = e.read(c.st, c.args[2]); f = e.read(c.st, c.args[0]); n = e.toint(c.args[1], "i32"); a = e.flush(v.f["a"]); ln = e.toint(v.f["len"], "i64")
        if recorder: recorder(c.st, f, n, ln, v)
        r = ISP(f, n, ln, a); c.st.assume(z3.Implies(r, z3.And(DEG(f) == n, IRRED(f)))); return r
    return Contract("MTToolBox::isPrime(&R:NTL::GF2X,i32,&R:NTL::Vec<NTL::ZZ>)", apply=ap)
def t_obj(mers):
    def run(rep):
        p = PR(); e = AbsExec(p); k = p.find(r"AlgorithmPrimitivity::operator\(\)"); st = State(); lv, f = mkpoly(e, st)
        n = z3.Int("max_degree"); st.assume(n >= -(1 << 31), n < 1 << 31)
        con = prime3_contract(e); e.contracts[con.key] = con
        a = z3.Const("factors", z3.ArraySort(I, I)); ln = z3.Int("len"); st.assume(ln >= 0)
        st.assume(z3.Implies(ISP(f, n, ln, a), z3.And(DEG(f) == n, IRRED(f))))     # proved above for isPrime
        vec = e.new_obj(st, Rec("NTL::Vec<NTL::ZZ>", {"len": ln, "a": ArrV("R:NTL::ZZ", None, a)}), "vec"); e.otype[vec.oid] = VECZZ
        this = mkobj(e, st, "MTToolBox::AlgorithmPrimitivity"); e.write(st, this.sub("mersenne"), mers); e.write(st, this.sub("primes"), vec)
        res, exc = e.verify(k, [n, lv], this, st)
        for s, v in res:
            want = z3.And(DEG(f) == n, IRRED(f)) if mers else ISP(f, n, ln, a)
            e.oblige(s, b_(v) == want, "agrees with " + ("irreducibility in the given (Mersenne) degree" if mers else "isPrime with the configured factor list"), "post")
            e.oblige(s, e.read(s, lv) == f, "argument unchanged", "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return run
def t_ctor0(rep):
    p = PR(); e = AbsExec(p); k = p.find("MTToolBox::AlgorithmPrimitivity::<ctor>()"); st = State(); this = mkobj(e, st, "MTToolBox::AlgorithmPrimitivity", uninit=True)
    res, exc = e.verify(k, [], this, st)
    for s, v in res:
        m = e.read(s, this.sub("mersenne")); e.oblige(s, b_(m), "default object decides Mersenne degrees", "post")
        e.oblige(s, e.toint(e.read(s, e.read(s, this.sub("primes")).sub("len")), "i64") == 0, "with an empty factor list", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)

def tasks(tier):
    def t_prime3x(rep):
        global AbsExec
        keep = AbsExec
        try: AbsExec = IdxExec; t_prime3(rep)
        finally: AbsExec = keep
    import tabs
    def shape(ls): return lambda st: [tabs.symrow(st, n, i) for i, n in enumerate(ls)]
    SH = [[], [1], [2, 1], [3]] if tier == "quick" else [[], [1], [2, 1], [3], [1, 1, 1], [5], [12, 2]]
    def rd(fn, ls):
        def run(rep): fn(rep, shape(ls), "table of shape %s: " % ls); rep.bounded.append("table reader on arbitrary digits: tables of shape %s" % SH)
        return run
    return [Task("table reader %s" % ls, rd(tabs.read_isprime, ls)) for ls in SH] + [Task("object constructor %s" % ls, rd(tabs.read_ctor, ls)) for ls in SH] + [Task("isMexp", t_mexp), Task("isIrreducible", t_irr), Task("isPrime Mersenne", t_prime1), Task("isPrime factor list", t_prime3x),
            Task("object, Mersenne", t_obj(True)), Task("object, factor list", t_obj(False)), Task("object, default constructor", t_ctor0)]
