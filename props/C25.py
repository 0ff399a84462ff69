"""C25: the C xorshift128 generator."""
from lib import *
U = ("xorshift.cpp", ("-fno-operator-names",))
UNITS = [U]
LEVEL = "proof"
NOTE = "Array initialisation: both loops carry a coupling invariant with a reference recursion over the array (ghost function of the step number), so the final state is the reference function of contents and length for every length; the certification contract gives never-zero."
ASSUMPTIONS = ["the C source is read by the extractor as C++17 with operator names off (same meaning for this file)", "0 <= length < 2^31-1"]
P = lambda: frontend.load(*U)
X = "XORSHIFT128_T"
I1 = z3.Function("ini_func1_spec", BV32, BV32)
I2 = z3.Function("ini_func2_spec", BV32, BV32)
def def1(x): return (x ^ z3.LShR(x, 27)) * bv(1664525, 32)
def def2(x): return (x ^ z3.LShR(x, 27)) * bv(1566083941, 32)

def st4(e, s, lv): return [e.z(e.read(s, lv.sub(f)), "u32") if e.read(s, lv.sub(f)) is not UNINIT else z3.BitVec(fresh_name("uninit"), 32) for f in "xyzw"]

def mkx(uninit):
    def f(eng, st):
        lv = mkobj(eng, st, X, uninit=uninit)
        return lv
    return f

def sel(t, i):    # i in 0..3
    return z3.If(i == 0, t[0], z3.If(i == 1, t[1], z3.If(i == 2, t[2], t[3])))
def upd(t, i, v): return [z3.If(i == q, v, t[q]) for q in range(4)]

def ref_init(seed):
    ar = [seed, None, None, None]
    for i in range(1, 8): ar[i % 4] = bv(1812433253, 32) * (ar[(i - 1) % 4] ^ z3.LShR(ar[(i - 1) % 4], 30)) + i
    return ar
def ref_step(t, i, x, f, plus):
    m = lambda k: (i + k) & 3
    o = (lambda a, b: a ^ b) if plus == "xor" else (lambda a, b: a + b)
    r = f(o(o(sel(t, i), sel(t, m(1))), sel(t, m(3))))
    if plus == "xor":
        t = upd(t, m(1), sel(t, m(1)) + r); r = r + x + i
        t = upd(t, m(2), sel(t, m(2)) + r)
    else:
        t = upd(t, m(1), sel(t, m(1)) ^ r); r = r - i
        t = upd(t, m(2), sel(t, m(2)) ^ r)
    return upd(t, i, r)
def ref_step_c(t, i):   # last mixing, concrete index
    t = list(t); r = I2(t[i] + t[(i + 1) & 3] + t[(i + 3) & 3])
    t[(i + 1) & 3] = t[(i + 1) & 3] ^ r; r = r - i; t[(i + 2) & 3] = t[(i + 2) & 3] ^ r; t[i] = r
    return t
def ref_first(length):
    r = I1(bv(0, 32)); t = [bv(0, 32)] * 4
    t = list(t); t[1] = t[1] + r; r = r + length; t[2] = t[2] + r; t[0] = r
    return t

def tasks(tier):
    T = []
    def gen(eng, st):
        lv = mkobj(eng, st, X); return [lv], None, {"lv": lv, "old4": st4(eng, st, lv)}
    def gpost(e, s, v, env):
        x, y, z, w = env["old4"]
        t = x ^ (x << 11); t = t ^ z3.LShR(t, 7)
        w2 = (w ^ (w << 20)) ^ t
        n = st4(e, s, env["lv"])
        return [("new word by the recurrence (11,7,20)", n[3] == w2), ("words shift down", z3.And(n[0] == y, n[1] == z, n[2] == w)), ("returns the new word", v == w2)]
    T.append(Task("generate", simple(P, "xorshift128_generate", gen, gpost)))
    def ini(eng, st):
        lv = mkobj(eng, st, X, uninit=True); s = eng.fresh("u32", "seed"); return [lv, s], None, {"lv": lv, "seed": s}
    T.append(Task("init", simple(P, r"^xorshift128_init\(", ini, lambda e, s, v, env: [("state is the reference function of the seed", z3.And([a == b for a, b in zip(st4(e, s, env["lv"]), ref_init(env["seed"]))]))])))
    for n, d in (("ini_func1", def1), ("ini_func2", def2)):
        T.append(Task(n, simple(P, n, lambda eng, st: (lambda x: ([x], None, {"x": x}))(eng.fresh("u32", "x")), lambda e, s, v, env, d=d: [("mixing function", v == d(env["x"]))])))
    def cert(eng, st):
        lv = mkobj(eng, st, X); return [lv], None, {"lv": lv, "old4": st4(eng, st, lv)}
    def cpost(e, s, v, env):
        o, n = env["old4"], st4(e, s, env["lv"])
        z = z3.And([x == 0 for x in o])
        return [("never zero", z3.Or([x != 0 for x in n])), ("non-zero states untouched", z3.Or(z, z3.And([a == b for a, b in zip(o, n)]))),
                ("zero state replaced by the constant", z3.Implies(z, z3.And([a == bv((ord(p) << 16) | ord(q), 32) for a, (p, q) in zip(n, ("XO", "RS", "HI", "FT"))])))]
    T.append(Task("period_certification", simple(P, "period_certification", cert, cpost)))
    def byarray(rep):
        p = P(); k = p.find("xorshift128_init_by_array"); e = LibExec(p)
        c1, c2, cc = p.find(r"^ini_func1"), p.find(r"^ini_func2"), p.find("^period_cert")
        e.contracts[c1] = Contract(c1, ensures=lambda c: [("spec", c.result == I1(e.z(c.args[0], "u32")))])
        e.contracts[c2] = Contract(c2, ensures=lambda c: [("spec", c.result == I2(e.z(c.args[0], "u32")))])
        def cassign(c):
            for f in "xyzw": e.write(c.st, c.args[0].sub(f), e.fresh("u32", "cert." + f))
        def cens(c):
            o, n = st4(e, c.old, c.args[0]), st4(e, c.st, c.args[0])
            z = z3.And([x == 0 for x in o])
            return [("nz", z3.Or([x != 0 for x in n])), ("keep", z3.Or(z, z3.And([a == b for a, b in zip(o, n)]))),
                    ("const", z3.Implies(z, z3.And([a == bv((ord(p_) << 16) | ord(q), 32) for a, (p_, q) in zip(n, ("XO", "RS", "HI", "FT"))])))]
        e.contracts[cc] = Contract(cc, assigns=cassign, ensures=cens)
        st = State(); lv = mkobj(e, st, X, uninit=True)
        n = z3.BitVec("length", 32); st.assume(n >= 0, n < 0x7fffffff)
        A = z3.Const("array", z3.ArraySort(BV32, BV32))
        arr = e.new_obj(st, ArrV("u32", n, A), "array"); e.otype[arr.oid] = "[?]u32"
        R = [z3.Function("ref%d" % q, BV32, BV32) for q in range(4)]
        at = lambda j: [r(j) for r in R]
        cnt = z3.If(n + 1 > 8, n + 1, bv(8, 32)) - 1
        def unfold(j): return [a == b for a, b in zip(at(j + 1), ref_step(at(j), (j + 1) & 3, z3.If(j < n, z3.Select(A, j), bv(0, 32)), I1, "xor"))]
        st.assume(*[a == b for a, b in zip(at(bv(0, 32)), ref_first(n))])
        rep.cover("length", st.pc)
        def inv(c):
            j, i = e.z(c.var("j"), "i32"), e.z(c.var("i"), "i32")
            a = c.varlv("st")
            s4 = [e.z(e.read(c.st, a.sub(q)), "u32") for q in range(4)]
            return [("range", z3.And(j >= 0, j <= cnt, i == ((j + 1) & 3), e.z(c.var("count"), "i32") == cnt)), ("state is the reference state", z3.And([x == y for x, y in zip(s4, at(j))]))]
        def inv2(c): return inv(c) + [("array used up", z3.Or(e.z(c.var("j"), "i32") >= n, e.z(c.var("j"), "i32") >= cnt))]
        h = lambda c: c.assume(*unfold(e.z(c.var("j"), "i32")))
        v = lambda c: cnt - e.z(c.var("j"), "i32")
        var = lambda c: cnt - e.z(c.var("j"), "i32")
        def split(c):
            i = e.z(c.var("i"), "i32")
            def conc(q):
                def f(x):
                    e.write(x.st, x.varlv("i"), q)
                    fr = [z3.BitVec(fresh_name("s"), 32) for _ in range(4)]   # name the state words
                    for m in range(4):
                        x.st.pc.append(fr[m] == e.z(e.read(x.st, x.varlv("st").sub(m)), "u32")); e.write(x.st, x.varlv("st").sub(m), fr[m])
                    x.st.ghost["#s"] = tuple(fr); x.st.ghost["#i"] = q
                return f
            return [(i == q, conc(q)) for q in range(4)]
        e.loopspecs[k] = [LoopSpec(inv=inv, hints=h, variant=var), LoopSpec(inv=inv2, hints=h, variant=var, split=split), LoopSpec(unroll=8)]
        res, exc = e.verify(k, [lv, arr.sub(0), n], None, st)
        for s, _ in res:
            i0 = s.ghost["#i"]
            t = list(s.ghost["#s"])
            e.oblige(s, z3.And([a == b for a, b in zip(t, at(cnt))]), "state before the last mixing, start index %d" % i0, "post")
            for q in range(4): t = ref_step_c(t, (i0 + q) & 3)
            out = st4(e, s, lv)
            nz = z3.Or([x != 0 for x in t])
            e.oblige(s, z3.Implies(nz, z3.And([a == b for a, b in zip(out, t)])), "state is the reference function of contents and length, start index %d" % i0, "post")
            e.oblige(s, z3.Or([x != 0 for x in out]), "never all zero", "post")
        rep.take(e, k)
    T.append(Task("init_by_array", byarray, weight=5))
    return T
