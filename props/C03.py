"""C03: MersenneTwister64 is MT19937-64."""
from gens import *
import C02
from C02 import MTExec, wrappers
UNITS = ["rng.cpp"]
LEVEL = "proof"
NOTE = "Window invariant: the 312 cells from the cursor (mod 312) hold X(n..n+311) of the reference sequence; next() shifts the window by one reference step and returns the tempered X(n+312); seed() establishes the window with the reference initialisation for every seed; both loops of seed_array carry a coupling invariant with the reference init_by_array64 as a ghost recursion over whole arrays, for every key and length >= 1; getUint32 is the upper half of the next output."
ASSUMPTIONS = ["1 <= key_length", "operator new returns storage of the requested size"]
TRUSTED = ["std::string::c_str()/size() describe the same character array"]
P = lambda: frontend.load("rng.cpp")
CLS = "MTToolBox::MersenneTwister64"
S64 = z3.BitVecSort(64); AS = z3.ArraySort(IDX, S64); U64 = lambda v: bv(v, 64)
N, M = 312, 156

class MT64Exec(GenExec, MTExec):
    def has_intrinsic(self, fn): return MTExec.has_intrinsic(self, fn)

def temper(x):
    x = x ^ (z3.LShR(x, 29) & 0x5555555555555555); x = x ^ ((x << 17) & 0x71D67FFFEDA60000); x = x ^ ((x << 37) & 0xFFF7EEE000000000)
    return x ^ z3.LShR(x, 43)
def recur(x0, x1, xm):
    y = (x0 & 0xFFFFFFFF80000000) | (x1 & 0x7fffffff)
    return xm ^ z3.LShR(y, 1) ^ z3.If(y & 1 == 1, U64(0xB5026F5AA96619E9), U64(0))
def f64(x, i): return U64(6364136223846793005) * (x ^ z3.LShR(x, 62)) + z3.Int2BV(i, 64)

def obj(e, st, tag="g"):
    lv = mkobj(e, st, CLS, name=tag)
    a = e.new_obj(st, ArrV("u64", N, z3.Const(fresh_name(tag + ".mt"), AS)), tag + ".arr"); e.otype[a.oid] = "[%d]u64" % N
    e.write(st, lv.sub("mt"), a.sub(0)); return lv
def engine(): return MT64Exec(P(), idx="int", intmode={"i32"})
def arr(e, st, lv):
    p = e.read(st, lv.sub("mt")); return e.flush(e.read(st, LV(p.oid, p.path[:-1])))
def mti(e, st, lv):
    v = e.read(st, lv.sub("mti"))
    return z3.Int(fresh_name("uninit.mti")) if v is UNINIT else e.z(v, "i32")

def nexttask(rep):
    e = engine(); st = State(); a = obj(e, st); k = e.prog.find(CLS + "::next()")
    W = z3.Function("X.n", IDX, S64); A, c = arr(e, st, a), mti(e, st, a)
    st.assume(c >= 0, c < N, W(N) == recur(W(0), W(1), W(M)))
    h = lambda r: z3.Implies(z3.And(r >= 0, r < N), z3.Select(A, modn(c + r, C(N))) == W(r))
    st.assume(*[h(C(x)) for x in (0, 1, M)])
    rep.cover("state", st.pc)
    for s, v in runs(e, st, k, [], a):
        e.oblige(s, e.z(v, "u64") == temper(W(N)), "returns the tempered reference word X(n+312)", "post")
        A2, c2 = arr(e, s, a), mti(e, s, a)
        e.oblige(s, z3.And(c2 >= 0, c2 < N), "cursor in range", "post")
        q = z3.Int(fresh_name("q")); t = s.copy(); t.assume(h(q + 1))
        e.oblige(t, z3.Implies(z3.And(q >= 0, q < N), z3.Select(A2, modn(c2 + q, C(N))) == W(q + 1)), "the window moves by one reference word", "post")
    rep.take(e, k)

R = z3.Function("R64.seed", S64, IDX, S64)
def prevtrig(apps, sel, bysort):
    out = []
    for (t,) in consts_trig(apps, sel, bysort): out += [(t,), (t - 1,)]
    return out + [(C(0),)]
def seeded(e, s, a, v):
    return [("cursor at the first word", mti(e, s, a) == 0), ("the 312 words are the reference initialisation", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < N), z3.Select(arr(e, s, a), q) == R(v, q)), trig=prevtrig))]
def seedtask(rep):
    e = engine(); st = State(); a = obj(e, st); k = e.prog.find(CLS + "::seed(u64)"); v = z3.BitVec("seed", 64)
    def inv(cx):
        A = arr(e, cx.st, a); i = mti(e, cx.st, a)
        cx.assume(R(v, i) == f64(R(v, i - 1), i), R(v, 0) == v)
        return [("range", z3.And(i >= 1, i <= N)), ("word before the cursor", z3.Select(A, i - 1) == R(v, i - 1)), ("earlier words", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i - 1), z3.Select(A, q) == R(v, q)), trig=prevtrig))]
    e.loopspecs[k] = [LoopSpec(inv=inv, force=True, variant=lambda cx: N - mti(e, cx.st, a))]
    rep.cover("state", st.pc)
    for s, _ in runs(e, st, k, [v], a):
        for l, f in seeded(e, s, a, v): e.oblige(s, f, l, "post")
    rep.take(e, k)
def seed_contract(e, k):
    def assign(c):
        p_ = e.read(c.st, c.this.sub("mt"))
        e.write(c.st, LV(p_.oid, p_.path[:-1]), ArrV("u64", N, z3.Const(fresh_name("seeded"), AS))); e.write(c.st, c.this.sub("mti"), z3.Int(fresh_name("mti")))
    return Contract(k, assigns=assign, ensures=lambda c: seeded(e, c.st, c.this, e.z(c.args[0], "u64")))

def arraytask(T):
    def run(rep):
        e = engine(); p = e.prog; st = State(); a = obj(e, st)
        ks = [x for x in p.functions if x.startswith(CLS + "::seed_array<%s>(" % T)]
        if len(ks) != 1: raise AnnotationMismatch("seed_array: %s" % ks)
        k = ks[0]; ks_ = p.find(re.escape(CLS) + r"::seed\(u64\)$"); e.contracts[ks_] = seed_contract(e, ks_)
        et, w = ("i8", 8) if T == "char" else ("u64", 64)
        n = z3.Int("key_length"); st.assume(n >= 1, n <= 0x7fffffff)
        K = z3.Const("key", z3.ArraySort(IDX, z3.BitVecSort(w)))
        key = e.new_obj(st, ArrV(et, n, K), "key"); e.otype[key.oid] = "[?]" + et
        kv = lambda j: z3.SignExt(56, z3.Select(K, j)) if w == 8 else z3.Select(K, j)
        S1, S2 = z3.Function("S1", IDX, AS), z3.Function("S2", IDX, AS)
        I1, J1, I2 = z3.Function("I1", IDX, IDX), z3.Function("J1", IDX, IDX), z3.Function("I2", IDX, IDX)
        total = z3.If(n < N, C(N), n)
        def mix(A, i, m): x = z3.Select(A, i - 1); return z3.Select(A, i) ^ ((x ^ z3.LShR(x, 62)) * U64(m))
        def wrapi(A, i): return z3.If(i + 1 >= N, z3.Store(A, 0, z3.Select(A, N - 1)), A), z3.If(i + 1 >= N, C(1), i + 1)
        def unfold1(t):
            A, i, j = S1(t), I1(t), J1(t)
            B, ni = wrapi(z3.Store(A, i, mix(A, i, 3935559000370003845) + kv(j) + z3.Int2BV(j, 64)), i)
            return [S1(t + 1) == B, I1(t + 1) == ni, J1(t + 1) == z3.If(j + 1 >= n, C(0), j + 1)]
        def unfold2(t):
            A, i = S2(t), I2(t)
            B, ni = wrapi(z3.Store(A, i, mix(A, i, 2862933555777941757) - z3.Int2BV(i, 64)), i)
            return [S2(t + 1) == B, I2(t + 1) == ni]
        # k counts down in 64 bits; T1/T2: its value as a step count
        V = lambda cx, x: e.z(cx.var(x), "i32")
        def count(cx, m): # k counts down
            v = cx.var("k")
            return v == m if is_z3(v) and z3.is_int(v) else e.z(v, "u64") == B64(m)
        t1, t2 = z3.Function("steps1", S64, IDX), z3.Function("steps2", S64, IDX)
        B64 = lambda x: z3.Int2BV(x, 64)
        # ghost step counters
        def once1(cx): cx.st.ghost["t"] = C(0); cx.assume(S1(0) == arr(e, cx.st, a), I1(0) == 1, J1(0) == 0)
        def inv1(cx):
            t = cx.st.ghost["t"]; i, j = V(cx, "i"), V(cx, "j")
            return [("range", z3.And(t >= 0, t <= total, i >= 1, i < N, j >= 0, j < n)), ("count", count(cx, total - t)), ("indices", z3.And(i == I1(t), j == J1(t))), ("state is the reference state", arr(e, cx.st, a) == S1(t)), ("cursor", mti(e, cx.st, a) == 0)]
        def once2(cx): cx.st.ghost["t"] = C(0); cx.assume(S2(0) == S1(total), I2(0) == I1(total))
        def inv2(cx):
            t = cx.st.ghost["t"]; i = V(cx, "i")
            return [("range", z3.And(t >= 0, t <= N - 1, i >= 1, i < N)), ("count", count(cx, N - 1 - t)), ("index", i == I2(t)), ("state is the reference state", arr(e, cx.st, a) == S2(t)), ("cursor", mti(e, cx.st, a) == 0)]
        def end(cx): cx.st.ghost["t"] = cx.st.ghost["t"] + 1
        def nz(m): # Int2BV is injective on [0, 2^31)
            def f(cx):
                t = cx.st.ghost["t"]; cx.assume((B64(m - t) == 0) == (t == m), B64(m - (t + 1)) == B64(m - t) - 1)
            return f
        def h1(cx): cx.assume(*unfold1(cx.st.ghost["t"])); nz(total)(cx)
        def h2(cx): cx.assume(*unfold2(cx.st.ghost["t"])); nz(C(N - 1))(cx)
        e.loopspecs[k] = [LoopSpec(inv=inv1, force=True, once=once1, hints=h1, body_end=end, variant=lambda cx: total - cx.st.ghost["t"]), LoopSpec(inv=inv2, force=True, once=once2, hints=h2, body_end=end, variant=lambda cx: N - 1 - cx.st.ghost["t"])]
        rep.cover("key", st.pc)
        for s, _ in runs(e, st, k, [key.sub(0), n], a):
            e.oblige(s, arr(e, s, a) == z3.Store(S2(N - 1), 0, U64(1 << 63)), "state is the reference array initialisation", "post")
            e.oblige(s, mti(e, s, a) == 0, "cursor at the first word", "post")
            q = z3.Int(fresh_name("q"))
            e.oblige(s, z3.Implies(z3.And(q >= 0, q < N), z3.Select(S1(0), q) == R(U64(19650218), q)), "the array initialisation starts from seed 19650218", "post")
        rep.take(e, k)
    return run

OUT = z3.Function("OUT64", z3.IntSort(), S64)
def draws(rep):
    p = P(); kn = p.find(re.escape(CLS) + r"::next\(\)")
    for name, t, exp in (("getUint32", "u32", lambda n: z3.Extract(63, 32, OUT(n))), ("getUint64", "u64", lambda n: OUT(n))):
        e = engine(); st = State(); a = obj(e, st); n0 = z3.Int("n"); st.ghost["n"] = n0
        def res(c):
            n = c.st.ghost["n"]; c.st.ghost["n"] = n + 1; return OUT(n)
        e.contracts[kn] = Contract(kn, result=res)
        k = p.find(re.escape(CLS) + r"::%s\(\)" % name)
        for s, v in runs(e, st, k, [], a):
            e.oblige(s, e.z(v, t) == exp(n0), "the next output" + (", upper half" if t == "u32" else ""), "post")
            e.oblige(s, s.ghost["n"] == n0 + 1, "one output consumed", "post")
        rep.take(e, k)

def wobj(e, st, tag="g"):
    lv = mkobj(e, st, CLS, name=tag)
    a = e.new_obj(st, ArrV("u64", N, z3.Const(fresh_name(tag + ".mt"), z3.ArraySort(e.idxsort(), S64))), tag + ".arr")
    e.write(st, lv.sub("mt"), a.sub(0)); return lv

def tasks(tier):
    return [Task("next", nexttask), Task("seed", seedtask), Task("seed_array<char>", arraytask("char"), weight=3), Task("seed_array<u64>", arraytask("unsigned long"), weight=3),
            Task("getUint32/64", draws), Task("wrappers", wrappers(CLS, 64, None, wobj, None))]
