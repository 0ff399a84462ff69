"""C02: MersenneTwister is MT19937."""
from lib import *
UNITS = ["rng.cpp"]
LEVEL = "proof"
NOTE = "Window invariant: the 624 cells before the cursor (mod 1024) hold X(n..n+623) of the reference sequence; next() shifts the window by one reference step and returns the tempered X(n+624); seed() establishes the window with the reference initialisation R(seed, .) for every seed; both loops of seed_array carry a coupling invariant with the reference init_by_array as a ghost recursion over whole arrays, for every key and length >= 1; getUint64 is high word then low word."
ASSUMPTIONS = ["key_length >= 1 (empty keys are outside the property)", "operator new returns storage of the requested size"]
TRUSTED = ["std::string::c_str()/size() describe the same character array"]
P = lambda: frontend.load("rng.cpp")
CLS = "MTToolBox::MersenneTwister"
S32 = z3.BitVecSort(32)
U32 = lambda v: bv(v, 32)

def temper(y):
    y = y ^ z3.LShR(y, 11); y = y ^ ((y << 7) & 0x9d2c5680); y = y ^ ((y << 15) & 0xefc60000)
    return y ^ z3.LShR(y, 18)
def f32(x, i): return U32(1812433253) * (x ^ z3.LShR(x, 30)) + i
def recur(x0, x1, xm):
    y = (x0 & 0x80000000) | (x1 & 0x7fffffff)
    return xm ^ z3.LShR(y, 1) ^ z3.If(y & 1 == 1, U32(0x9908b0df), U32(0))

class MTExec(LibExec):
    """next() through its contract when ghost streams are used; std::string as (pointer, length)"""
    string = None
    def has_intrinsic(self, fn): return super().has_intrinsic(fn)
    def intrinsic(self, fn, this, args, e, st, ctor_type=None):
        if self.string and fn.get("cls", "").startswith("std::") and "basic_string" in fn["cls"]:
            if fn["n"] == "c_str" or fn["n"] == "data": return self.string[0]
            if fn["n"] in ("size", "length"): return self.string[1]
        return super().intrinsic(fn, this, args, e, st, ctor_type)

def obj(e, st, tag="g"):
    lv = mkobj(e, st, CLS, name=tag)
    arr = e.new_obj(st, ArrV("u32", 1024, z3.Const(fresh_name(tag + ".mt"), z3.ArraySort(e.idxsort(), S32))), tag + ".arr"); e.otype[arr.oid] = "[1024]u32"
    e.write(st, lv.sub("mt"), arr.sub(0))
    return lv
def arr(e, st, lv):
    p = e.read(st, lv.sub("mt")); return e.flush(e.read(st, LV(p.oid, p.path[:-1])))
def mti(e, st, lv):
    v = e.read(st, lv.sub("mti"))
    return z3.BitVec(fresh_name("uninit.mti"), 32) if v is UNINIT else e.z(v, "u32")
def window(e, st, lv, W):
    """the 624 words before the cursor are W(0..623)"""
    A, c = arr(e, st, lv), mti(e, st, lv)
    return ForallGoal([S32], lambda r: z3.Implies(z3.ULT(r, 624), z3.Select(A, (c - 624 + r) & 0x3ff) == W(r)), trig=wtrig)
def wtrig(apps, sel, bysort):
    out = []
    for t in list(bysort.get("(_ BitVec 32)", {}).values()) + list(bysort.get("BitVec(32)", {}).values()):
        if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.decl().name().startswith("q"): out += [(t,), (t + 1,)]
    return out + [(U32(x),) for x in (0, 1, 397)]
def bvconsts(apps, sel, bysort):
    out = []
    for k, d in bysort.items():
        for t in d.values():
            if z3.is_bv(t) and t.size() == 32 and z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED: out += [(t,), (t - 1,)]
    return out + [(U32(0),)]

def nexttask(rep):
    p = P(); e = MTExec(p); st = State(); a = obj(e, st); k = p.find(CLS + "::next()")
    W = z3.Function("X.n", S32, S32)
    st.assume(z3.ULT(mti(e, st, a), 1024), W(U32(624)) == recur(W(U32(0)), W(U32(1)), W(U32(397))))
    A, c = arr(e, st, a), mti(e, st, a)
    h = lambda r: z3.Implies(z3.ULT(r, 624), z3.Select(A, (c - 624 + r) & 0x3ff) == W(r))
    st.assume(*[h(U32(x)) for x in (0, 1, 397)])
    rep.cover("state", st.pc); old = st.copy()
    res, exc = e.verify(k, [], a, st)
    for s, v in res:
        e.oblige(s, e.z(v, "u32") == temper(W(U32(624))), "returns the tempered reference word X(n+624)", "post")
        e.oblige(s, z3.ULT(mti(e, s, a), 1024), "cursor in range", "post")
        q = z3.BitVec(fresh_name("q"), 32); t = s.copy(); t.assume(h(q + 1))
        A2, c2 = arr(e, s, a), mti(e, s, a)
        e.oblige(t, z3.Implies(z3.ULT(q, 624), z3.Select(A2, (c2 - 624 + q) & 0x3ff) == W(q + 1)), "the window moves by one reference word", "post")
        e.oblige(s, z3.BoolVal(e.veq(e.read(s, a.sub("mt")), e.read(old, a.sub("mt")))), "same storage", "post")
    if not res: raise Unsupported("no return")
    rep.take(e, k)

R = z3.Function("R.seed", S32, S32, S32)      # reference initialisation: R(seed, i)
def seedspec(e, a, v):
    def inv(cx):
        A = arr(e, cx.st, a); i = mti(e, cx.st, a)
        cx.assume(R(v, i) == f32(R(v, i - 1), i), R(v, U32(0)) == v)
        return [("range", z3.And(z3.UGE(i, 1), z3.ULE(i, 624))), ("word before the cursor", z3.Select(A, i - 1) == R(v, i - 1)), ("earlier words", ForallGoal([S32], lambda q: z3.Implies(z3.ULT(q, i - 1), z3.Select(A, q) == R(v, q)), trig=bvconsts))]
    return [LoopSpec(inv=inv, force=True, variant=lambda cx: U32(624) - mti(e, cx.st, a))]
def seeded(e, s, a, v):
    return [("cursor after the seeded words", mti(e, s, a) == 624), ("the 624 words are the reference initialisation", ForallGoal([S32], lambda q: z3.Implies(z3.ULT(q, 624), z3.Select(arr(e, s, a), q) == R(v, q)), trig=bvconsts))]

def seedtask(rep):
    p = P(); e = MTExec(p); st = State(); a = obj(e, st); k = p.find(CLS + "::seed(u64)")
    v = z3.BitVec("seed", 64); w = z3.Extract(31, 0, v)
    e.loopspecs[k] = seedspec(e, a, w)
    rep.cover("state", st.pc)
    for s, _ in e.verify(k, [v], a, st)[0]:
        for l, f in seeded(e, s, a, w): e.oblige(s, f, l, "post")
    rep.take(e, k)

SEEDC = {}
def seed_contract(e, k):
    def assign(c):
        a = c.this; p_ = e.read(c.st, a.sub("mt"))
        e.write(c.st, LV(p_.oid, p_.path[:-1]), ArrV("u32", 1024, z3.Const(fresh_name("seeded"), z3.ArraySort(e.idxsort(), S32))))
        e.write(c.st, a.sub("mti"), z3.BitVec(fresh_name("mti"), 32))
    return Contract(k, assigns=assign, ensures=lambda c: seeded(e, c.st, c.this, z3.Extract(31, 0, e.z(c.args[0], "u64"))))

AS = z3.ArraySort(S32, S32)
def arraytask(T):
    def run(rep):
        p = P(); e = MTExec(p); st = State(); a = obj(e, st)
        ks = [x for x in p.functions if x.startswith(CLS + "::seed_array<%s>(" % T)]
        if len(ks) != 1: raise AnnotationMismatch("seed_array: %s" % ks)
        k = ks[0]; ks_ = p.find(CLS + "::seed(u64)"); e.contracts[ks_] = seed_contract(e, ks_)
        et, w = ("i8", 8) if T == "char" else ("u32", 32)
        n = z3.BitVec("key_length", 32); st.assume(n >= 1)
        K = z3.Const("key", z3.ArraySort(e.idxsort(), z3.BitVecSort(w)))
        key = e.new_obj(st, ArrV(et, n, K), "key"); e.otype[key.oid] = "[?]" + et
        kv = lambda j: z3.SignExt(24, z3.Select(K, j)) if w == 8 else z3.Select(K, j)
        S1, S2 = z3.Function("S1", S32, AS), z3.Function("S2", S32, AS)     # reference arrays after t steps
        I1, J1, I2 = z3.Function("I1", S32, S32), z3.Function("J1", S32, S32), z3.Function("I2", S32, S32)
        total = z3.If(n < 624, U32(624), n)
        def mix(A, i, m): x = z3.Select(A, i - 1); return z3.Select(A, i) ^ ((x ^ z3.LShR(x, 30)) * U32(m))
        def wrapi(A, i): return z3.If(i + 1 >= 624, z3.Store(A, U32(0), z3.Select(A, U32(623))), A), z3.If(i + 1 >= 624, U32(1), i + 1)
        def unfold1(t):
            A, i, j = S1(t), I1(t), J1(t)
            B, ni = wrapi(z3.Store(A, i, mix(A, i, 1664525) + kv(j) + j), i)
            return [S1(t + 1) == B, I1(t + 1) == ni, J1(t + 1) == z3.If(j + 1 >= n, U32(0), j + 1)]
        def unfold2(t):
            A, i = S2(t), I2(t)
            B, ni = wrapi(z3.Store(A, i, mix(A, i, 1566083941) - i), i)
            return [S2(t + 1) == B, I2(t + 1) == ni]
        V = lambda cx, x: e.z(cx.var(x), "i32")
        def once1(cx):
            cx.assume(S1(U32(0)) == arr(e, cx.st, a), I1(U32(0)) == 1, J1(U32(0)) == 0)
        def inv1(cx):
            t = total - V(cx, "k"); i, j = V(cx, "i"), V(cx, "j")
            return [("range", z3.And(V(cx, "k") >= 0, V(cx, "k") <= total, i >= 1, i < 624, j >= 0, j < n)), ("indices", z3.And(i == I1(t), j == J1(t))), ("state is the reference state", arr(e, cx.st, a) == S1(t)), ("cursor", mti(e, cx.st, a) == 624)]
        def once2(cx):
            cx.assume(S2(U32(0)) == S1(total), I2(U32(0)) == I1(total))
        def inv2(cx):
            t = U32(623) - V(cx, "k"); i = V(cx, "i")
            return [("range", z3.And(V(cx, "k") >= 0, V(cx, "k") <= 623, i >= 1, i < 624)), ("index", i == I2(t)), ("state is the reference state", arr(e, cx.st, a) == S2(t)), ("cursor", mti(e, cx.st, a) == 624)]
        e.loopspecs[k] = [LoopSpec(inv=inv1, force=True, once=once1, hints=lambda cx: cx.assume(*unfold1(total - V(cx, "k"))), variant=lambda cx: V(cx, "k")),
                          LoopSpec(inv=inv2, force=True, once=once2, hints=lambda cx: cx.assume(*unfold2(U32(623) - V(cx, "k"))), variant=lambda cx: V(cx, "k"))]
        rep.cover("key", st.pc)
        res, _ = e.verify(k, [key.sub(0), n], a, st)
        for s, _ in res:
            e.oblige(s, arr(e, s, a) == z3.Store(S2(U32(623)), U32(0), U32(0x80000000)), "state is the reference array initialisation", "post")
            e.oblige(s, mti(e, s, a) == 624, "cursor after the seeded words", "post")
            q = z3.BitVec(fresh_name("q"), 32)
            e.oblige(s, z3.Implies(z3.ULT(q, 624), z3.Select(S1(U32(0)), q) == R(U32(19650218), q)), "the array initialisation starts from seed 19650218", "post")
        if not res: raise Unsupported("no return")
        rep.take(e, k)
    return run

OUT = z3.Function("OUT", z3.IntSort(), S32)
def draws(rep):
    p = P()
    kn = p.find(CLS + "::next()")
    for name, t, exp in (("getUint32", "u32", lambda n: OUT(n)), ("getUint64", "u64", lambda n: z3.Concat(OUT(n), OUT(n + 1)))):
        e = MTExec(p); st = State(); a = obj(e, st); n0 = z3.Int("n"); st.ghost["n"] = n0
        def res(c):
            n = c.st.ghost["n"]; c.st.ghost["n"] = n + 1
            return OUT(n)
        e.contracts[kn] = Contract(kn, result=res)
        k = p.find(CLS + "::%s()" % name)
        for s, v in e.verify(k, [], a, st)[0]:
            e.oblige(s, e.z(v, t) == exp(n0), "the next %s of the stream" % ("word" if t == "u32" else "two words, high first"), "post")
            e.oblige(s, s.ghost["n"] == n0 + (1 if t == "u32" else 2), "number of words consumed", "post")
        rep.take(e, k)

def wrappers(cls, w, ArrT, objf, seedkeys):
    """seed(string), seed(array), constructors: hand over exactly their arguments"""
    def run(rep):
        p = P(); tags = {}
        ka = p.find("%s::seed_array<char>" % re.escape(cls)); kb = [x for x in p.functions if x.startswith("%s::seed_array<unsigned" % cls)][0]; ks = p.find(re.escape(cls) + r"::seed\(u64\)$")
        for k in [x for x in p.functions if x.startswith(cls + "::seed(") and x != ks] + [x for x in p.functions if x.startswith(cls + "::<ctor>(") and "&R:" + cls not in x]:
            e = MTExec(p); st = State(); ctor = "<ctor>" in k
            a = mkobj(e, st, cls, uninit=True) if ctor else objf(e, st)
            n = z3.BitVec("len", 32); st.assume(n >= 1)
            ch = e.new_obj(st, ArrV("i8", n, z3.Const("chars", z3.ArraySort(e.idxsort(), z3.BitVecSort(8)))), "chars")
            ky = e.new_obj(st, ArrV("u%d" % w, n, z3.Const("key", z3.ArraySort(e.idxsort(), z3.BitVecSort(w)))), "key")
            e.string = (ch.sub(0), z3.ZeroExt(32, n))
            calls = []
            def rec(what):
                def f(c): c.st.ghost["calls"] = c.st.ghost.get("calls", ()) + ((what, tuple(c.args[i] for i in range(2) if i in c.args)),)
                return f
            for x in (ka, kb, ks): e.contracts[x] = Contract(x, assigns=rec(x))
            ps = [q["t"] for q in p.functions[k]["params"]]
            sv = z3.BitVec("seed", 64); strv = e.new_obj(st, OPAQUE, "str")
            args = []
            for t in ps:
                args.append(strv if "basic_string" in t else ky.sub(0) if t.startswith("*") else n if t == "i32" else z3.Extract(int(t[1:]) - 1, 0, sv))
            for s, _ in e.verify(k, args, a, st)[0]:
                cs = s.ghost.get("calls", ())
                if len(cs) != 1: e.oblige(s, z3.BoolVal(False), "seeds exactly once", "post"); continue
                what, ar = cs[0]
                if any("basic_string" in t for t in ps): f = z3.BoolVal(what == ka and e.veq(ar[0], ch.sub(0))); g = e.z(ar[1], "i32") == n if what == ka else f
                elif any(t.startswith("*") for t in ps): f = z3.BoolVal(what == kb and e.veq(ar[0], ky.sub(0))); g = e.z(ar[1], "i32") == n if what == kb else f
                else:
                    d = {"MTToolBox::MersenneTwister": 5489, "MTToolBox::MersenneTwister64": 19650218}[cls]
                    x = args[0] if ps else bv(d, 64); x = z3.ZeroExt(64 - x.size(), x) if x.size() < 64 else x
                    f = z3.BoolVal(what == ks); g = e.z(ar[0], "u64") == x if what == ks else f
                e.oblige(s, z3.And(f, g), "seeds once with exactly the given data", "post")
                if ctor:
                    q = e.read(s, a.sub("mt"))
                    ln = e.read(s, LV(q.oid, q.path[:-1])).n if isinstance(q, LV) else 0
                    e.oblige(s, z3.BoolVal(is_conc(ln) and ln >= (1024 if w == 32 else 312)), "allocates the whole state", "post")
            rep.take(e, k)
    return run

def tasks(tier):
    return [Task("next", nexttask), Task("seed", seedtask), Task("seed_array<char>", arraytask("char"), weight=3), Task("seed_array<u32>", arraytask("unsigned int"), weight=3),
            Task("getUint32/64", draws), Task("wrappers", wrappers(CLS, 32, None, obj, None))]
