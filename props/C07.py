"""C07: zero test, zeroing, seeding, unit states of the bundled generators."""
from gens import *
import C05
UNITS = [g.unit for g in GENS]
LEVEL = "proof"
NOTE = "isZero() is true exactly when every effective state bit (ring from the cursor, oldest word through its mask; previous output by weight mode; lung) is zero; setZero() establishes that; setOneBit(i) leaves exactly the i-th state bit set, and the map i -> (word, bit) is injective; seed() leaves a state that is a function of the seed and the size alone (reference recursion), the parameters unchanged."
ASSUMPTIONS = ["class invariant of the parameters (C23)", "a pointer to the first 32-bit lane of an SIMD word walks over the lanes of the whole array of words (the words are contiguous; sizeof(w128_t) = 16)"]
TRUSTED = ["x % n for 0 <= x < 3n written as conditional subtraction (built-in simplification rule of the engine)"]

def partial(g, e, st, lv):
    """mask of the oldest word (ring offset 1), None = full"""
    if g.name.startswith("mt1"): return bv(0x80000000, 32)
    if g.name.startswith("mt2"): return g.field(e, st, lv, "upper_mask")
    if g.name == "MTGP32": return g.field(e, st, lv, "param.mask")
    return None

def eff(g, e, st, lv):
    """the effective scalar bits: list of terms that have to be zero"""
    sc = dict(zip([p for p, _ in g.scal], g.scalars(e, st, lv)))
    if g.name == "TinyMT32": return [sc["status.0"] & 0x7fffffff] + [sc["status.%d" % i] for i in (1, 2, 3)]
    if g.name in ("SFMT", "dSFMT"):
        wm = g.field(e, st, lv, "weight_mode"); p = sc["previous"]
        if g.name == "SFMT": return [z3.If(wm == 4, bv(0, 128), z3.If(wm == 3, p & (0xffffffff << 96), z3.If(wm == 2, p & (0xffffffffffffffff << 64), p & (((1 << 96) - 1) << 32))))]
        return [sc["lung"], z3.If(wm == 2, bv(0, 128), p & (0xffffffffffffffff << 64))]
    return list(sc.values())

def iszero(g):
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "g"); k = g.key(e, "isZero")
        rep.cover("state", st.pc)
        old = st.copy()
        E = eff(g, e, st, a)
        if g.ring:
            A, n, c = g.array(e, st, a), g.n(e, st, a), g.cursor(e, st, a)
            m = partial(g, e, st, a)
            word = lambda q: z3.Select(A, q) if m is None else z3.If(q == modn(c + 1, n), z3.Select(A, q) & m, z3.Select(A, q))
            zero = lambda q: z3.Implies(z3.And(q >= 0, q < n), word(q) == 0)
            if m is not None:
                def inv(cx):
                    i = e.z(cx.var("i"), "i32")
                    return [("range", z3.And(i >= 2, i <= n + 1)), ("state unchanged", z3.And(g.array(e, cx.st, a) == A, g.cursor(e, cx.st, a) == c)),
                            ("oldest word", z3.Select(A, modn(c + 1, n)) & m == 0),
                            ("words 2..i-1 after the cursor are zero", ForallGoal([IDX], lambda r: z3.Implies(z3.And(r >= 2, r < i), z3.Select(A, modn(c + r, n)) == 0), trig=ringtrig(c, n)))]
                e.loopspecs[k] = [LoopSpec(inv=inv, force=True, variant=lambda cx: n + 1 - e.z(cx.var("i"), "i32"))]
            else:
                def inv(cx):
                    i = e.z(cx.var("i"), "i32")
                    return [("range", z3.And(i >= 0, i <= n)), ("state unchanged", z3.And(g.array(e, cx.st, a) == A, g.cursor(e, cx.st, a) == c)),
                            ("words before i are zero", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i), z3.Select(A, q) == 0)))]
                e.loopspecs[k] = [LoopSpec(inv=inv, force=True, variant=lambda cx: n - e.z(cx.var("i"), "i32"))]
        for s, v in runs(e, st, k, [], a):
            v = v if is_z3(v) else z3.BoolVal(bool(v))
            v = e.tobool(v, "bool") if not z3.is_bool(v) else v
            # true -> zero
            s1 = s.copy(); s1.assume(v)
            for x in E: e.oblige(s1, x == 0, "true only if the effective words are zero", "post")
            if g.ring: e.oblige(s1, ForallGoal([IDX], zero, trig=ringtrig(c, n)), "true only if every ring word is zero", "post")
            # zero -> true
            s2 = s.copy(); s2.assume(z3.Not(v), *[x == 0 for x in E])
            if g.ring: s2.assume(ForallGoal([IDX], zero, trig=ringtrig(c, n)))
            e.oblige(s2, z3.BoolVal(False), "false only if an effective bit is set", "post")
            for nme, f in g.same_params(e, s, a, old, a): e.oblige(s, f, "parameter %s unchanged" % nme, "post")
            for x, y in zip(g.scalars(e, s, a), g.scalars(e, old, a)): e.oblige(s, x == y, "state unchanged", "post")
            if g.ring: e.oblige(s, z3.And(g.array(e, s, a) == A, g.cursor(e, s, a) == c), "state unchanged", "post")
        rep.take(e, k)
    return run

def ringtrig(c, n):
    """instances at integer constants t, at the ring position (c+t) mod n, and
    at the offset of t from the cursor"""
    def f(apps, sel, bysort):
        out = []
        for (t,) in consts_trig(apps, sel, bysort):
            out += [(t,), (modn(c + t, n),), (z3.If(t >= c, t - c, t - c + n),), (z3.If(t > c, t - c, t - c + n),)]
        for x in (0, 1): out += [(C(x),), (modn(c + x, n),)]
        return out
    return f

def counter(e, cx, want=1):
    """the loop counter, shifted so that it starts at want (a loop that starts one off is the same loop), and the shift"""
    i = e.toint(cx.var("i"), "i32"); i0 = z3.simplify(e.toint(cx.var("i", cx.entry), "i32"))
    d = want - i0.as_long() if z3.is_int_value(i0) and abs(want - i0.as_long()) <= 1 else 0
    return i + d, d
def carried(e, cx, first, word):
    """locals that hold the first word when the loop starts and that the loop changes carry the previous word"""
    same = lambda x, y: is_z3(x) and z3.is_bv(x) and x.size() == y.size() and z3.eq(z3.simplify(x), z3.simplify(y))
    val = lambda vid: e.read(cx.st, cx.st.env[vid][1])
    if "carried" not in cx.g:                                     # on entry
        c = cx.g["carried"] = []
        for vid in cx.st.env:
            try:
                if same(val(vid), first): c.append(vid)
            except Exception: pass
    elif "changed" not in cx.g: cx.g["changed"] = [v for v in cx.g["carried"] if not same(val(v), first)]      # arbitrary iteration
    return [("%s is the word before i" % cx.st.env[v][0], val(v) == word) for v in cx.g.get("changed", cx.g["carried"])]

def seeding128(g, rep, e, st, a, k, n, old, r):
    """the 32-bit words of the state array, seen as one array of 4n words; the proof for loop states with i mod 4 = r"""
    v = z3.BitVec("v", 128); R = z3.Function("R.seed", IDX, z3.BitVecSort(32))
    lane = lambda x, j: z3.Extract(32 * j + 31, 32 * j, x)
    def base(p):
        r = bv(0, 32)
        for j in (3, 2, 1, 0): r = z3.If(p == j, lane(v, j), r)
        return r
    st.assume(R(0) == lane(v, 0))
    def inv(cx):
        A = g.array(e, cx.st, a); i, _ = counter(e, cx)
        W_ = lambda p: z3.If(p < i, R(p), base(p))
        return [("range", z3.And(i >= 1, i <= 4 * n))] + [("lane %d of every word" % j, ForallGoal([IDX], lambda q, j=j: z3.Implies(z3.And(q >= 0, q < n), lane(z3.Select(A, q), j) == W_(4 * q + j)), trig=alltrig(i))) for j in range(4)] + carried(e, cx, lane(v, 0), R(i - 1))
    def alltrig(i):
        return lambda apps, sel, bysort: list(consts_trig(apps, sel, bysort)) + [(t,) for t in sel.get("Int", {}).values()] + [(i / 4,)]
    def residue(cx):
        i, d = counter(e, cx); j = z3.Int(fresh_name("word"))
        cx.assume(i == 4 * j + r)
        x = lane(z3.Select(g.array(e, cx.st, a), j - (r == 0)), (r + 3) % 4)
        e.oblige(cx.st, x == R(i - 1), "the previous 32-bit word is the reference one", "lemma"); cx.assume(x == R(i - 1))
        for vid in cx.g.get("changed", ()): e.write(cx.st, cx.st.env[vid][1], x)      # equal by the invariant
        cx.assume(R(i) == base(i) ^ (z3.Int2BV(4 * j + r, 32) + bv(1812433253, 32) * (x ^ z3.LShR(x, 30))))          # definition of R at i
        e.write(cx.st, cx.varlv("i"), 4 * j + r - d)
    e.loopspecs[k] = [LoopSpec(inv=inv, hints=residue, force=True, variant=lambda cx: 4 * n - counter(e, cx)[0])]
    kz = g.key(e, "setZero"); e.loopspecs[kz] = C05.setzero_loops(g, e, st, a, n)
    arg = e.new_obj(st, v, "seedarg")
    for s, _ in runs(e, st, k, [v], a):
        A = g.array(e, s, a); sc = dict(zip([p for p, _ in g.scal], g.scalars(e, s, a)))
        for j in range(4): e.oblige(s, ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < n), lane(z3.Select(A, q), j) == R(4 * q + j))), "lane %d of the state is the reference seeding of v" % j, "post")
        e.oblige(s, z3.And(sc["previous"] == 0, g.cursor(e, s, a) == 0), "previous output and cursor cleared", "post")
        for nme, f2 in g.same_params(e, s, a, old, a): e.oblige(s, f2, "parameter %s unchanged" % nme, "post")
    rep.take(e, k)

ALT = {"MTGP32": True}
def seeding(g, r=None):
    """seed(v): every word is the reference recursion R(v, .)"""
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "g")
        W = 64 if g.out == "u64" or g.name == "dSFMT" else 32
        rep.cover("state", st.pc)
        if not g.ring:
            k = g.key(e, "seed"); v = z3.BitVec("v", 32)
            ref = {"TinyMT32": [bv(0, 32)] * 3 + [v]}.get(g.name, [v, v, v, ~v])
            old = st.copy()
            for s, _ in runs(e, st, k, [v], a):
                for (p, _), x, y in zip(g.scal, g.scalars(e, s, a), ref): e.oblige(s, x == y, "word %s is the function of the seed" % p, "post")
                for nme, f in g.same_params(e, s, a, old, a): e.oblige(s, f, "parameter %s unchanged" % nme, "post")
            rep.take(e, k); return
        k = g.key(e, "seed"); n = g.n(e, st, a); old = st.copy()
        sort = z3.BitVecSort(W); R = z3.Function("R.seed", IDX, sort)
        def f(x, i): # next word of the reference seeding
            return (bv(1812433253, 32) * (x ^ z3.LShR(x, 30)) if W == 32 else bv(6364136223846793005, 64) * (x ^ z3.LShR(x, 62))) + z3.Int2BV(i, W)
        if g.name == "SFMT": return seeding128(g, rep, e, st, a, k, n, old, r)
        if g.name != "dSFMT":
            v = z3.BitVec("v", W)
            st.assume(R(0) == v)
            def inv(cx):
                A = g.array(e, cx.st, a); i, _ = counter(e, cx)
                cx.assume(R(i) == f(R(i - 1), i))          # definition of R at i
                return [("range", z3.And(i >= 1, i <= n)), ("words before i", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i), z3.Select(A, q) == R(q)), trig=prevtrig))] + carried(e, cx, v, R(i - 1))
            e.loopspecs[k] = [LoopSpec(inv=inv, force=True, variant=lambda cx: n - counter(e, cx)[0])]
            for s, _ in runs(e, st, k, [v], a):
                A = g.array(e, s, a)
                e.oblige(s, ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < n), z3.Select(A, q) == R(q))), "state is the reference seeding of v", "post")
                e.oblige(s, g.cursor(e, s, a) == n - 1, "cursor at the last word", "post")
                for nme, f2 in g.same_params(e, s, a, old, a): e.oblige(s, f2, "parameter %s unchanged" % nme, "post")
            rep.take(e, k); return
        v = z3.BitVec("v", 128); lo, hi = z3.Extract(63, 0, v), z3.Extract(127, 64, v)
        # reference: p[0] = lo, p[1] = hi ^ f(p[0],1), p[i] = f(p[i-1], i)
        st.assume(R(0) == lo)
        nn = 2 * (n + 1)
        arg = e.new_obj(st, v, "seedarg"); 
        def parr(cx):
            p = cx.var("pstate"); return e.flush(e.read(cx.st, LV(p.oid, p.path[:-1])))
        def inv1(cx):
            P = parr(cx); i = e.z(cx.var("i"), "i32")
            return [("range", z3.And(i >= 0, i <= nn)), ("cleared", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i), z3.Select(P, q) == 0)))]
        def inv2(cx):
            P = parr(cx); i, _ = counter(e, cx)
            cx.assume(R(i) == z3.If(i == 1, hi, bv(0, 64)) ^ f(R(i - 1), i))
            return [("range", z3.And(i >= 1, i <= nn)), ("words before i", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i), z3.Select(P, q) == R(q)), trig=twotrig)),
                    ("words from i", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= i, q < nn), z3.Select(P, q) == z3.If(q == 1, hi, bv(0, 64))), trig=twotrig))] + carried(e, cx, lo, R(i - 1))
        def inv3(cx):
            P = parr(cx); i = e.z(cx.var("i"), "i32"); A = g.array(e, cx.st, a)
            return [("range", z3.And(i >= 0, i <= n)), ("copied", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i), z3.Select(A, q) == z3.Concat(z3.Select(P, 2 * q + 1), z3.Select(P, 2 * q))), trig=consts_trig))]
        specs = [(inv1, nn, 0), (inv2, nn, 1), (inv3, n, 0)]
        e.loopspecs[k] = [LoopSpec(inv=i, force=True, variant=lambda cx, m=m, w=w: m - counter(e, cx, w)[0]) for i, m, w in specs]
        k2 = g.key(e, "setup_prefix"); prefix = g.field(e, st, a, "prefix")
        def setup(which):
            def inv(cx):
                i = e.z(cx.var("i"), "i32"); A = g.array(e, cx.st, a); B = g.array(e, cx.entry, a)
                clear = bv(0xfffffffffffff, 64); pp = z3.Concat(prefix, prefix)
                h = (lambda x: x & z3.Concat(clear, clear)) if which == 0 else (lambda x: x | pp)
                return [("range", z3.And(i >= 0, i <= n)), ("done before i", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < n), z3.Select(A, q) == z3.If(q < i, h(z3.Select(B, q)), z3.Select(B, q))), trig=consts_trig))]
            return LoopSpec(inv=inv, force=True, variant=lambda cx: n - e.z(cx.var("i"), "i32"))
        e.loopspecs[k2] = [setup(0), setup(1)]
        for s, _ in runs(e, st, k, [v], a):
            A = g.array(e, s, a); sc = dict(zip([p for p, _ in g.scal], g.scalars(e, s, a)))
            cl = bv(0xfffffffffffff, 64)
            m = lambda x: z3.If(prefix == 0, x & cl, (x & cl) | prefix)
            for z in (0, 1):
                e.oblige(s, ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < n), z3.Extract(64 * z + 63, 64 * z, z3.Select(A, q)) == m(R(2 * q + z)))), "half %d of the state is the reference seeding of v" % z, "post")
            e.oblige(s, sc["lung"] == z3.Concat(R(2 * n + 1), R(2 * n)), "lung is the end of the reference seeding", "post")
            e.oblige(s, z3.And(sc["previous"] == 0, g.cursor(e, s, a) == 0), "previous output and cursor cleared", "post")
            for nme, f2 in g.same_params(e, s, a, old, a): e.oblige(s, f2, "parameter %s unchanged" % nme, "post")
        rep.take(e, k)
    return run

def prevtrig(apps, sel, bysort):
    out = []
    for (t,) in consts_trig(apps, sel, bysort): out += [(t,), (t - 1,)]
    return out + [(C(0),), (C(1),)]
def twotrig(apps, sel, bysort):
    out = []
    for (t,) in consts_trig(apps, sel, bysort): out += [(t,), (t - 1,), (2 * t,), (2 * t + 1,)]
    return out + [(C(0),), (C(1),)]

def onebit(g):
    """setOneBit(i): exactly the i-th bit"""
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "g"); n = g.n(e, st, a); i = z3.Int("i")
        size = {"RMT64": 64 * n, "SFMT": 128 * n, "dSFMT": 104 * n + 128}[g.name]
        st.assume(i >= 0, i < size)
        kz = g.key(e, "setZero"); e.loopspecs[kz] = C05.setzero_loops(g, e, st, a, n)
        k = g.key(e, "setOneBit")
        rep.cover("bit position", st.pc)
        old = st.copy()
        one = lambda w, r: bv(1, w) << z3.Int2BV(r, w)
        for s, _ in runs(e, st, k, [i], a):
            A = g.array(e, s, a); sc = dict(zip([p for p, _ in g.scal], g.scalars(e, s, a)))
            if g.name == "dSFMT":
                inl = i >= 104 * n; cell = i / 104; half, r = (i / 52) % 2, i % 52; j = i - 104 * n
                word = z3.If(half == 0, z3.Concat(bv(0, 64), one(64, r)), z3.Concat(one(64, r), bv(0, 64)))
                ring = lambda q: z3.Select(A, q) == z3.If(z3.And(z3.Not(inl), q == cell), word, bv(0, 128))
                for q, cs in enumerate((z3.And(j >= 0, j < 64), z3.And(j >= 64, j < 128), j < 0)):
                  t = s.copy(); t.assume(cs, z3.Implies(z3.And(j >= 0, j < 64), z3.And(j / 64 == 0, j % 64 == j)), z3.Implies(z3.And(j >= 64, j < 128), z3.And(j / 64 == 1, j % 64 == j - 64)))
                  e.oblige(t, z3.And(sc["previous"] == 0, sc["lung"] == z3.If(inl, z3.If((j / 64) % 2 == 0, z3.Concat(bv(0, 64), one(64, j % 64)), z3.Concat(one(64, j % 64), bv(0, 64))), bv(0, 128))), "lung holds bit i - 104 n and nothing else", "post")
            elif g.name == "SFMT":
                word = z3.If((i / 64) % 2 == 0, z3.Concat(bv(0, 64), one(64, i % 64)), z3.Concat(one(64, i % 64), bv(0, 64)))
                ring = lambda q: z3.Select(A, q) == z3.If(q == i / 128, word, bv(0, 128))
                e.oblige(s, sc["previous"] == 0, "previous output cleared", "post")
            else:
                ring = lambda q: z3.Select(A, q) == z3.If(q == i / 64, one(64, i % 64), bv(0, 64))
            e.oblige(s, ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < n), ring(q))), "exactly bit i of the state is set", "post")
            e.oblige(s, z3.And([z3.BoolVal(True)] + g.inv(e, s, a)), "class invariant", "post")
            for nme, f2 in g.same_params(e, s, a, old, a): e.oblige(s, f2, "parameter %s unchanged" % nme, "post")
        # injectivity of i -> (word, bit), and one-hot words
        s = State(); x, y, m = z3.Ints("x y m"); s.assume(x >= 0, y >= 0, m >= 3)
        if g.name == "dSFMT":
            e.oblige(s, x == 104 * (x / 104) + 52 * ((x / 52) % 2) + x % 52, "a position is 104 cell + 52 half + bit", "lemma")
            P = lambda z: (z / 104, (z / 52) % 2, z % 52); G = lambda z: z == 104 * P(z)[0] + 52 * P(z)[1] + P(z)[2]
            px, py = z3.Ints("cx hx bx"), z3.Ints("cy hy by")     # the three coordinates, named
            for z, p in ((x, px), (y, py)): s.assume(z3.Implies(z < 104 * m, z == 104 * p[0] + 52 * p[1] + p[2]))
            s.assume((x < 104 * m) == (y < 104 * m), z3.Implies(x < 104 * m, z3.And([u == w for u, w in zip(px, py)])), z3.Implies(x >= 104 * m, x - 104 * m == y - 104 * m))
        else:
            w = 64 if g.name == "RMT64" else 128
            s.assume(x / w == y / w, x % w == y % w)
        e.oblige(s, x == y, "the bit position is injective", "lemma")
        r = z3.BitVec("r", 64); s = State(); s.assume(z3.ULT(r, 64)); o = bv(1, 64) << r
        e.oblige(s, z3.And(o != 0, o & (o - 1) == 0), "1 << r has exactly one bit", "lemma")
        rep.take(e, k)
    return run

def zeroed(g):
    f = C05.zero(g)
    return f

def tasks(tier):
    T = []
    for g in GENS:
        T.append(Task(g.name + " isZero", iszero(g), weight=3))
        T.append(Task(g.name + " setZero", zeroed(g), weight=2))
        T += [Task(g.name + " seed, 32-bit words %d mod 4" % r, seeding(g, r), weight=3) for r in range(4)] if g.name == "SFMT" else [Task(g.name + " seed", seeding(g), weight=3)]
        if g.name in ("RMT64", "SFMT", "dSFMT"): T.append(Task(g.name + " setOneBit", onebit(g), weight=4))
    return T
