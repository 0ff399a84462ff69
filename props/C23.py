"""C23: parameter setup of the bundled generators."""
from gens import *
UNITS = [g.unit for g in GENS if not g.name.startswith("mt1")] + ["util.cpp"]
LEVEL = "proof"
NOTE = "setUpParam() of every bundled generator against an arbitrary parameter source (the k-th draw is an unconstrained word): the parameters are the documented function of the draws and of the configured id / fixed values, they satisfy the documented ranges (the class invariant assumed by C05-C07), the state is untouched, and exactly the documented number of draws is consumed. Tempering tables (MTGP) are XOR-linear. Every constructor from a Mersenne exponent (mt2, MTGP32, RMT64, SFMT, dSFMT; seeding inlined) gives the documented number of state words, storage for all of them, a cursor inside the state, the masks of the partial word, the id, the given parameters and the default modes."
ASSUMPTIONS = ["documented Mersenne exponents: the state has at least 4 words (MTGP: size - floor2p(size) - 1 >= 3 above 100 words, size >= 8 below)"]
TRUSTED = ["% is the remainder of the SMT theory of bit vectors", "ParameterGenerator::getUint32/getUint64 return arbitrary values and change nothing else (C02-C04)"]

D = {32: z3.Function("draw32", z3.IntSort(), z3.BitVecSort(32)), 64: z3.Function("draw64", z3.IntSort(), z3.BitVecSort(64))}

UREM = z3.Function("urem", z3.BitVecSort(32), z3.BitVecSort(32), z3.BitVecSort(32))
class PGExec(LibExec):
    uf_rem = False
    def div_hook(self, st, op, a, b, t, line):
        """the remainder as a function symbol with its range (congruence suffices)"""
        if not self.uf_rem or op != "%" or t != "u32" or z3.is_bv_value(z3.simplify(b)): return None
        st.pc.append(z3.ULT(UREM(a, b), b)); return UREM(a, b)
    def has_intrinsic(self, fn): return fn["qn"].startswith("MTToolBox::ParameterGenerator::") or super().has_intrinsic(fn)
    def intrinsic(self, fn, this, args, e, st, ctor_type=None):
        if fn["n"] in ("getUint32", "getUint64") and "ParameterGenerator" in fn["qn"]:
            k = st.ghost.get("draws", z3.IntVal(0)); st.ghost["draws"] = z3.simplify(k + 1)
            return D[int(fn["n"][-2:])](k)
        return super().intrinsic(fn, this, args, e, st, ctor_type)

F2P = z3.Function("floor2p", z3.BitVecSort(32), z3.BitVecSort(32))      # the value of the (deterministic) function
def floor2p_int():
    def ens(c):
        n = list(c.args.values())[0]; n = n if is_z3(n) else bv(n, 32); r = c.result
        return [("power of two", z3.And(r > 0, r & (r - 1) == 0)), ("at most n", r <= n), ("more than half", r > n - r)]
    return Contract("MTToolBox::floor2p<int>", result=lambda c: (lambda n: F2P(n if is_z3(n) else bv(n, 32)))(list(c.args.values())[0]), requires=lambda c: [("n >= 1", (lambda n: n >= 1)(list(c.args.values())[0]))], ensures=ens)

def tables(e, st, lv, tb, p):
    """p[i] == XOR of the rows of tb selected by the bits of i"""
    row = lambda f, i: e.z(e.read(st, LV(lv.oid, lv.path + ("param", f, i))), "u32")
    out = []
    for i in range(16):
        x = bv(0, 32)
        for k in range(4):
            if i >> k & 1: x = x ^ row(tb, k)
        out.append(row(p, i) == x)
    return z3.And(out)

def setup(g):
    def run(rep):
        p = g.prog(); e = PGExec(p); st = State(); e.uf_rem = g.name == "MTGP32"
        a = mkobj(e, st, g.cls, name="g")
        F = lambda s, path: (lambda v: v if is_z3(v) else v)(e.read(s, LV(a.oid, a.path + tuple(int(x) if x.isdigit() else x for x in path.split(".")))))
        n = None
        if g.ring:
            n = F(st, g.ring[1]); st.assume(n >= (8 if g.name == "MTGP32" else 4), n <= 1 << 20)
        src = e.new_obj(st, OPAQUE, "source"); e.otype[src.oid] = "R:MTToolBox::ParameterGenerator"
        k = g.key(e, "setUpParam")
        if g.name == "MTGP32":
            fk = p.find(r"::floor2p<int>\(i32\)$")
            e.contracts[fk] = floor2p_int()
            st.assume(z3.Implies(n > 100, n - F2P(n) - 1 >= 3), F2P(n) >= 1, F2P(n) <= n)
            # the contract determines floor2p: two values satisfying it are equal
            x, y, m = z3.BitVecs("x y m", 32); C_ = lambda r: z3.And(r > 0, r & (r - 1) == 0, r <= m, r > m - r)
            t = State(); t.assume(m >= 1, C_(x), C_(y)); e.oblige(t, x == y, "the contract determines floor2p", "lemma")
        rep.cover("any object", st.pc)
        old = st.copy(); W = {"RMT64": 64, "dSFMT": 64}.get(g.name, 32)
        d = lambda i: D[W](i if is_z3(i) else z3.IntVal(i))
        for s, _ in runs(e, st, k, [src], a):
            P = lambda path, w=32: e.z(F(s, path), "u%d" % w)
            cnt = s.ghost.get("draws", z3.IntVal(0))
            out = []; touched = set()
            if g.name == "xorshift-3":
                r = d(0); out = [("a", z3.ZeroExt(16, P("a", 16)) == r & 31), ("b", z3.ZeroExt(16, P("b", 16)) == z3.LShR(r, 5) & 31), ("c", z3.ZeroExt(16, P("c", 16)) == z3.LShR(r, 10) & 31)]
                out += [("shift range", z3.And(inv)) for inv in [xs3inv(g, e, s, a)]]; touched = {"a", "b", "c"}; dn = 1
            elif g.name == "xorshift-4":
                r = d(0); out = [("c", z3.ZeroExt(16, P("c", 16)) == r & 31), ("b", z3.ZeroExt(16, P("b", 16)) == z3.LShR(r, 5) & 31), ("a", z3.ZeroExt(16, P("a", 16)) == z3.LShR(r, 10) & 31),
                                 ("pattern", tw(P, F(s, "pat")) == z3.LShR(r, 15) & 7), ("shift range", z3.And(xs3inv(g, e, s, a)))]
                touched = {"a", "b", "c", "pat"}; dn = 1
            elif g.name in ("xorshift-2", "xorshift-5"): dn = 0
            elif g.name == "TinyMT32":
                num, idv = d(0), e.z(F(old, "param.id"), "u32"); wk = (num ^ (num << 15) ^ (num << 23)) << 1
                u1 = (wk & 0xffff0000) | (idv & 0xffff); u2 = (wk & 0xffff) | (idv & 0xffff0000)
                out = [("mat1", P("param.mat1") == u1 ^ z3.LShR(u1, 19)), ("mat2", P("param.mat2") == u2 ^ (u2 << 18) ^ 1), ("tmat cleared", P("param.tmat") == 0), ("id kept", P("param.id") == idv)]
                m1, m2 = P("param.mat1"), P("param.mat2") ^ 1; v1 = m1 ^ z3.LShR(m1, 19); v2 = m2 ^ (m2 << 18)
                out.append(("the id is carried in the documented bits", (v1 & 0xffff) | (v2 & 0xffff0000) == idv))
                touched = {"param"}; dn = 1
            elif g.name.startswith("mt2"):
                idv = e.z(F(old, "id"), "i32"); m = d(1)
                out = [("pos", P("pos") == z3.URem(d(0), n - 2) + 2), ("pos in range", z3.And(P("pos") >= 2, P("pos") < n)), ("mata", P("mata") == z3.If(idv >= 0, (m & 0xffff0000) | (idv & 0xffff), m))]
                touched = {"pos", "mata"}; dn = 2
            elif g.name == "RMT64":
                ps = P("pos"); out = [("pos", z3.ZeroExt(32, ps) == z3.URem(d(0), z3.SignExt(32, n))), ("pos in range", z3.And(ps >= 0, ps < n)), ("mata", P("mata", 64) == d(1))]
                touched = {"pos", "mata"}; dn = 2
            elif g.name == "MTGP32":
                idv = P("param.id"); f = F2P(n); t = s
                hi = z3.If(n > 100, n - f - 1, n / 2 - 1); ps = P("param.pos")
                e.oblige(t, z3.And(ps >= 3, ps <= hi, ps < n), "pick-up position in its range", "post")
                e.oblige(t, ps == UREM(d(0), hi - 3 + 1) + 3, "pick-up position is the documented function of the draw", "post")
                out = [("shifts", z3.And(P("param.sh1") == 13, P("param.sh2") == 4))]
                for i in range(4):
                    x = d(1 + i); x = z3.If(x & 15 == 1 << i, x ^ (1 << i), x)
                    if i == 2: x = (x & 0xfff0000f) ^ ((idv << 4) & 0x000ffff0)
                    if i == 3: x = (x & 0xffff) ^ (idv & 0xffff0000)
                    out += [("table row %d" % i, P("param.tbl.%d" % i) == x), ("row %d is not degenerate" % i, P("param.tbl.%d" % i) & 15 != 1 << i)]
                out.append(("the recursion table is XOR-linear", tables(e, s, a, "tbl", "p")))
                out.append(("other parameters kept", z3.And([z3.BoolVal(True)] + [x for x in [eqv(e, F(old, "param." + f_), F(s, "param." + f_)) for f_ in ("id", "mexp", "mask", "tmp_tbl", "tp")] if x is not True])))
                touched = {"param"}; dn = 5
            elif g.name == "SFMT":
                ps = P("param.pos1")
                out = [("pos1", ps == z3.URem(d(0), n - 2) + 1), ("pos1 in range", z3.And(ps >= 1, ps < n - 1)),
                       ("sl1", P("param.sl1") == z3.URem(d(1), bv(31, 32)) + 1), ("sl2", P("param.sl2") == z3.URem(d(2), bv(4, 32)) * 2 + 1), ("sr1", P("param.sr1") == z3.URem(d(3), bv(31, 32)) + 1), ("sr2", P("param.sr2") == z3.URem(d(4), bv(4, 32)) * 2 + 1),
                       ("shift ranges", z3.And([z3.And(P("param." + q) > 0, P("param." + q) < h) for q, h in (("sl1", 32), ("sr1", 32), ("sl2", 8), ("sr2", 8))]))]
                out += [("msk%d" % (q + 1), P("param.msk%d" % (q + 1)) == d(5 + 2 * q) | d(6 + 2 * q)) for q in range(4)]
                touched = {"param"}; dn = 13
                out.append(("other parameters kept", z3.And([z3.BoolVal(True)] + [x for x in [eqv(e, F(old, "param." + f_), F(s, "param." + f_)) for f_ in ("mexp", "parity1", "parity2", "parity3", "parity4")] if x is not True])))
            elif g.name == "dSFMT":
                ps = P("param.pos1"); fx = e.tobool(F(old, "fixed"), "bool"); fx = fx if is_z3(fx) else z3.BoolVal(fx)
                q = z3.If(fx, C(1), C(2)); M = 0xfffffffffffff
                out = [("pos1", z3.ZeroExt(32, ps) == z3.URem(d(0), z3.SignExt(32, n) - 2) + 1), ("pos1 in range", z3.And(ps >= 1, ps < n - 1)),
                       ("sl1", z3.ZeroExt(32, P("param.sl1")) == z3.If(fx, z3.ZeroExt(32, e.z(F(old, "fixedSL1"), "i32")), z3.URem(d(1), bv(51, 64)) + 1)), ("sl1 in range", z3.Implies(z3.Not(fx), z3.And(P("param.sl1") >= 1, P("param.sl1") <= 51))),
                       ("msk1", P("param.msk1", 64) == (d(q) | d(q + 1)) & M), ("msk2", P("param.msk2", 64) == (d(q + 2) | d(q + 3)) & M)]
                touched = {"param"}; dn = q + 4
                out.append(("other parameters kept", z3.And([z3.BoolVal(True)] + [x for x in [eqv(e, F(old, "param." + f_), F(s, "param." + f_)) for f_ in ("mexp", "parity1", "parity2", "fix1", "fix2")] if x is not True])))
            for l, f in out: e.oblige(s, f, l, "post")
            e.oblige(s, cnt == dn, "number of draws", "post")
            for (_, nme, t) in e.fields_of(g.cls):
                if nme in touched: continue
                f = eqv(e, e.read(old, a.sub(nme)), e.read(s, a.sub(nme)))
                e.oblige(s, f if is_z3(f) else z3.BoolVal(bool(f)), "%s unchanged" % nme, "post")
        rep.take(e, k)
    return run

def tw(P, v):
    v = v if is_z3(v) else bv(v, 32)
    return v if v.size() == 32 else z3.ZeroExt(32 - v.size(), v)

def tempering(rep):
    """MTGP tempering: setTemperingPattern touches only the masked bits of one
    row; setUpTempering fills an XOR-linear table from the rows"""
    g = BY["MTGP32"]; p = g.prog()
    e = PGExec(p); st = State(); a = mkobj(e, st, g.cls, name="g"); old = st.copy()
    k = g.key(e, "setUpTempering")
    for s, _ in runs(e, st, k, [], a):
        e.oblige(s, tables(e, s, a, "tmp_tbl", "tp"), "the tempering table is XOR-linear", "post")
        for f_ in ("id", "mexp", "mask", "tbl", "tmp_tbl", "p", "pos", "sh1", "sh2"):
            f = eqv(e, e.read(old, a.sub("param").sub(f_)), e.read(s, a.sub("param").sub(f_)))
            if f is not True: e.oblige(s, f, "%s unchanged" % f_, "post")
    rep.take(e, k)

def floor2p(rep):
    p = BY["MTGP32"].prog(); e = LibExec(p, idx="bv" if False else "int"); st = State()
    k = p.find(r"::floor2p<int>\(i32\)$"); n = z3.BitVec("n", 32); st.assume(n >= 1)
    e.loopspecs[k] = []
    rep.cover("n >= 1", st.pc)
    for s, v in runs(e, st, k, [n], None):
        r = e.z(v, "i32"); e.oblige(s, z3.And(r > 0, r & (r - 1) == 0), "power of two", "post"); e.oblige(s, z3.And(r <= n, r > n - r), "largest not above n", "post")
    rep.take(e, k)

SIZES = {"mt2 MT32Search": lambda m: m / 32 + 1, "MTGP32": lambda m: m / 32 + 1, "RMT64": lambda m: m / 64 + 1, "SFMT": lambda m: m / 128 + 1, "dSFMT": lambda m: (m - 128) / 104 + 1}
WORDS = {"mt2 MT32Search": 32, "MTGP32": 32, "RMT64": 64}
def ctorkeys(g):
    return [k for k in g.prog().functions if k.startswith(g.cls + "::<ctor>(") and not k.endswith("(&R:%s)" % g.cls)]
def construct(g, sig):
    """the constructors from a Mersenne exponent: size, storage, masks, id and modes"""
    def run(rep):
        p = g.prog(); e = g.engine(); st = State(); k = g.cls + "::<ctor>" + sig; f = p.functions.get(k)
        if f is None: raise AnnotationMismatch("constructor %s of %s is missing" % (sig, g.cls))
        a = mkobj(e, st, g.cls, uninit=True, name="g"); args = []; src = None
        for q in f["params"]:
            if q["t"].startswith("&R:"): src = mkobj(e, st, q["t"][3:], name="param"); args.append(src)
            else: args.append(e.fresh(q["t"], q["n"] or "arg", st))
        m = e.toint(e.read(st, src.sub("mexp")), "i32") if src is not None else e.toint(args[0], "i32")
        st.assume(m >= 128, m <= 1 << 26, m % 32 != 0)            # a Mersenne exponent is odd
        rep.cover("a Mersenne exponent", st.pc)
        N = SIZES[g.name](m)
        fld = g.ring[0]; own = lambda s: (lambda v: s.store[v.oid])(e.read(s, a.sub(fld)))
        def start(cx):                                             # counted up from a constant, or down from the last word (0: or from the size)
            i0 = z3.simplify(e.toint(cx.var("i", cx.entry), "i32"))
            if z3.is_int_value(i0): return i0.as_long(), None
            for c in (-1, 0):
                so = z3.Solver(); so.set("timeout", 3000); so.add(*[x for x in cx.entry.pc if is_z3(x)], i0 != N + c)
                if so.check() == z3.unsat: return None, c
            raise AnnotationMismatch("loop start %s" % i0)
        def inv(cx):
            i = e.toint(cx.var("i"), "i32"); v = e.read(cx.st, a.sub(fld)); lo, c = start(cx); out = [("range", z3.And(i >= (c if lo is None else lo), i <= (N + c if lo is None else N)))]
            if src is not None:
                A = e.flush(cx.st.store[v.oid])
                out.append(("words already visited are zero", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < N, q >= i - c if lo is None else q < i), z3.Select(A, q) == 0), trig=consts_trig)))
            return out
        def var(cx): i = e.toint(cx.var("i"), "i32"); return N - i if start(cx)[1] is None else i + 1
        for kk in (k, g.cls + "::seed(u%d)" % WORDS.get(g.name, 0)):
            if kk in p.functions: e.loopspecs[kk] = [LoopSpec(inv=inv, force=True, variant=var)]
        for s, _ in runs(e, st, k, args, a):
            O = lambda f_, n_: e.oblige(s, f_, n_, "post")
            I_ = lambda path, want, what: O(e.toint(e.read(s, LV(a.oid, a.path + tuple(path.split(".")))), "i32") == want, what)
            B_ = lambda path, w, want, what: O(e.z(e.read(s, LV(a.oid, a.path + tuple(path.split(".")))), "u%d" % w) == want, what)
            V_ = lambda path, what: O(z3.Not(e.tobool(e.read(s, LV(a.oid, a.path + tuple(path.split(".")))))), what)
            I_(g.ring[1], N, "number of state words"); v = e.read(s, a.sub(fld))
            O(z3.BoolVal(isinstance(v, LV) and v.oid != a.oid and len(v.path) == 1 and is_zero(v.path[0])), "own state array")
            L = s.store[v.oid].n
            O((L if is_z3(L) and z3.is_int(L) else e.toint(L, "u64")) == N, "storage for every state word")
            c = e.toint(e.read(s, a.sub(g.ring[2])), "i32"); O(z3.And(c >= 0, c < N), "cursor inside the state")
            A = lambda j: e.z(args[j], f["params"][j]["t"]); name = g.name; mask = bv(0xffffffff, 32) << z3.Int2BV(32 * N - m, 32)
            if name.startswith("mt2"):
                I_("mexp", m, "exponent kept"); B_("upper_mask", 32, mask, "mask of the partial word"); B_("lower_mask", 32, ~mask, "mask of the rest"); V_("reverse", "output not reversed")
                I_("id", e.toint(args[1], "i32"), "id kept")
                if len(args) > 3:
                    I_("pos", e.toint(args[2], "i32"), "position kept")
                    for j, n_ in ((3, "mata"), (4, "maskb"), (5, "maskc")): B_(n_, 32, A(j), n_ + " kept")
                else: B_("maskb", 32, 0, "no tempering yet"); B_("maskc", 32, 0, "no tempering yet")
            elif name == "MTGP32":
                I_("param.mexp", m, "exponent kept"); B_("param.mask", 32, mask, "mask of the partial word"); B_("param.id", 32, A(1), "id kept"); V_("reverse_bit_flag", "output not reversed")
            elif name == "RMT64":
                I_("mexp", m, "exponent kept"); V_("reverse", "output not reversed"); B_("parity", 64, 0, "no parity yet")
                if len(args) > 2: I_("pos", e.toint(args[1], "i32"), "position kept"); B_("mata", 64, A(2), "mata kept")
                for j, n_ in ((3, "maskb"), (4, "maskc")): B_(n_, 64, A(j) if len(args) > 4 else 0, n_)
            else:
                I_("start_mode", 0, "start position 0"); I_("weight_mode", 4 if name == "SFMT" else 2, "all elements drawn")
                O(e.read(s, a.sub("previous")) == 0, "no previous output")
                if name == "SFMT": V_("reverse_bit_flag", "output not reversed")
                else:
                    O(e.read(s, a.sub("lung")) == 0, "lung cleared"); B_("prefix", 64, 0, "no prefix"); V_("fixed", "shift not fixed")
                for (_, fn, ty) in e.fields_of(g.cls + "_param"):
                    if not int_ty(ty): continue
                    x = e.z(e.read(s, a.sub("param").sub(fn)), ty)
                    O(x == (e.z(e.read(st, src.sub(fn)), ty) if src is not None else m if fn == "mexp" else e.z(0, ty)), "parameter %s" % fn)
                if src is not None:
                    A_ = g.array(e, s, a); O(ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < N), z3.Select(A_, q) == 0)), "state cleared")
        rep.take(e, k)
    return Task("%s constructor%s" % (g.name, sig.replace("MTToolBox::", "").replace("&R:", "")), run, weight=2)
def is_zero(x): return x == 0 if isinstance(x, int) else z3.is_int_value(z3.simplify(x)) and z3.simplify(x).as_long() == 0
CTORS = {"mt2 MT32Search": ["(i32,i32,u32)", "(i32,i32,i32,u32,u32,u32,u32)"], "MTGP32": ["(i32,u32)"], "RMT64": ["(i32,u64)", "(i32,i32,u64,u64)", "(i32,i32,u64,u64,u64,u64)"],
         "SFMT": ["(i32)", "(&R:MTToolBox::sfmt_param)"], "dSFMT": ["(i32)", "(&R:MTToolBox::dSFMT_param)"]}

def tasks(tier):
    T = [Task(g.name + " setUpParam", setup(g), weight=2) for g in GENS if not g.name.startswith("mt1")]
    T.append(Task("MTGP32 setUpTempering", tempering)); T.append(Task("floor2p<int>", floor2p))
    T += [construct(g, sig) for g in GENS for sig in CTORS.get(g.name, [])]
    return T
