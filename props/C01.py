"""C01: bit-manipulation helpers equal their mathematical definitions."""
import z3
from lib import *
UNITS = ["util.cpp", "w128_sfmt.cpp", "w128_dsfmt.cpp"]
LEVEL = "proof"
TRUSTED = ["NTL::Vec<GF2>::{SetLength,put,operator[]}, NTL::IsZero(GF2): assumed contracts (vector of bits)"]
ASSUMPTIONS = ["two's complement integers, CHAR_BIT 8, int 32 bits, long 64 bits (as compiled by Clang for this target)",
               "get_range: start <= end and end-start+1 representable as int; the start > end branch ends the process",
               "floor2p: argument at least 1; fill_table: 1 <= size <= 2^30, tables do not overlap"]
P = lambda u="util.cpp": (lambda: frontend.load(u))


def words(*ts):
    """fresh arguments of the given types"""
    def mk(eng, st):
        a = [eng.fresh(t, "arg%d" % i) for i, t in enumerate(ts)]
        return list(a), None, {"a": list(a)}
    return mk


def tasks(tier):
    T = []
    def add(name, fn, weight=1): T.append(Task(name, fn, weight=weight))
    for w in (16, 32, 64):
        add("count_bit u%d" % w, simple(P(), "MTToolBox::count_bit(u%d)" % w, words("u%d" % w), lambda e, s, v, env: [("number of one bits", v == popcount(env["a"][0]))]), 5)
        def post1(e, s, v, env): return [("index of the lowest one bit from the top", v == first_one_pos(env["a"][0]))]
        add("calc_1pos u%d" % w, simple(P(), "MTToolBox::calc_1pos(u%d)" % w, words("u%d" % w), post1), 3)
    for w in (32, 64):
        U = {32: "unsigned int", 64: "unsigned long"}[w]
        add("reverse_bit u%d" % w, simple(P(), "MTToolBox::reverse_bit(u%d)" % w, words("u%d" % w), lambda e, s, v, env: [("bit order reversed", v == reverse(env["a"][0]))]))
        add("bit_size u%d" % w, simple(P(), "MTToolBox::bit_size<%s>()" % U, words(), lambda e, s, v, env, w=w: [("width", e.z(v, "i32") == w)]))
        add("getOne u%d" % w, simple(P(), "MTToolBox::getOne<%s>()" % U, words(), lambda e, s, v, env, w=w: [("one", e.z(v, "u%d" % w) == 1)]))
        add("isZero u%d" % w, simple(P(), "MTToolBox::isZero<%s>(u%d)" % (U, w), words("u%d" % w), lambda e, s, v, env: [("zero test", e.tobool(v) == (env["a"][0] == 0))]))
        def mkref(eng, st, w=w):
            x = eng.fresh("u%d" % w, "x"); lv = eng.new_obj(st, x, "x"); eng.otype[lv.oid] = "u%d" % w
            return [lv], None, {"lv": lv, "x": x}
        add("setZero u%d" % w, simple(P(), "MTToolBox::setZero<%s>(&u%d)" % (U, w), mkref, lambda e, s, v, env, w=w: [("zeroed", e.z(e.read(s, env["lv"]), "u%d" % w) == 0)]))
        posok = lambda e, st, env, w=w: [("0 <= pos < width", z3.And(env["pos"] >= 0, env["pos"] < w))]
        def mkget(eng, st, w=w):
            x, p = eng.fresh("u%d" % w, "bits"), eng.fresh("i32", "pos")
            return [x, p], None, {"x": x, "pos": p}
        def getspec(x, p, w):
            r = bv(0, 1)
            for i in range(w): r = z3.If(p == i, bit(x, i), r)
            return r
        add("getBitOfPos u%d" % w, simple(P(), "MTToolBox::getBitOfPos<%s>(u%d,i32)" % (U, w), mkget, lambda e, s, v, env, w=w: [("the bit at pos", v == z3.ZeroExt(31, getspec(env["x"], env["pos"], w)))], pre=posok))
        def mkset(eng, st, w=w):
            x, p, b = eng.fresh("u%d" % w, "bits"), eng.fresh("i32", "pos"), eng.fresh("u32", "b")
            lv = eng.new_obj(st, x, "bits"); eng.otype[lv.oid] = "u%d" % w
            return [lv, p, b], None, {"x": x, "pos": p, "b": b, "lv": lv}
        def setpost(e, s, v, env, w=w):
            n = e.read(s, env["lv"])
            return [("only the bit at pos replaced", z3.And([bit(n, i) == z3.If(env["pos"] == i, bit(env["b"], 0), bit(env["x"], i)) for i in range(w)]))]
        add("setBitOfPos u%d" % w, simple(P(), "MTToolBox::setBitOfPos<%s>(*u%d,i32,u32)" % (U, w), mkset, setpost, pre=posok))
        def mkto(eng, st, w=w):
            vec = eng.defaults[VECGF2](); vec = vec.with_("len", eng.fresh("i64", "oldlen"))
            lv = eng.new_obj(st, vec, "result"); eng.otype[lv.oid] = VECGF2
            x = eng.fresh("u%d" % w, "value")
            return [lv, x], None, {"lv": lv, "x": x}
        def topost(e, s, v, env, w=w):
            return [("length", e.z(e.read(s, env["lv"].sub("len")), "i64") == w),
                    ("element i is bit width-1-i", z3.And([e.tobool(e.read(s, env["lv"].sub("a").sub(i))) == (bit(env["x"], w - 1 - i) == 1) for i in range(w)]))]
        add("toGF2Vec u%d" % w, simple(P(), "MTToolBox::toGF2Vec<%s>(&%s,u%d)" % (U, VECGF2, w), mkto, topost))
        def mkfrom(eng, st, w=w):
            vec = eng.defaults[VECGF2]().with_("len", w)
            lv = eng.new_obj(st, vec, "value"); eng.otype[lv.oid] = VECGF2
            return [lv], None, {"lv": lv}
        def frompost(e, s, v, env, w=w):
            els = [e.tobool(e.read(env["old"], env["lv"].sub("a").sub(i))) for i in range(w)]
            return [("bit width-1-i is element i", z3.And([(bit(e.z(v, "u%d" % w), w - 1 - i) == 1) == els[i] for i in range(w)]))]
        add("fromGF2Vec u%d" % w, simple(P(), "MTToolBox::fromGF2Vec<%s>(&%s)" % (U, VECGF2), mkfrom, frompost))
        # get_range
        def mkr(eng, st, w=w):
            v, s, e2 = eng.fresh("u%d" % w, "input"), eng.fresh("i32", "start"), eng.fresh("i32", "end")
            return [v, s, e2], None, {"v": v, "s": s, "e": e2}
        def rpre(e, st, env): return [("range", z3.And(env["s"] <= env["e"], z3.BVSubNoOverflow(env["e"], env["s"]), env["e"] - env["s"] < 0x7fffffff))]
        def rpost(e, s, v, env, w=w):
            n = env["e"] - env["s"] + 1
            n = z3.ZeroExt(w - 32, n) if w > 32 else n
            r = z3.URem(env["v"], n)
            return [("start + v mod (end-start+1)", v == env["s"] + z3.Extract(31, 0, r)), ]
        class RExec(LibExec):
            def div_hook(self, st, op, a, b, t, line):
                # the quotient/remainder terms are kept; the bound is a fact
                if op == "%" and not int_ty(t)[0]: st.pc.append(z3.ULT(z3.URem(a, b), b))
                return None
        # bounds as a lemma over the abstracted remainder
        class AExec(LibExec):
            def div_hook(self, st, op, a, b, t, line):
                if int_ty(t)[0]: return None
                m = z3.Function("umod%d" % a.size(), a.sort(), a.sort(), a.sort()); d = z3.Function("udiv%d" % a.size(), a.sort(), a.sort(), a.sort())
                st.pc.append(z3.ULT(m(a, b), b)); st.pc.append(z3.Implies(z3.ULT(a, b), m(a, b) == a))
                if op == "/": st.pc.append(d(a, b) * b + m(a, b) == a)
                return m(a, b) if op == "%" else d(a, b)
        def rpost2(e, s, v, env, w=w):
            n = env["e"] - env["s"] + 1
            n = z3.ZeroExt(w - 32, n) if w > 32 else n
            m = z3.Function("umod%d" % w, n.sort(), n.sort(), n.sort())
            return [("start + v mod (end-start+1)", v == env["s"] + z3.Extract(31, 0, m(env["v"], n))), ("inside [start,end]", z3.And(v >= env["s"], v <= env["e"]))]
        add("get_range u%d" % w, simple(P(), "MTToolBox::get_range<%s>(u%d,i32,i32)" % (U, w), mkr, rpost2, pre=rpre, cls=AExec), 2)
        # fill_table, fully unrolled for the table size the library uses
        def mkt(eng, st, w=w):
            src = ArrV("u%d" % w, 4, None, {i: eng.fresh("u%d" % w, "src%d" % i) for i in range(4)})
            dst = ArrV("u%d" % w, 16, None, {i: 0 for i in range(16)})
            a = eng.new_obj(st, dst, "dist"); b = eng.new_obj(st, src, "src")
            eng.otype[a.oid] = "[16]u%d" % w; eng.otype[b.oid] = "[4]u%d" % w
            return [a.sub(0), b.sub(0), 16], None, {"a": a, "src": src}
        def tpost(e, s, v, env, w=w):
            out = []
            for i in range(16):
                x = bv(0, w)
                for k in range(4):
                    if i >> k & 1: x = x ^ env["src"].over[k]
                out.append(e.z(e.read(s, env["a"].sub(i)), "u%d" % w) == x)
            return [("entries are XORs of selected sources", z3.And(out))]
        add("fill_table 16 u%d" % w, simple(P(), "MTToolBox::fill_table<%s>(*u%d,*u%d,i32)" % (U, w, w), mkt, tpost))
        add("fill_table any size u%d" % w, filltable_general(w, U), 20)
    for t, w in (("u32", 32), ("u64", 64), ("i32", 32)):
        add("floor2p " + t, floor2p(t, w))
    for u in ("w128_sfmt.cpp", "w128_dsfmt.cpp"): T += w128(u)
    return T


def floor2p(t, w):
    U = {"u32": "unsigned int", "u64": "unsigned long", "i32": "int"}[t]
    key = "MTToolBox::floor2p<%s>(%s)" % (U, t)
    lo = lambda x: (x >= 1) if t == "i32" else z3.UGE(x, 1)
    le = lambda x, y: (x <= y) if t == "i32" else z3.ULE(x, y)
    def spec(n, r):   # r is the highest one bit of n
        return z3.And([z3.Implies(z3.And([bit(n, i) == 1] + ([z3.Extract(w - 1, i + 1, n) == 0] if i < w - 1 else [])), r == bv(1 << i, w)) for i in range(w)])
    def con_req(c): return [("n >= 1", lo(c.eng.z(c.args[0], t)))]
    def run(rep):
        p = frontend.load("util.cpp"); k = p.find(key)
        e = LibExec(p)
        st = State(); n = e.fresh(t, "n"); st.assume(lo(n))
        rep.cover("n >= 1", st.pc)
        def req(c):
            m = c.eng.z(c.args[0], t)
            return [("n >= 1", lo(m)), ("recursion decreases", z3.And(lo(m), m != n, le(m, n)))]
        e.contracts[k] = Contract(k, requires=req, ensures=lambda c: [("highest power of two", spec(c.eng.z(c.args[0], t), c.result))])
        res, exc = e.verify(k, [n], None, st)
        for s, v in res: e.oblige(s, spec(n, e.z(v, t)), "largest power of two not above n", "post")
        rep.take(e, k)
    return run


def filltable_general(w, U):
    key = "MTToolBox::fill_table<%s>(*u%d,*u%d,i32)" % (U, w, w)
    def run(rep):
        p = frontend.load("util.cpp"); k = p.find(key)
        e = LibExec(p); st = State()
        t = "u%d" % w
        n = z3.BitVec("size", 32); st.assume(n >= 1, n <= (1 << 30))
        dst = ArrV(t, n, z3.Const("dist", z3.ArraySort(BV32, z3.BitVecSort(w))))
        src = ArrV(t, 31, z3.Const("src", z3.ArraySort(BV32, z3.BitVecSort(w))))
        a = e.new_obj(st, dst, "dist"); b = e.new_obj(st, src, "src"); e.otype[a.oid] = "[?]" + t; e.otype[b.oid] = "[31]" + t
        st.assume(Schema([BV32], lambda i: z3.Implies(z3.ULT(i, n), z3.Select(dst.base, i) == 0), "zeroed table"))
        X = z3.Function("xor_selected", BV32, BV32, z3.BitVecSort(w))
        one = lambda i, kk: X(i, kk + 1) == X(i, kk) ^ z3.If(z3.LShR(i, kk) & 1 == 1, z3.Select(src.base, kk), bv(0, w))
        st.assume(Schema([BV32], lambda i: X(i, bv(0, 32)) == 0, "def0", trig=[("xor_selected", (0,))]))
        st.assume(Schema([BV32, BV32], one, "def1", trig=[("xor_selected", (0, 1))]))
        # zero high bits select nothing (unfolding of the definition up to 31)
        def tail(i, kk): return [z3.Implies(z3.And(z3.ULE(kk, m), z3.LShR(i, kk) == 0), z3.And(X(i, bv(m + 1, 32)) == X(i, bv(m, 32)))) for m in range(31)]
        arr = lambda c: (lambda i: z3.Select(c.eng.flush(c.read(a)), i))
        def outer(c):
            i = c.eng.z(c.var("i"), "i32"); A = arr(c)
            return [("range", z3.And(i >= 1, i <= n)),
                    ("done part", ForallGoal([BV32], lambda x: z3.Implies(z3.ULT(x, i), A(x) == X(x, bv(31, 32))))),
                    ("rest zero", ForallGoal([BV32], lambda x: z3.Implies(z3.And(z3.UGE(x, i), z3.ULT(x, n)), A(x) == 0)))]
        def inner(c):
            i, j, kk = (c.eng.z(c.var(q), "i32") for q in "ijk"); A = arr(c)
            return [("powers", z3.And(z3.ULE(kk, 30), j == bv(1, 32) << kk)), ("partial sum", A(i) == X(i, kk)),
                    ("done part", ForallGoal([BV32], lambda x: z3.Implies(z3.ULT(x, i), A(x) == X(x, bv(31, 32))))),
                    ("rest zero", ForallGoal([BV32], lambda x: z3.Implies(z3.And(z3.UGT(x, i), z3.ULT(x, n)), A(x) == 0)))]
        def leave(c):
            i, kk = c.eng.z(c.var("i"), "i32"), c.eng.z(c.var("k"), "i32")
            c.assume(*[z3.Implies(z3.And(z3.ULE(kk, bv(m, 32))), one(i, bv(m, 32))) for m in range(31)])
        # entry of the outer loop: element 0 must be X(0,31) = 0
        st.assume(*[one(bv(0, 32), bv(m, 32)) for m in range(31)]); st.assume(X(bv(0, 32), bv(0, 32)) == 0)
        e.loopspecs[k] = [LoopSpec(inv=outer), LoopSpec(inv=inner, on_exit=leave)]
        res, exc = e.verify(k, [a.sub(0), b.sub(0), n], None, st)
        for s, v in res:
            A = e.flush(e.read(s, a))
            e.oblige(s, ForallGoal([BV32], lambda x: z3.Implies(z3.ULT(x, n), z3.Select(A, x) == X(x, bv(31, 32)))), "entry i is the XOR selected by i", "post")
        rep.take(e, k)
    return run


W = "R:w128_t"
def w128(u):
    T = []
    def add(name, fn, weight=1): T.append(Task(u + " " + name, fn, weight=weight))
    def wt():   # the extracted type name of the union
        p = frontend.load(u)
        for n, r in p.records.items():
            if r["union"]: return n
        raise Unsupported("no union in " + u)
    def lazy(f): return lambda rep: f(rep)
    def mkk(fmt): return fmt
    def task(name, pat, types, post, pre=None, weight=1):
        def run(rep):
            p = frontend.load(u); W = "R:" + wt()
            key = pat.replace("W", W)
            ks = [k for k in p.functions if k == key or k.split("(")[0].split("<")[0] + "(" + k.split("(", 1)[1] == key]
            if len(ks) != 1: raise AnnotationMismatch("%s: %s" % (key, ks))
            def mk(eng, st):
                env = {"a": []}; args = []
                for i, t in enumerate(types):
                    if t == "W": x = z3.BitVec(fresh_name("w"), 128); args.append(x); env["a"].append(x)
                    elif t in ("&W", "*W"):
                        x = z3.BitVec(fresh_name("w"), 128); lv = eng.new_obj(st, x, "w"); eng.otype[lv.oid] = W
                        args.append(lv); env["a"].append(x); env["lv%d" % i] = lv
                    else: x = eng.fresh(t, "p"); args.append(x); env["a"].append(x)
                return args, None, env
            simple(lambda: p, ks[0], mk, post, pre=pre)(rep)
        add(name, run, weight)
    val = lambda e, s, v: e.read(s, v) if isinstance(v, LV) else v
    task("calc_1pos", "MTToolBox::calc_1pos(W)", ["W"], lambda e, s, v, env: [("index of the lowest one bit from the top", v == first_one_pos(env["a"][0]))], weight=3)
    task("isZero", "MTToolBox::isZero(W)", ["W"], lambda e, s, v, env: [("zero test", e.tobool(v) == (env["a"][0] == 0))])
    task("setZero", "MTToolBox::setZero(&W)", ["&W"], lambda e, s, v, env: [("zeroed", e.read(s, env["lv0"]) == 0)])
    task("getOne", "MTToolBox::getOne()", [], lambda e, s, v, env: [("one", v == bv(1, 128))])
    pos = lambda k: (lambda e, st, env: [("0 <= pos < 128", z3.And(env["a"][k] >= 0, env["a"][k] < 128))])
    def gpost(e, s, v, env):
        x, p = env["a"]; r = bv(0, 1)
        for i in range(128): r = z3.If(p == i, bit(x, i), r)
        return [("the bit at pos", v == z3.ZeroExt(31, r))]
    task("getBitOfPos", "MTToolBox::getBitOfPos(W,i32)", ["W", "i32"], gpost, pos(1))
    def spost(e, s, v, env):
        x, p, b = env["a"]; n = e.read(s, env["lv0"])
        return [("only the bit at pos replaced", z3.And([bit(n, i) == z3.If(p == i, bit(b, 0), bit(x, i)) for i in range(128)]))]
    task("setBitOfPos", "MTToolBox::setBitOfPos(*W,i32,u32)", ["*W", "i32", "u32"], spost, pos(1))
    for o, f in (("&", lambda x, y: x & y), ("^", lambda x, y: x ^ y)):
        task("operator" + o, "MTToolBox::operator%s(W,W)" % o, ["W", "W"], lambda e, s, v, env, f=f: [("bitwise", v == f(*env["a"]))])
    for o, f in (("|=", lambda x, y: x | y), ("^=", lambda x, y: x ^ y)):
        task("operator" + o, "MTToolBox::operator%s(&W,W)" % o, ["&W", "W"], lambda e, s, v, env, f=f: [("bitwise", e.read(s, env["lv0"]) == f(*env["a"]))])
    task("operator~", "MTToolBox::operator~(W)", ["W"], lambda e, s, v, env: [("bitwise", v == ~env["a"][0])])
    task("operator==", "MTToolBox::operator==(&W,W)", ["&W", "W"], lambda e, s, v, env: [("equality", e.tobool(v) == (env["a"][0] == env["a"][1]))])
    task("operator<<", "MTToolBox::operator<<(W,i32)", ["W", "i32"], lambda e, s, v, env: [("128-bit shift", v == env["a"][0] << z3.ZeroExt(96, env["a"][1]))], pos(1))
    task("operator>>", "MTToolBox::operator>>(W,i32)", ["W", "i32"], lambda e, s, v, env: [("128-bit shift", v == z3.LShR(env["a"][0], z3.ZeroExt(96, env["a"][1])))], pos(1))
    task("reverse_bit", "MTToolBox::reverse_bit(W)", ["W"], lambda e, s, v, env: [("bit order reversed", v == reverse(env["a"][0]))])
    for w in (32, 64):
        task("convert u%d" % w, "MTToolBox::convert(u%d)" % w, ["u%d" % w], lambda e, s, v, env, w=w: [("zero extended", v == z3.ZeroExt(128 - w, env["a"][0]))])
    def mpost(e, s, v, env):
        n = env["a"][0]
        return [("n leading ones", z3.And([(bit(v, 127 - i) == 1) == (n > i) for i in range(128)]))]
    task("make_msb_mask", "MTToolBox::make_msb_mask(i32)", ["i32"], mpost, lambda e, st, env: [("0 <= n <= 128", z3.And(env["a"][0] >= 0, env["a"][0] <= 128))])
    task("and_mask", "MTToolBox::and_mask(W,W)", ["W", "W"], lambda e, s, v, env: [("bitwise", v == env["a"][0] & env["a"][1])])
    return T
