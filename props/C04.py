"""C04: Sequential enumerates s^m .. 0^m once each, then throws."""
from lib import *
UNITS = ["rng.cpp"]
LEVEL = "proof"
NOTE = "Ghost position n counts the values delivered since the last (re)seed; the class invariant ties status/error to (start - n); every constructor establishes it, every draw advances it, every draw after exhaustion throws and keeps it."
ASSUMPTIONS = ["raising an exception has the C++ meaning (the engine ends the path with the state reached)"]
TRUSTED = []
P = lambda: frontend.load("rng.cpp")

def tasks(tier):
    T = []
    def one(w, U):
        C = "MTToolBox::Sequential<%s>" % U; t = "u%d" % w
        def F(e, st, lv, f, w=w):
            v = e.read(st, lv.sub(f))
            if v is UNINIT: v = z3.Const(fresh_name("uninit." + f), z3.BoolSort() if f == "error" else z3.BitVecSort(w))
            return v if is_z3(v) else (z3.BoolVal(v) if f == "error" else bv(v, w))
        # s: starting value, n: values delivered (w+1 bits, n <= s+1)
        def inv(e, st, lv, s, n, w=w, F=F):
            S = z3.ZeroExt(1, s)
            return z3.And(z3.ULE(n, S + 1), z3.Not(F(e, st, lv, "error")) == z3.ULE(n, S),
                          z3.Implies(z3.ULE(n, S), z3.ZeroExt(1, F(e, st, lv, "status")) == S - n))
        def mk(args):
            def f(eng, st, w=w, C=C):
                lv = mkobj(eng, st, C)
                env = {"lv": lv, "s": z3.BitVec("start", w), "n": z3.BitVec("n", w + 1), "mask": None}
                env["mask"] = eng.read(st, lv.sub("mask")); env["args"] = [eng.fresh(a, "arg") for a in args]
                return list(env["args"]), lv, env
            return f
        def draw(name, out, w=w, t=t, C=C, F=F, inv=inv):
            def pre(e, st, env): return [("class invariant", inv(e, st, env["lv"], env["s"], env["n"]))]
            def post(e, s, v, env):
                S = z3.ZeroExt(1, env["s"]); val = z3.Extract(w - 1, 0, S - env["n"]) ^ env["mask"]
                ow = int(out[1:])
                exp = z3.Extract(ow - 1, 0, val) if ow < w else z3.ZeroExt(ow - w, val) if ow > w else val
                lbls = [("returns only while values remain", z3.ULE(env["n"], S)), ("delivers (start - n) ^ mask", e.z(v, out) == exp),
                        ("one more delivered", inv(e, s, env["lv"], env["s"], env["n"] + 1)), ("mask kept", F(e, s, env["lv"], "mask") == env["mask"])]
                return lbls
            def post2(e, s, v, env):
                r = post(e, s, v, env)
                for xs, et in env["exc"]:
                    e.oblige(xs, z3.UGT(env["n"], z3.ZeroExt(1, env["s"])), "throws only when exhausted", "post")
                    e.oblige(xs, inv(e, xs, env["lv"], env["s"], env["n"]), "stays exhausted", "post")
                    e.oblige(xs, z3.BoolVal("underflow_error" in et), "throws underflow_error", "post")
                return r
            def run(rep):
                simple(P, "%s::%s()" % (C, name), mk([]), post2, pre=pre)(rep)
                # the case of exhaustion needs a throw: cover it separately
                p = P(); e = LibExec(p); st = State(); _, lv, env = mk([])(e, st)
                st.assume(inv(e, st, lv, env["s"], env["n"]), env["n"] == z3.ZeroExt(1, env["s"]) + 1)
                rep.cover("exhausted state", st.pc)
                res, exc = e.verify(p.find("%s::%s()" % (C, name)), [], lv, st)
                for s, v in res: e.oblige(s, z3.BoolVal(False), "no value after exhaustion", "post")
                if not exc: e.oblige(st, z3.BoolVal(False), "throws after exhaustion", "post")
                rep.take(e)
            return run
        for name, out in (("next", t), ("getUint32", "u32"), ("getUint64", "u64")):
            T.append(Task("%s %s" % (t, name), draw(name, out)))
        def start(label, key, args, exp, keepmask=None, uninit=True, w=w, t=t, C=C, F=F, inv=inv):
            def m(eng, st):
                lv = mkobj(eng, st, C, uninit=uninit)
                a = [eng.fresh(x, "arg") for x in args]
                return list(a), lv, {"lv": lv, "a": a, "mask": None if uninit else eng.read(st, lv.sub("mask"))}
            def post(e, s, v, env):
                s0, mask = exp(env["a"], env["mask"])
                return [("countdown starts at the seed", inv(e, s, env["lv"], s0, bv(0, w + 1))), ("mask", F(e, s, env["lv"], "mask") == mask)]
            T.append(Task("%s %s" % (t, label), simple(P, C + "::" + key, m, post)))
        cut = lambda x, w=w: z3.Extract(w - 1, 0, x) if x.size() > w else z3.ZeroExt(w - x.size(), x) if x.size() < w else x
        start("ctor(mask)", "<ctor>(%s)" % t, [t], lambda a, m, w=w: (bv(-1, w), a[0]))
        start("ctor(mask,seed)", "<ctor>(%s,%s)" % (t, t), [t, t], lambda a, m: (a[1], a[0]))
        start("reseed", "reseed(%s)" % t, [t], lambda a, m: (a[0], m), uninit=False)
        start("seed(u32)", "seed(u32)", ["u32"], lambda a, m, cut=cut: (cut(a[0]), m), uninit=False)
        start("seed(u64)", "seed(u64)", ["u64"], lambda a, m, cut=cut: (cut(a[0]), m), uninit=False)
        def copy(w=w, C=C, t=t, F=F, inv=inv):
            def m(eng, st):
                src = mkobj(eng, st, C, name="src"); lv = mkobj(eng, st, C, uninit=True)
                return [src], lv, {"lv": lv, "src": src, "s": z3.BitVec("start", w), "n": z3.BitVec("n", w + 1)}
            def pre(e, st, env): return [("source invariant", inv(e, st, env["src"], env["s"], env["n"]))]
            def post(e, s, v, env):
                return [("copy continues the same sequence", inv(e, s, env["lv"], env["s"], env["n"])), ("same mask", F(e, s, env["lv"], "mask") == F(e, env["old"], env["src"], "mask")),
                        ("source unchanged", z3.And(inv(e, s, env["src"], env["s"], env["n"]), F(e, s, env["src"], "mask") == F(e, env["old"], env["src"], "mask")))]
            return simple(P, "%s::<ctor>(&R:%s)" % (C, C), m, post, pre=pre)
        T.append(Task(t + " copy", copy()))
        T.append(Task(t + " bitSize", simple(P, "%s::bitSize()" % C, mk([]), lambda e, s, v, env, w=w: [("width", e.z(v, "i32") == w)])))
    one(32, "unsigned int"); one(64, "unsigned long")
    return T
