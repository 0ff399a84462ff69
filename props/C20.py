"""C20: period certification."""
from gens import *
UNITS = ["sfmt.cpp", "dsfmt.cpp", "util.cpp"]
LEVEL = "proof"
NOTE = "periodCertification() of SFMT and dSFMT from an arbitrary state and parity vector (and fixed point): afterwards the GF(2) inner product of parity and checked word is odd when the parity is non-zero, a word that satisfied it is unchanged, any other differs in exactly one bit, nothing else of the object changes. Callee count_bit is used through its contract (parity of the result = XOR of the bits), proved against its body here; its full contract is C01."
TRUSTED = []
ASSUMPTIONS = ["the state has at least one word (class invariant)"]

def cb_contract(w):
    return Contract("MTToolBox::count_bit(u%d)" % w, ensures=lambda c: [("low bit is the XOR of the bits", z3.Extract(0, 0, c.result) == parity_bv(list(c.args.values())[0])), ("range", z3.And(c.result >= 0, c.result <= w))])

def cb(w):
    def mk(e, st):
        x = e.fresh("u%d" % w, "x"); return [x], None, {"x": x}
    return simple(lambda: frontend.load("util.cpp"), "MTToolBox::count_bit(u%d)" % w, mk,
                  lambda e, s, v, env: [("low bit is the XOR of the bits", z3.Extract(0, 0, v) == parity_bv(env["x"])), ("range", z3.And(v >= 0, v <= w))])

def mentions_int(f):
    todo, seen = [f], set()
    while todo:
        t = todo.pop()
        if t.get_id() in seen: continue
        seen.add(t.get_id())
        if z3.is_int(t) or z3.is_array(t): return True
        if z3.is_app(t): todo += t.children()
    return False

def cert(g, ps):
    def run(rep):
        p = g.prog(); e = LibExec(p, idx="int"); e.separate_returns = True; st = State()
        for w in (32, 64):
            k = "MTToolBox::count_bit(u%d)" % w
            if k in p.functions: e.contracts[k] = cb_contract(w)
        a = mkobj(e, st, g.cls, name="g")
        n = z3.Int("n"); st.assume(n >= 1)
        arr = e.new_obj(st, ArrV("R:MTToolBox::w128_t", n, z3.Const("state", z3.ArraySort(IDX, e.elem_sort("R:MTToolBox::w128_t")))), "arr")
        e.otype[arr.oid] = "[?]R:MTToolBox::w128_t"
        e.write(st, a.sub("state"), arr.sub(0))
        args = []; fix = bv(0, 128)
        P = lambda f: e.z(e.read(st, a.sub("param").sub(f)), "u32" if g.name == "SFMT" else "u64")
        if g.name == "SFMT":
            parity = z3.Concat(P("parity4"), P("parity3"), P("parity2"), P("parity1"))
            W = lambda s: e.read(s, arr.sub(0))
        else:
            parity = z3.Concat(P("parity2"), P("parity1"))
            W = lambda s: e.read(s, a.sub("lung"))
            nofix = z3.Bool("noFix"); args = [nofix]
            fix = z3.If(nofix, bv(0, 128), z3.Concat(P("fix2"), P("fix1")))
        k = g.key(e, "periodCertification", ps)
        old = st.copy()
        rep.cover("any state", st.pc)
        cell = lambda s: z3.Select(e.flush(e.read(s, arr)), 0)
        w0 = cell(old) if g.name == "SFMT" else g.scalars(e, old, a)[0]
        outs = runs(e, st, k, args, a)
        # path conditions before the loops are shared by most return paths;
        # the last condition of a path tells which parity bit was found set
        common = None
        for s, _ in outs[1:]:
            ids = [f.get_id() for f in s.pc]
            if common is None: common = ids
            else:
                q = 0
                while q < min(len(common), len(ids)) and common[q] == ids[q]: q += 1
                common = common[:q]
        PAR = z3.Function("parity", z3.BitVecSort(128), z3.BitVecSort(1))      # named parity_bv; linear by the lemma
        X = (w0 ^ fix) & parity
        odd = {}
        def base(s):
            """parity of the checked word before, on the shared prefix of the paths"""
            ids = [f.get_id() for f in s.pc]
            if common and ids[:len(common)] == common:
                if "c" not in odd:
                    t = s.copy(); t.pc = s.pc[:len(common)]
                    e.oblige(t, parity_bv(X) == 0, "word flipped only if the inner product is even", "post"); odd["c"] = 1
                return z3.And(PAR(X) == 0)
            e.oblige(s, parity_bv(X) == 1, "returns early only if the inner product is odd", "post")
            return PAR(X) == 1
        for s, v in outs:
            w1 = cell(s) if g.name == "SFMT" else g.scalars(e, s, a)[0]
            d = z3.simplify(w0 ^ w1); full = s
            bs = base(s)
            if z3.is_bv_value(d) and d.as_long():
                s = s.copy(); s.pc = [f for f in s.pc[len(common):] if not mentions_int(f)][-2:]
            Y, Z = d & parity, (w1 ^ fix) & parity
            t = State()
            e.oblige(t, Z == X ^ Y, "checked word is the old one plus the flipped bits", "post")
            if z3.is_bv_value(d) and d.as_long():
                t = State(); t.pc = list(s.pc)
                e.oblige(t, parity_bv(z3.simplify(Y)) == 1, "the flipped bit is a one bit of the parity vector", "post")
                py = PAR(Y) == 1
            elif z3.is_bv_value(d): py = PAR(Y) == 0
            else: py = PAR(Y) == parity_bv(Y)
            t = s.copy(); t.assume(bs, py, PAR(Z) == PAR(X) ^ PAR(Y))
            o0, o1 = PAR(X), PAR(Z)
            e.oblige(t, z3.Implies(parity != 0, o1 == 1), "inner product odd afterwards", "post")
            e.oblige(t, z3.Implies(o0 == 1, d == 0), "a certified state is unchanged", "post")
            e.oblige(t, z3.Implies(z3.And(parity != 0, o0 == 0), z3.And(d != 0, d & (d - 1) == 0)), "otherwise exactly one bit is flipped", "post")
            e.oblige(t, z3.Implies(parity != 0, (e.z(v, "i32") == 1) == (o0 == 1)), "returns 1 exactly for a certified state", "post")
            for (_, nme, t) in e.fields_of(g.cls):
                if nme in ("state", "lung"): continue
                f = eqv(e, e.read(old, a.sub(nme)), e.read(s, a.sub(nme)))
                if f is not True: e.oblige(s, f, "%s unchanged" % nme, "post")
            q = z3.Int(fresh_name("q"))
            if g.name == "SFMT": e.oblige(s, z3.Implies(q != 0, z3.Select(e.flush(e.read(s, arr)), q) == z3.Select(e.flush(e.read(old, arr)), q)), "other state words unchanged", "post")
            else: e.oblige(s, z3.And(z3.Select(e.flush(e.read(s, arr)), q) == z3.Select(e.flush(e.read(old, arr)), q), g.scalars(e, s, a)[1] == g.scalars(e, old, a)[1]), "other state words unchanged", "post")
        rep.take(e, k)
    return run

def linear(rep):
    """parity_bv(x ^ y) == parity_bv(x) ^ parity_bv(y)"""
    e = GenExec(BY["SFMT"].prog()); st = State()
    x, y = z3.BitVecs("x y", 128)
    t = z3.BitVec("t", 128)
    e.lock_init(st, [(x, y, t)])
    e.oblige_linear(st, (parity_bv(x), parity_bv(y), parity_bv(t)), "parity is linear (t = x ^ y)")
    e.oblige(st, parity_bv(bv(0, 128)) == 0, "parity of zero", "lemma")
    rep.take(e)

def tasks(tier):
    return [Task("parity lemma", linear), Task("count_bit u32", cb(32)), Task("count_bit u64", cb(64)), Task("SFMT", cert(BY["SFMT"], ""), weight=5), Task("dSFMT", cert(BY["dSFMT"], "b?bool|b?i32|bool"), weight=5)]
