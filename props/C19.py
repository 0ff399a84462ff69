"""C19: the parity search."""
from lattice import *
from lattasks import *
import C01, gens
UNITS = ["rt.cpp", "parity128.cpp", "util.cpp", "w128_sfmt.cpp", "w128_dsfmt.cpp", "rmt64.cpp", "sfmt.cpp", "dsfmt.cpp"]
LEVEL = "proof"
NOTE = "Every function of AlgorithmCalculateParity under contract for 32-, 64- and 128-bit words: set_state steps to the first non-zero parity word, calc_basis tries the unit states in order and skips only those without one, addBase (loop invariant over a symbolic heap of generators) fills at most one empty slot, the slot of the word's lowest one bit, every slot holding the parity word of a state of the annihilated subspace; search_parity_check_vector builds the matrix of the collected words (nested loop invariants) and returns a non-zero word orthogonal to all of them, or throws, which happens only if there is none; searchParity collects until state size - exponent words are there or all units are used, stores exactly the returned word in the generator. Counting lemmas by induction. get/setParityValue of the bundled generators."
ASSUMPTIONS = ["state size larger than the Mersenne exponent (at least one word to collect)", "getParityValue and add are linear, isZero implies parity word 0 (C05, C07 and the getParityValue tasks here, for the bundled generators)", "setOneBit sets the state to a value that depends on the position only (C07)"]
TRUSTED = ["contract of annihilate (C13)", "NTL Mat<GF2>::{SetDims, put, NumRows, operator[]} and kernel (basis of the left kernel)"]
BOUNDED = ["termination of the search for a non-zero parity word (a state outside zero whose parity words are all zero would make it run forever), the real class on random generators against brute force: driver replay/C19.cpp"]
MATT = "MATA"; MAT = "NTL::Mat<NTL::GF2>"; MATS = z3.ArraySort(I, z3.ArraySort(I, B))
SUBS = F("SUB", GP, GS, B)                 # state in the subspace annihilated (for the fixed factor)
DEADU = F("DEADU", I, B)                   # unit state without a non-zero parity word
ANNI = F("ANNI", GP, GS, Poly, GS)
def CNT(w): return F("CNT%d" % w, AIX(w), I, I)
def IDX(w): return F("IDX%d" % w, AIX(w), I, I, I)
def PAR(w): return F("PARF%d" % w, BVS(w), z3.BitVecSort(1))
def BITM(w):
    f = F("BITM%d" % w, I, BVS(w)); return lambda k: bv(1 << z3.simplify(k).as_long(), w) if is_z3(k) and z3.is_int_value(z3.simplify(k)) and 0 <= z3.simplify(k).as_long() < w else f(k)
def nz(t): return z3.If(t != 0, z3.IntVal(1), z3.IntVal(0))

class PCfg:
    def __init__(self, w, U, unit, wt):
        self.w, self.U, self.unit, self.wt = w, U, unit, wt
        self.G = "MTToolBox::AbsGen<%s>" % U; self.C = "MTToolBox::AlgorithmCalculateParity<%s, %s>" % (U, self.G); self.IS = self.C + "::internal_state"; self.name = "u%d" % w if w < 128 else "w128"
    def prog(self): return frontend.load(self.unit)
    def key(self, n):
        return self.C + "::" + n % {"IS": self.IS}
CFGS = [PCfg(32, "unsigned int", "rt.cpp", "u32"), PCfg(64, "unsigned long", "rt.cpp", "u64"), PCfg(128, "MTToolBox::w128_t", "parity128.cpp", "R:MTToolBox::w128_t")]
SETST, CALCB, ADDST, ADDB, SPCV, SEARCH = "set_state(&R:%(IS)s)", "calc_basis(&R:%(IS)s,&R:NTL::GF2X,*i32)", "add_state(&R:%(IS)s,&R:%(IS)s)", "addBase(*R:%(IS)s,i32,&R:%(IS)s)", "search_parity_check_vector(*R:%(IS)s,i32)", None

def cntfacts(e, w):
    c, x = CNT(w), IDX(w); apps_ = lambda apps, n: list(apps.get(n, {}).values())
    N = "CNT%d" % w
    def plus1(t): return z3.is_add(t) and any(z3.is_int_value(y) for y in t.children())
    e.axioms.append(Schema([AIX(w), I], lambda a, n: [c(a, z3.IntVal(0)) == 0] + ([c(a, n) == z3.Sum([nz(a[i]) for i in range(n.as_long())] + [z3.IntVal(0)])] if z3.is_int_value(n) else []), "CNT", trig=[(N, (0, 1))]))
    e.axioms.append(Schema([AIX(w), I], lambda a, n: z3.Implies(n >= 0, c(a, n + 1) == c(a, n) + nz(a[n])), "CNT step", trig=lambda apps, s, b: [(t.arg(0), t.arg(1)) for t in apps_(apps, N) if not plus1(t.arg(1)) and not z3.is_int_value(t.arg(1))]))
    e.axioms.append(Schema([AIX(w), I], lambda a, n: z3.Implies(n >= 0, z3.And(c(a, n) >= 0, c(a, n) <= n)), "CNT range", trig=[(N, (0, 1))]))
    e.axioms.append(Schema([AIX(w), I], lambda a, n: z3.Implies(n >= 0, c(a, n) == c(a.arg(0), n) + z3.If(z3.And(a.arg(1) >= 0, a.arg(1) < n), nz(a.arg(2)) - nz(a.arg(0)[a.arg(1)]), z3.IntVal(0))), "CNT of an update", trig=lambda apps, s, b: [(t.arg(0), t.arg(1)) for t in apps_(apps, N) if z3.is_app_of(t.arg(0), z3.Z3_OP_STORE)]))
    e.axioms.append(Schema([AIX(w), I, I], lambda a, j, i: z3.Implies(z3.And(j >= 0, j < i, a[j] != 0), c(a, j) + 1 <= c(a, i)), "CNT increases", trig=lambda apps, s, b: [(t.arg(0), t.arg(1), u.arg(1)) for t in apps_(apps, N) for u in apps_(apps, N) if t.arg(0).eq(u.arg(0)) and not t.eq(u)]))
    e.axioms.append(Schema([AIX(w), I, I], lambda a, n, k: z3.Implies(z3.And(n >= 0, k >= 0, k < c(a, n)), z3.And(x(a, n, k) >= 0, x(a, n, k) < n, a[x(a, n, k)] != 0, c(a, x(a, n, k)) == k)), "IDX", trig=[("IDX%d" % w, (0, 1, 2))]))
    e.axioms.append(Schema([I], lambda i: [z3.Implies(i == k, BITM(w)(i) == (1 << k)) for k in range(w)], "BITM", trig=[("BITM%d" % w, (0,))]))
def cnt_lemma(w):
    """the facts about CNT and IDX, by induction from their defining equations"""
    def run(rep):
        e = AbsExec(frontend.load("util.cpp")); st = State(); c, x = CNT(w), IDX(w)
        a = z3.Const("a", AIX(w)); v = z3.BitVec("v", w); j, n, k = z3.Ints("j n k")
        df = lambda arr, m: z3.And(c(arr, z3.IntVal(0)) == 0, z3.Implies(m >= 0, c(arr, m + 1) == c(arr, m) + nz(arr[m])))
        idef = lambda m, k: x(a, m + 1, k) == z3.If(z3.And(a[m] != 0, c(a, m) == k), m, x(a, m, k))
        b = z3.Store(a, j, v)
        def ind(name, P, extra=(), lo=0):
            s = st.copy(); s.assume(df(a, z3.IntVal(0)), df(b, z3.IntVal(0)), *extra); e.oblige(s, P(z3.IntVal(lo)), "lemma %s: start" % name, "lemma")
            s = st.copy(); s.assume(df(a, n), df(b, n), n >= lo, P(n), idef(n, k), *extra); e.oblige(s, P(n + 1), "lemma %s: step" % name, "lemma")
        ind("range", lambda m: z3.And(c(a, m) >= 0, c(a, m) <= m))
        ind("update", lambda m: c(b, m) == c(a, m) + z3.If(z3.And(j >= 0, j < m), nz(v) - nz(a[j]), z3.IntVal(0)))
        s = st.copy(); s.assume(df(a, j), j >= 0, a[j] != 0); e.oblige(s, c(a, j) + 1 <= c(a, j + 1), "lemma increase: start", "lemma")
        s = st.copy(); s.assume(df(a, n), j >= 0, n > j, c(a, j) + 1 <= c(a, n)); e.oblige(s, c(a, j) + 1 <= c(a, n + 1), "lemma increase: step", "lemma")
        ind("index", lambda m: z3.Implies(z3.And(k >= 0, k < c(a, m)), z3.And(x(a, m, k) >= 0, x(a, m, k) < m, a[x(a, m, k)] != 0, c(a, x(a, m, k)) == k)))
        # the annihilated subspace is closed under steps
        p, s0 = z3.Const("p", GP), z3.Const("s", GS); T_ = lambda y: z3.Implies(SUBS(p, y), SUBS(p, T(p, y)))
        s = st.copy(); s.assume(n >= 0, SUBS(p, s0), SUBS(p, STf(p, s0, n)), T_(STf(p, s0, n)), STf(p, s0, n + 1) == T(p, STf(p, s0, n))); e.oblige(s, SUBS(p, STf(p, s0, n + 1)), "lemma steps stay in the subspace: step", "lemma")
        rep.take(e)
    return Task("counting lemmas u%d" % w, run)

class ParExec(AbsExec):
    def __init__(self, c):
        super().__init__(c.prog()); self.c = c; w = self.w = c.w
        self.heap = [c.G]; self.absty[MATT] = MATS
        self.defaults["R:" + MAT] = lambda: Rec(MAT, {"rows": 0, "cols": 0, "a": z3.Const(fresh_name("mat"), MATS)})
        posfacts(self, w); cntfacts(self, w); pv = PV(w)
        A = self.axioms.append
        A(Schema([GP, GS, GS], lambda p, a, b: z3.And(pv(p, ADD(p, a, b)) == pv(p, a) ^ pv(p, b), z3.Implies(z3.And(SUBS(p, a), SUBS(p, b)), SUBS(p, ADD(p, a, b)))), "linear", trig=[("ADD", (0, 1, 2))]))
        A(Schema([GP, GS], lambda p, s: z3.And(pv(p, ZERO(p, s)) == 0, SUBS(p, ZERO(p, s))), "zero", trig=[("ZERO", (0, 1))]))
        A(Schema([GP, GS], lambda p, s: z3.Implies(ISZ(p, s), pv(p, s) == 0), "zero test", trig=[("ISZ", (0, 1))]))
        A(Schema([GP, GS], lambda p, s: z3.Implies(SUBS(p, s), SUBS(p, T(p, s))), "steps", trig=[("T", (0, 1))]))
        A(Schema([GP, GS, I], lambda p, s, i: z3.Implies(z3.And(SUBS(p, s), i >= 0), SUBS(p, STf(p, s, i))), "steps", trig=[("ST", (0, 1, 2))]))
        A(Schema([GP, GS, Poly], lambda p, s, f: z3.Implies(f == z3.Const("f", Poly), SUBS(p, ANNI(p, s, f))), "annihilated", trig=[("ANNI", (0, 1, 2))]))
        A(Schema([GP, GS, I], lambda p, s, b: ONEBIT(p, s, b) == ONEBIT(p, z3.Const("anystate", GS), b), "unit states", trig=[("ONEBIT", (0, 1, 2))]))
        A(Schema([BVS(w)], lambda x: z3.Implies(x == 0, PAR(w)(x) == 0), "parity of 0", trig=[("PARF%d" % w, (0,))]))
    def tobv(self, v, t):
        if is_z3(v) and z3.is_int(v) and const_choice(z3.simplify(v), 8) is None and int_ty(t): return I2B(int_ty(t)[1])(v)
        return super().tobv(v, t)
    def fields_of(self, cls):
        if cls == self.c.G: return [(cls, "p", "GP"), (cls, "q", "GQ"), (cls, "rev", "bool"), (cls, "s", "GS")]
        if cls == MAT: return [(cls, "rows", "i64"), (cls, "cols", "i64"), (cls, "a", MATT)]
        return super().fields_of(cls)
    def abs_of(self, st, lv):
        r = super().abs_of(st, lv)
        if r is None and isinstance(lv, LV):
            try: v = self.read(st, lv)
            except Unsupported: return None
            if isinstance(v, Rec) and v.cls == self.c.G: return GENC
        return r
    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        if fn["key"].startswith(self.c.G + "::<ctor>(&R:") and fn.get("copy"):
            self.assumed.add("interface contract: copy"); r = self.read(st, args[0])
            for f in ("p", "q", "rev", "s"): self.write(st, this.sub(f), r.f[f])
            return None
        if fn["key"].startswith(self.c.G + "::<dtor>"): return None
        return super().call_fn(fn, this, args, st, line, e, virt)
    def declare(self, v, st):
        a = arr_ty(v["t"]); n = None
        if a and a[1] == "R:" + self.c.IS:
            n = self.ev(v["vla"], st) if "vla" in v else int(a[0])
            if not is_conc(n): raise Unsupported("number of slots")
            n = int(n)
            lv = self.new_obj(st, self.fresh_soa(a[1][2:], n, v["n"], st), v["n"]); self.otype[lv.oid] = v["t"]; st.env[v["id"]] = (v["n"], lv); return
        super().declare(v, st)
    # -- NTL matrices over GF(2)
    def in_NTL_Mat(self, fn, this, args, e, st, ct):
        m = {"SetDims": self.mat_SetDims, "NumRows": self.mat_NumRows, "NumCols": self.mat_NumCols, "put": self.mat_put, "get": self.mat_get, "operator[]": self.mat_row}.get(fn["n"])
        if fn["n"] == "Mat": return self.defaults["R:" + MAT]() if not args else NotImplemented
        return m(fn, this, args, e, st, ct) if m else NotImplemented
    def mat_SetDims(self, fn, this, args, e, st, ct):
        r, c = (self.toint(x, "i64") for x in args); self.safe(st, z3.And(r >= 0, c >= 0), "matrix dimensions", e["l"])
        zero = z3.K(I, z3.K(I, z3.BoolVal(False)))      # SetDims of a fresh matrix clears it
        self.write(st, this, Rec(MAT, {"rows": r, "cols": c, "a": zero}))
    def mat_NumRows(self, fn, this, args, e, st, ct): return self.read(st, this.sub("rows"))
    def mat_NumCols(self, fn, this, args, e, st, ct): return self.read(st, this.sub("cols"))
    def matidx(self, st, this, args, line):
        m = self.read(st, this); i, j = (self.toint(x, "i64") for x in args[:2]); R, Cc = self.toint(m.f["rows"], "i64"), self.toint(m.f["cols"], "i64")
        self.safe(st, z3.And(i >= 0, i < R, j >= 0, j < Cc), "matrix index", line); return m, i, j
    def mat_put(self, fn, this, args, e, st, ct):
        m, i, j = self.matidx(st, this, args, e["l"]); v = self.gf2of(args[2], st); v = z3.BoolVal(v) if isinstance(v, bool) else v
        self.write(st, this.sub("a"), z3.Store(m.f["a"], i, z3.Store(m.f["a"][i], j, v)))
    def mat_get(self, fn, this, args, e, st, ct):
        m, i, j = self.matidx(st, this, args, e["l"]); return m.f["a"][i][j]
    def mat_row(self, fn, this, args, e, st, ct):
        if fn["n"] != "operator[]": return NotImplemented
        m = self.read(st, this); i = self.toint(args[0], "i64"); self.safe(st, z3.And(i >= 0, i < self.toint(m.f["rows"], "i64")), "matrix row", e["l"])
        if "KER" in st.ghost and m.f["a"].eq(st.ghost["KER"][0]):      # a row of a kernel basis: not zero, and in the kernel
            Y, n, col, Cc = st.ghost["KER"]; w = self.w; ii = i if is_z3(i) else z3.IntVal(i); y = self.word(lambda k: Y[ii][k]); ok = z3.And(ii >= 0, ii < n); st.assume(z3.Implies(ok, y != 0))
            st.assume(Schema([I], lambda k: z3.Implies(z3.And(ok, k >= 0, k < Cc), PAR(w)(y & col(k)) == 0), "kernel", trig=lambda apps, s, b: [(t,) for t in apps.get("CNT%d" % w, {}).values() if t.arg(1).eq(z3.Int("jj"))]))
        lv = self.new_obj(st, Rec("NTL::Vec<NTL::GF2>", {"len": m.f["cols"], "a": ArrV("bool", None, m.f["a"][i])}), "row"); self.otype[lv.oid] = VECGF2; return lv
    def word(self, row):
        """the word whose bit w-1-i is element i"""
        w = self.w; return z3.Concat(*[z3.If(row(i), bv(1, 1), bv(0, 1)) for i in range(w)])
    def in_NTL_kernel(self, fn, this, args, e, st, ct):
        w = self.w; X = self.read(st, args[1]); R = self.toint(X.f["rows"], "i64"); Cc = self.toint(X.f["cols"], "i64"); A = X.f["a"]
        self.oblige(st, R == w, "the matrix has one row per bit of the word", "pre", e["l"])
        Y = z3.Const(fresh_name("kernel"), MATS); n = z3.Int(fresh_name("kernel.rows")); st.assume(n >= 0, n <= w)
        col = lambda k: self.word(lambda i: A[i][k]); kc = F(fresh_name("KC"), BVS(w), I)
        st.ghost["KER"] = (Y, n, col, Cc)
        st.assume(Schema([BVS(w)], lambda v: z3.Implies(z3.And(n == 0, v != 0), z3.And(kc(v) >= 0, kc(v) < Cc, PAR(w)(v & col(kc(v))) == 1)), "kernel is trivial", trig=lambda apps, s, b: [(z3.Const("cand", BVS(w)),)]))
        st.ghost["KC"] = kc(z3.Const("cand", BVS(w)))
        self.write(st, args[0], Rec(MAT, {"rows": n, "cols": R, "a": Y})); return None
    # -- objects
    def S(self, st): return self.flush(st.store["H:" + self.c.G].f["s"])
    def Pcol(self, st): return self.flush(st.store["H:" + self.c.G].f["p"])
    def rec(self, st, lv):
        r = self.read(st, lv); rg = r.f["rg"]
        if not isinstance(rg, LV) or rg.oid != "H:" + self.c.G: raise Unsupported("generator of a state outside the heap")
        ref = rg.path[0] if is_z3(rg.path[0]) else z3.IntVal(rg.path[0])
        z = r.f["zero"]; z = self.tobool(z); z = z if is_z3(z) else z3.BoolVal(z)
        return z, self.zw(r.f["next"], self.c.wt, st) if r.f["next"] is not UNINIT else z3.BitVec("uninit", self.w), ref
    def base(self, lv):
        if not isinstance(lv, LV): raise Unsupported("slots")
        if lv.path and not isinstance(lv.path[-1], str):
            if not is_conc(lv.path[-1]) or int(lv.path[-1]): raise Unsupported("slots pointer")
            lv = LV(lv.oid, lv.path[:-1])
        return lv
    def cols(self, st, lv):
        r = self.read(st, self.base(lv))
        nx = r.f["next"]
        return self.flush(nx), self.flush(r.f["rg"])
    def newis(self, st, name):
        lv = mkobj(self, st, self.c.IS, name=name); self.init_heap(st, self.c.G); return lv
    def newbases(self, st):
        lv = self.new_obj(st, self.fresh_soa(self.c.IS, self.c.w, "bases", st), "bases"); self.otype[lv.oid] = "[%d]R:%s" % (self.c.w, self.c.IS); return lv
    def slots_wf(self, st, b, p):
        L = self.slots_wf0(st, b, p); nx, rg = self.cols(st, b)
        def ix(apps, sel, bysort):
            r = {}
            for so in ("Int", "BitVec(%d)" % self.w):
                for t in bysort.get(so, {}).values():
                    if z3.is_app_of(t, z3.Z3_OP_SELECT) and (t.arg(0).eq(rg) or t.arg(0).eq(nx)) and isidx(t.arg(1)): r[t.arg(1).get_id()] = t.arg(1)
            return list(r.values())
        L[0][1].trig = lambda a, s, b: [(i, j) for i in ix(a, s, b) for j in ix(a, s, b) if not i.eq(j)]
        for n, g in L[1:]: g.trig = lambda a, s, b: [(i,) for i in ix(a, s, b)]
        return L
    def slots_wf0(self, st, b, p):
        nx, rg = self.cols(st, b); w = self.w; S, Pc = self.S(st), self.Pcol(st); inr = lambda i: z3.And(i >= 0, i < w)
        return [("slots have generators of their own", ForallGoal([I, I], lambda i, j: z3.Implies(z3.And(i >= 0, i < j, j < w), rg[i] != rg[j]), "ij", trig=istrig2)),
                ("slot generators have the parameters of the given one", FAI(lambda i: z3.Implies(inr(i), z3.And(rg[i] > 0, Pc[rg[i]] == p)))),
                ("a slot is empty or holds a word whose lowest one bit is its own", FAI(lambda i: z3.Implies(inr(i), z3.Or(nx[i] == 0, POS(w)(nx[i]) == i)))),
                ("slots hold parity words of annihilated states", FAI(lambda i: z3.Implies(inr(i), z3.And(nx[i] == PV(w)(p, S[rg[i]]), SUBS(p, S[rg[i]])))))]
    def work_wf(self, st, b, wk, p):
        nx, rg = self.cols(st, b); z, x, r = self.rec(st, wk); S = self.S(st)
        return [("working state has a generator of its own", FAI(lambda i: z3.Implies(z3.And(i >= 0, i < self.w), rg[i] != r)))] + self.state_wf(st, wk, p)
    def state_wf(self, st, wk, p):
        z, x, r = self.rec(st, wk); S = self.S(st)
        return [("parameters of the working state", z3.And(r > 0, self.Pcol(st)[r] == p)), ("working word is the parity word of an annihilated state", z3.And(x == PV(self.w)(p, S[r]), SUBS(p, S[r]))), ("exhausted only with word 0", z3.Implies(z, x == 0))]
    def obliges(self, st, L, tag, kind="pre"):
        for n, f in L: self.oblige(st, f, tag + n, kind)
    # -- contracts
    def con(self, name, f):
        k = self.c.key(name)
        if k in self.prog.functions: self.contracts[k] = Contract(k, apply=f)
    def set_state_contract(self):
        def f(cx, con):
            st = cx.st; lv = cx.args[0]; z, x, r = self.rec(st, lv); S, p = self.S(st), self.Pcol(st)[r]; w = self.w
            k = z3.Int(fresh_name("steps")); z2, x2 = z3.Bool(fresh_name("zero")), z3.BitVec(fresh_name("next"), w); s0 = S[r]; s2 = STf(p, s0, k)
            st.assume(k >= 0, z2 == (x2 == 0), x2 == PV(w)(p, s2), z3.Implies(z2, ISZ(p, s2)), z3.Implies(z3.Not(z2), k >= 1))
            st.assume(z3.Implies(z2, F("DEAD", GP, GS, B)(p, s0)))      # definition: steps to zero without a non-zero word
            self.write(st, lv.sub("zero"), z2); self.write(st, lv.sub("next"), x2); self.write(st, self.read(st, lv.sub("rg")).sub("s"), s2); return None
        self.con(SETST, f)
    def annihilate_contract(self):
        def ann(c, con):
            s = c.st; gg = c.args[0]; a, b, r, x = self.g4(s, gg); self.write(s, gg.sub("s"), ANNI(a, x, self.read(s, c.args[1])))
        kk = self.prog.find("MTToolBox::annihilate<%s>(*R:MTToolBox::EquidistributionCalculatable<%s>,&R:NTL::GF2X)" % (self.c.U, self.c.U)); self.contracts[kk] = Contract(kk, apply=ann)
    def pos_contract(self):
        w = self.w; k = "MTToolBox::calc_1pos(%s)" % (self.c.wt if w < 128 else "R:MTToolBox::w128_t")
        self.contracts[k] = Contract(k, apply=lambda c, con: POS(w)(self.zw(c.args[0], self.c.wt, c.st)))
def self_fresh(e, v, k): return ArrV(v.et, v.n, z3.Const(fresh_name("heap." + k), z3.ArraySort(I, e.elem_sort(v.et))))
DEAD = F("DEAD", GP, GS, B)
FP = z3.Const("f", Poly)
def fobj(e, st):
    lv = e.new_obj(st, FP, "f"); e.otype[lv.oid] = "R:NTL::GF2X"; return lv
def gref(e, st, c, lv):
    r = z3.Int(fresh_name("rg")); st.assume(r > 0); e.write(st, lv.sub("rg"), LV("H:" + c.G, (r,))); return r
def this_(e, st, c):
    t = mkobj(e, st, c.C); e.write(st, t.sub("word_width"), c.w); return t

def set_state(c):
    def run(rep):
        e = ParExec(c); st = State(); lv = e.newis(st, "st"); r = gref(e, st, c, lv); this = this_(e, st, c); S0, p = e.S(st), e.Pcol(st)[r]; s0 = S0[r]; w = c.w; pv = PV(w)
        st.ghost["k"] = z3.IntVal(0); st.assume(STf(p, s0, z3.IntVal(0)) == s0)
        def gen(fn, this, args, st_, line):
            if fn["n"] == "generate": st_.ghost["k"] = z3.simplify(st_.ghost["k"] + 1)
            return orig(fn, this, args, st_, line)
        orig = e.gen_call; e.gen_call = gen
        trig = [("ST", (2,))]
        silent = lambda k: ForallGoal([I], lambda i: z3.Implies(z3.And(i >= 1, i < k), z3.And(pv(p, STf(p, s0, i)) == 0, z3.Not(ISZ(p, STf(p, s0, i))))), "i", trig=trig)
        def inv(cx):
            k = cx.st.ghost["k"]; z, x, rr = e.rec(cx.st, lv); S = e.S(cx.st)
            return [("steps of the given state", z3.And(k >= 1, S[r] == STf(p, s0, k), rr == r, e.Pcol(cx.st) == e.Pcol(st0))), ("word", x == pv(p, S[r])), ("not marked exhausted", z3.Not(z)), ("every earlier word is zero", silent(k)), ("other generators unchanged", S == z3.Store(S0, r, S[r]))]
        e.loopspecs[c.key(SETST)] = [LoopSpec(inv=inv)]
        st0 = st.copy(); rep.cover("precondition", st.pc)
        res, exc = e.verify(c.key(SETST), [lv], this, st)
        for s, _ in res:
            z, x, rr = e.rec(s, lv); S = e.S(s); k = s.ghost["k"]; O = lambda f, n: e.oblige(s, f, n, "post")
            O(z3.And(rr == r, S == z3.Store(S0, r, S[r]), e.Pcol(s) == e.Pcol(st0)), "only its generator's state changes")
            O(z3.And(k >= 0, S[r] == STf(p, s0, k)), "the state is stepped")
            O(x == pv(p, S[r]), "the word is the parity word of the state")
            O(z == (x == 0), "exhausted exactly if the word is zero")
            O(z3.Implies(z, ISZ(p, S[r])), "exhausted only in the zero state")
            O(z3.Implies(z3.Not(z), k >= 1), "at least one step")
            O(silent(k), "no non-zero word is skipped")
        if exc or not res: raise Unsupported("set_state")
        rep.take(e, c.key(SETST))
    return Task("set_state " + c.name, run)
def add_state(c):
    def run(rep):
        e = ParExec(c); st = State(); a, b = e.newis(st, "dist"), e.newis(st, "src"); ra, rb = gref(e, st, c, a), gref(e, st, c, b); st.assume(ra != rb); this = this_(e, st, c); S0, P0 = e.S(st), e.Pcol(st)
        za, xa, _ = e.rec(st, a); zb, xb, _ = e.rec(st, b)
        res, exc = e.verify(c.key(ADDST), [a, b], this, st)
        for s, _ in res:
            z1, x1, r1 = e.rec(s, a); z2, x2, r2 = e.rec(s, b); S = e.S(s); O = lambda f, n: e.oblige(s, f, n, "post")
            O(z3.And(S == z3.Store(S0, ra, ADD(P0[ra], S0[ra], S0[rb])), e.Pcol(s) == P0), "states are added"); O(x1 == xa ^ xb, "words are added"); O(z3.And(r1 == ra, r2 == rb, x2 == xb, z1 == za, z2 == zb), "nothing else changes")
        if exc or not res: raise Unsupported("add_state")
        rep.take(e, c.key(ADDST))
    return Task("add_state " + c.name, run)

def unit(p, b): return ANNI(p, ONEBIT(p, z3.Const("anystate", GS), b), FP)
def calc_post(e, st, lv, p, b0, b1, maxd, before):
    """facts after calc_basis that started at unit b0 and stopped at b1"""
    z, x, r = e.rec(st, lv); S = e.S(st); k = z3.Int(fresh_name("ks"))
    return [("units are tried in order", z3.And(b1 >= b0, z3.Implies(b0 < maxd, z3.And(b1 > b0, b1 <= maxd)), z3.Implies(b0 >= maxd, b1 == b0))),
            ("skipped units have no non-zero parity word", ForallGoal([I], lambda i: z3.Implies(z3.And(i >= b0, i < b1, z3.Or(z, i < b1 - 1)), DEAD(p, unit(p, i))), "i", trig=[("ONEBIT", (2,))])),
            ("all units are used if there is no word", z3.Implies(z3.And(z, b0 < maxd), b1 >= maxd))]
def calc_basis(c):
    def run(rep):
        e = ParExec(c); st = State(); lv = e.newis(st, "st"); r = gref(e, st, c, lv); this = this_(e, st, c); S0, P0 = e.S(st), e.Pcol(st); p = P0[r]; w = c.w; f = fobj(e, st)
        e.set_state_contract(); e.annihilate_contract()
        b0 = z3.Int("pos0"); st.assume(b0 >= 0, b0 <= 1 << 22); bp = e.new_obj(st, b0, "bit_pos"); e.otype[bp.oid] = "i32"; maxd = BS(p); rep.cover("precondition", st.pc)
        for n, g in e.state_wf(st, lv, p): st.assume(g)
        def inv(cx):
            b = e.toint(e.read(cx.st, bp), "i32"); z, x, rr = e.rec(cx.st, lv); S = e.S(cx.st)
            return [("range", z3.And(b >= b0, z3.Or(b == b0, b <= maxd), rr == r)), ("tried units have no non-zero parity word", ForallGoal([I], lambda i: z3.Implies(z3.And(i >= b0, i < b), DEAD(p, unit(p, i))), "i", trig=[("ONEBIT", (2,))])),
                    ("exhausted so far", z3.Or(b == b0, z)), ("other generators unchanged", z3.And(e.Pcol(cx.st) == P0, S == z3.Store(S0, r, S[r])))] + e.state_wf(cx.st, lv, p)
        e.loopspecs[c.key(CALCB)] = [LoopSpec(inv=inv, variant=lambda cx: BS(p) - e.toint(e.read(cx.st, bp), "i32"))]
        st0 = st.copy(); e.separate_returns = True
        res, exc = e.verify(c.key(CALCB), [lv, f, bp], this, st)
        for s, _ in res:
            b1 = e.toint(e.read(s, bp), "i32"); z, x, rr = e.rec(s, lv); S = e.S(s)
            e.obliges(s, [("result: " + n, g) for n, g in calc_post(e, s, lv, p, b0, b1, maxd, None)] + e.state_wf(s, lv, p), "", "post")
            e.oblige(s, z3.And(rr == r, e.Pcol(s) == P0, S == z3.Store(S0, r, S[r])), "only its generator's state changes", "post")
        if exc or not res: raise Unsupported("calc_basis")
        rep.take(e, c.key(CALCB))
    return Task("calc_basis " + c.name, run)

def addbase(c):
    def run(rep):
        e = ParExec(c); st = State(); lv = e.newis(st, "work"); r = gref(e, st, c, lv); b = e.newbases(st); this = this_(e, st, c); w = c.w; p = z3.Const("p", GP); e.set_state_contract(); e.pos_contract()
        assume_all(e, st, e.slots_wf(st, b, p) + e.work_wf(st, b, lv, p)); rep.cover("precondition", st.pc); nx0, rg0 = e.cols(st, b); P0 = e.Pcol(st)
        st.ghost["rounds"] = z3.IntVal(0)
        def inv(cx):
            nx, rg = e.cols(cx.st, b); z, x, rr = e.rec(cx.st, lv); L = [("slots unchanged", z3.And(nx == nx0, rg == rg0, rr == r, e.Pcol(cx.st) == P0)), ("rounds", cx.st.ghost["rounds"] >= 0)] + e.slots_wf(cx.st, b, p) + e.work_wf(cx.st, b, lv, p)
            n = e.toint(cx.var("count"), "i32"); n0 = e.toint(e.read(cx.entry, cx.varlv("count")), "i32")
            return L + [("rounds counted", cx.st.ghost["rounds"] == n0 - n), ("enough rounds for a complete elimination", n0 >= w), ("counter", z3.And(n >= -1, n <= n0))]
        def be(cx): cx.st.ghost["rounds"] = cx.st.ghost["rounds"] + 1
        e.loopspecs[c.key(ADDB)] = [LoopSpec(inv=inv, force=True, body_end=be, variant=lambda cx: 1 + e.toint(cx.var("count"), "i32"))]
        e.separate_returns = True
        res, exc = e.verify(c.key(ADDB), [b.sub(0), w, lv], this, st)
        for s, _ in res:
            nx, rg = e.cols(s, b); z, x, rr = e.rec(s, lv); O = lambda f, n: e.oblige(s, f, n, "post")
            e.obliges(s, e.slots_wf(s, b, p) + e.work_wf(s, b, lv, p), "", "post")
            O(z3.And(rg == rg0, rr == r, e.Pcol(s) == P0), "the generators stay in their slots")
            q = POS(w)(x); fill = z3.And(q >= 0, q < w, nx0[q] == 0, x != 0, nx == z3.Store(nx0, q, x))
            O(z3.Or(nx == nx0, fill), "at most one empty slot is filled, with the working word")
            O(z3.Or(fill, z3.And(nx == nx0, z3.Or(z, s.ghost["rounds"] >= w + 1))), "given up only when the states are exhausted or after a complete elimination")
        for s, _ in exc: e.oblige(s, z3.BoolVal(False), "no exception", "post")
        if not res: raise Unsupported("addBase")
        rep.take(e, c.key(ADDB))
    return Task("addBase " + c.name, run)

def setbit(e, c):
    w = c.w; k = [x for x in e.prog.functions if x.startswith("MTToolBox::setBitOfPos") and "*" + c.wt + "," in x]
    if len(k) != 1: return
    def f(cx, con):
        p = e.toint(cx.args[1], "i32"); v = cx.args[2]; e.oblige(cx.st, z3.And(p >= 0, p < w), "precondition of setBitOfPos", "pre")
        old = e.zw(e.read(cx.st, cx.args[0]), c.wt, cx.st); b = e.tobv(v, "u32") if not is_conc(v) else bv(int(v) & 0xffffffff, 32)
        e.write(cx.st, cx.args[0], z3.If(z3.Extract(0, 0, b) == 1, old | BITM(w)(p), old & ~BITM(w)(p)) if not is_conc(v) else (old | BITM(w)(p)) if int(v) & 1 else (old & ~BITM(w)(p)))
    e.contracts[k[0]] = Contract(k[0], apply=f)
def fromvec(e, c):
    k = [x for x in e.prog.functions if x.startswith("MTToolBox::fromGF2Vec<%s>(" % c.U)]
    if len(k) != 1: return
    def f(cx, con):
        a = cx.args[0]; v = e.read(cx.st, a) if isinstance(a, LV) else a
        e.oblige(cx.st, e.toint(v.f["len"], "i64") == c.w, "precondition of fromGF2Vec: one element per bit", "pre"); A = e.flush(v.f["a"])
        return e.word(lambda i: A[i])
    e.contracts[k[0]] = Contract(k[0], apply=f)
def orth(w, y, nx): return FAI(lambda j: z3.Implies(z3.And(j >= 0, j < w, nx[j] != 0), PAR(w)(y & nx[j]) == 0), "j")
def spcv(c):
    def run(rep):
        e = ParExec(c); setbit(e, c); fromvec(e, c); st = State(); e.init_heap(st, c.G); b = e.newbases(st); this = this_(e, st, c); w = c.w; size = z3.Int("size"); nx, rg0 = e.cols(st, b); cn = CNT(w); Wt = z3.Int("width"); N = cn(nx, Wt)
        st.assume(Wt == w, size >= 0, size <= 1 << 22, N <= size); rep.cover("precondition", st.pc)
        k = c.key(SPCV); K1 = [("CNT%d" % w, (1,))]
        def M(cx): m = e.read(cx.st, cx.varlv("mx")); return m
        def val(s): return [x for x in s]
        def common(cx, i, upto):
            m = M(cx); A = m.f["a"]; R, Cc = e.toint(m.f["rows"], "i64"), e.toint(m.f["cols"], "i64")
            rows = ForallGoal([I, I], lambda r, j: z3.Implies(z3.And(r >= 0, r < i, j >= 0, j < w, nx[j] != 0), A[r][cn(nx, j)] == ((nx[j] & BITM(w)(w - 1 - r)) != 0)), "rj", trig=rowtrig(A))
            empty = ForallGoal([I, I], lambda r, q: z3.Implies(z3.Or(r >= upto, z3.And(r >= 0, r < w, q >= N)), z3.Not(A[r][q])), "rq", trig=seltrig)
            return [("dimensions", z3.And(R == w, Cc == size)), ("rows written", rows), ("everything else is zero", empty)]
        def rowtrig(A):
            def f(apps, sel, bysort):
                js = [t.arg(1) for t in apps.get("CNT%d" % w, {}).values() if not z3.is_int_value(t.arg(1))]; rs = [t for t in sel.get("Int", {}).values() if isidx(t)]
                return [(r, j) for r in rs for j in js]
            return f
        def seltrig(apps, sel, bysort):
            x = list(sel.get("Int", {}).values()); return [(a, q) for a in x for q in x]
        def inv1(cx):
            i = e.toint(cx.var("i"), "i32"); pos = e.toint(cx.var("pos"), "i32")
            return [("range", z3.And(i >= 0, i <= w, pos == w - 1 - i))] + common(cx, i, i) + [("words unchanged", e.cols(cx.st, b)[0] == nx)]
        def inv2(cx):
            i = e.toint(e.read(cx.st, cx.varlv("i")), "i32"); j = e.toint(cx.var("j"), "i32"); cnt = e.toint(cx.var("cnt"), "i32"); A = M(cx).f["a"]; pos = e.toint(cx.var("pos"), "i32"); mask = e.zw(e.read(cx.st, cx.varlv("mask")), c.wt, cx.st)
            return [("range", z3.And(i >= 0, i < w, j >= 0, j <= w, pos == w - 1 - i, mask == BITM(w)(w - 1 - i)))] + common(cx, i, i + 1) + [("column counter", cnt == cn(nx, j)),
                ("row so far", ForallGoal([I], lambda q: z3.Implies(z3.And(q >= 0, q < j, nx[q] != 0), A[i][cn(nx, q)] == ((nx[q] & mask) != 0)), "q", trig=K1)),
                ("rest of the row is zero", ForallGoal([I], lambda q: z3.Implies(q >= cnt, z3.Not(A[i][q])), "q", trig=lambda apps, sel, by: [(t,) for t in sel.get("Int", {}).values()])), ("words unchanged", e.cols(cx.st, b)[0] == nx)]
        def ex(cx):
            """the invariant at the constant rows"""
            i = e.toint(cx.var("i"), "i32"); A = M(cx).f["a"]
            e.oblige(cx.st, i == w, "every row is written", "post")
            J = lambda apps, s, by: [(z3.Int("jj"),)] + [(t,) for t in apps.get("IDX%d" % w, {}).values()]
            cx.st.assume(Schema([I], lambda j: [z3.Implies(z3.And(i == w, j >= 0, j < w, nx[j] != 0), A[r][cn(nx, j)] == (z3.Extract(w - 1 - r, w - 1 - r, nx[j]) == 1)) for r in range(w)], "rows", trig=J))
            cx.st.assume(Schema([I], lambda q: [z3.Implies(q >= N, z3.Not(A[r][q])) for r in range(w)], "empty columns", trig=lambda apps, s, by: [(t,) for nme, d in apps.items() if nme.startswith("KC") for t in d.values()]))
        e.loopspecs[k] = [LoopSpec(inv=inv1, force=True, on_exit=ex, variant=lambda cx: w - e.toint(cx.var("i"), "i32")), LoopSpec(inv=inv2, force=True, variant=lambda cx: w - e.toint(cx.var("j"), "i32"))]
        e.separate_returns = True
        res, exc = e.verify(k, [b.sub(0), size], this, st)
        for s, v in res:
            y = e.zw(v, c.wt, s); e.oblige(s, y != 0, "the word is not zero", "post")
            j = z3.Int("jj"); s2 = s.copy(); s2.assume(j >= 0, j < w, nx[j] != 0, cn(nx, j) >= 0)
            e.oblige(s2, PAR(w)(y & nx[j]) == 0, "the word is orthogonal to every collected word", "post")
            e.oblige(s, e.cols(s, b)[0] == nx, "the collected words are unchanged", "post")
        cand = z3.Const("cand", BVS(w))
        for s, _ in exc:
            s2 = s.copy(); s2.assume(cand != 0); kc = s.ghost.get("KC")
            if kc is None: e.oblige(s, z3.BoolVal(False), "no exception before the kernel is known", "post"); continue
            q = IDX(w)(nx, Wt, kc)
            e.oblige(s2, z3.And(q >= 0, q < w, nx[q] != 0, PAR(w)(cand & nx[q]) == 1), "exception only if every non-zero word is non-orthogonal to a collected word", "post")
        if not res: raise Unsupported("search_parity_check_vector")
        rep.take(e, k)
    return Task("search_parity_check_vector " + c.name, run)

def search(c):
    def run(rep):
        e = ParExec(c); w = c.w; st = State(); e.init_heap(st, c.G); g = e.gen(st, "g"); p0, q0, r0, s0 = e.g4(st, g); f = fobj(e, st); this = mkobj(e, st, c.C)
        st.assume(BS(p0) >= 1, BS(p0) <= 1 << 21, MEXP(p0) >= 0, MEXP(p0) < BS(p0)); need = BS(p0) - MEXP(p0); cn = CNT(w); Wt = z3.Int("width"); st.assume(Wt == w)
        e.pos_contract()
        e.feasible = lambda *a, **k: True
        if any(c.key(n) not in e.prog.functions for n in (CALCB, ADDB, SPCV)): raise AnnotationMismatch("a private function of the parity search is missing")
        GH = {"upos": z3.IntVal(0), "handed": z3.BoolVal(True), "col": z3.K(I, z3.BitVecVal(0, w))}
        for k_, v_ in GH.items(): st.ghost[k_] = v_
        def calc(cx, con):
            s = cx.st; lv, ff, bp = cx.args[0], cx.args[1], cx.args[2]; b0 = e.toint(e.read(s, bp), "i32"); z, x, r = e.rec(s, lv); O = lambda f, n: e.oblige(s, f, n + "@%d" % cx.line, "pre", cx.line)
            O(e.pv(s, ff) == FP, "the irreducible factor is used"); O(e.Pcol(s)[r] == p0, "parameters of the working generator")
            O(s.ghost["handed"], "the state found before was added to the collection")
            O(b0 == s.ghost["upos"], "unit states are tried in order, none skipped")
            O(cn(s.ghost["col"], Wt) < need, "no further units once there are enough words")
            b1 = z3.Int(fresh_name("pos")); s2 = z3.Const(fresh_name("ws"), GS); z2, x2 = z3.Bool(fresh_name("wz")), z3.BitVec(fresh_name("wn"), w)
            e.write(s, lv.sub("zero"), z2); e.write(s, lv.sub("next"), x2); e.write(s, e.read(s, lv.sub("rg")).sub("s"), s2); e.write(s, bp, b1)
            for n, gl in calc_post(e, s, lv, p0, b0, b1, BS(p0), None) + e.state_wf(s, lv, p0): s.assume(Schema(gl.sorts, gl.fn, n, trig=gl.trig) if isinstance(gl, ForallGoal) else gl)
            s.ghost["upos"] = b1; s.ghost["handed"] = z3.BoolVal(False); s.ghost["work"] = x2
        e.con(CALCB, calc)
        def addb(cx, con):
            s = cx.st; b, n, lv = cx.args[0], e.toint(cx.args[1], "i32"), cx.args[2]
            e.oblige(s, n == w, "precondition of addBase: one slot per bit@%d" % cx.line, "pre", cx.line)
            e.obliges(s, e.slots_wf(s, b, p0) + e.work_wf(s, b, lv, p0), "precondition of addBase: ")
            nx, rg = e.cols(s, b); z, x, r = e.rec(s, lv)
            q, x2, z2, fl = z3.Int(fresh_name("slot")), z3.BitVec(fresh_name("an"), w), z3.Bool(fresh_name("az")), z3.Bool(fresh_name("filled"))
            nx2 = z3.If(fl, z3.Store(nx, q, x2), nx)
            nb = z3.Const(fresh_name("words"), AIX(w)); s.assume(nb == nx2)
            s.assume(z3.Implies(fl, z3.And(q >= 0, q < w, nx[q] == 0, x2 != 0)), cn(nx2, Wt) == z3.If(fl, cn(z3.Store(nx, q, x2), Wt), cn(nx, Wt)))
            H = s.store["H:" + c.G]; s.store["H:" + c.G] = H.with_("s", ArrV("GS", None, z3.Const(fresh_name("heap.s"), z3.ArraySort(I, GS))))
            bl = e.base(b); rec = e.read(s, bl); e.write(s, bl, rec.with_("next", ArrV(rec.f["next"].et, rec.f["next"].n, nb)))
            e.write(s, lv.sub("zero"), z2); e.write(s, lv.sub("next"), z3.BitVec(fresh_name("an2"), w))
            assume_all(e, s, e.slots_wf(s, b, p0) + e.work_wf(s, b, lv, p0))
            s.ghost["handed"] = z3.BoolVal(True); s.ghost["col"] = nb; s.assume(cn(nb, Wt) == cn(nx2, Wt))
        e.con(ADDB, addb)
        Y = z3.BitVec("parity", w)
        def sp(cx, con):
            s = cx.st; b = cx.args[0]; size = e.toint(cx.args[1], "i32"); nx, rg = e.cols(s, b); N = cn(nx, Wt); s0c = s.ghost["col"]
            e.oblige(s, e.toint(e.read(s, cx.this.sub("word_width")), "i32") == w, "precondition of the vector search: word width", "pre")
            e.oblige(s, z3.And(size >= 0, N <= size, size <= 1 << 22), "precondition of the vector search: room for every word", "pre")
            e.oblige(s, FAI(lambda i: z3.Implies(z3.And(i >= 0, i < w), nx[i] == s0c[i])), "the collected words are searched", "pre"); s.ghost["col"] = nx
            e.oblige(s, z3.And(s.ghost["handed"], z3.Or(N >= need, s.ghost["upos"] >= BS(p0))), "units are tried until there are enough words or all are used", "post")
            x = s.copy(); x.ghost["nosol"] = z3.BoolVal(True); e.exc.append((x, "*c"))
            s.assume(Y != 0); assume_all(e, s, [("orthogonal", orth(w, Y, nx))]); s.ghost["searched"] = z3.BoolVal(True); return Y
        e.con(SPCV, sp)
        key = c.C + "::searchParity(&R:%s,&R:NTL::GF2X)" % c.G
        def wk(cx):
            bs = [lv for nm, lv in cx.st.env.values() if (e.otype.get(lv.oid) or "").endswith("]R:" + c.IS)]; ws = [lv for nm, lv in cx.st.env.values() if e.otype.get(lv.oid) == "R:" + c.IS]
            if len(bs) != 1 or len(ws) != 1: raise AnnotationMismatch("slots and working state")
            return bs[0], ws[0]
        def inv(cx):
            s = cx.st; b, lv = wk(cx); nx, rg = e.cols(s, b); N = cn(nx, Wt); gh = s.ghost; bp = e.toint(cx.var("bit_pos"), "i32")
            return [("unit position", z3.And(bp == gh["upos"], bp >= 0, bp <= BS(p0))), ("collected words", z3.And(gh["handed"], gh["col"] == nx)), ("not enough words yet", cn(gh["col"], Wt) < need), ("given generator unchanged", z3.And(*[x == y for x, y in zip(e.g4(s, g), (p0, q0, r0, s0))]))] + e.slots_wf(s, b, p0) + e.work_wf(s, b, lv, p0)
        def once(cx):
            s = cx.st; b, lv = wk(cx); nx, rg = e.cols(s, b); c0 = s.ghost["col"]; e.oblige(s, z3.And(*[nx[i] == c0[i] for i in range(w)]), "the slots are empty at the start", "inv"); e.oblige(s, cn(nx, z3.IntVal(w)) == 0, "no words at the start", "inv")
            e.obliges(s, e.slots_wf(s, b, p0) + e.work_wf(s, b, lv, p0), "at the start: ", "inv")
            # from here on only what was just proved is known about slots and heap
            del s.pc[npc:]
            bl = e.base(b); z, x, r = e.rec(s, lv); fr = lambda n, t: z3.Const(fresh_name(n), z3.ArraySort(I, t)); rec = e.read(s, bl); r2 = z3.Int(fresh_name("wrg"))
            e.write(s, bl, rec.with_("next", ArrV(rec.f["next"].et, rec.f["next"].n, fr("next", BVS(w)))).with_("rg", ArrV(rec.f["rg"].et, rec.f["rg"].n, fr("rg", I))))
            H = s.store["H:" + c.G]; s.store["H:" + c.G] = Rec(H.cls, {k_: self_fresh(e, v_, k_) for k_, v_ in H.f.items()}); e.write(s, lv.sub("rg"), LV("H:" + c.G, (r2,)))
            assume_all(e, s, e.slots_wf(s, b, p0) + e.work_wf(s, b, lv, p0)); nx, rg = e.cols(s, b); s.ghost["col"] = nx; s.assume(cn(nx, Wt) == 0)
        def invc(cx):
            s = cx.st; b, lv = wk(cx); nx, rg = e.cols(s, b); i = e.toint(cx.var("i"), "i32")
            n0 = z3.simplify(e.toint(cx.var("count", cx.entry), "i32")); down = z3.is_int_value(n0) and n0.as_long() == w   # counted up from 0, or down from w
            return [("words counted", z3.And(i >= 0, i <= w, e.toint(cx.var("count"), "i32") == (w - i if down else 0) + cn(nx, i), s.ghost["col"] == nx))]
        e.loopspecs[key] = [None, LoopSpec(inv=inv, once=once, variant=lambda cx: BS(p0) - e.toint(cx.var("bit_pos"), "i32")), LoopSpec(inv=invc, force=True)]
        rep.cover("precondition", st.pc); npc = len(st.pc)
        res, exc = e.verify(key, [g, f], this, st)
        for s, v in res:
            y = e.zw(v, c.wt, s); pp, qq, rr, ss = e.g4(s, g); O = lambda f, n: e.oblige(s, f, n, "post")
            O(z3.And(y != 0, y == Y, s.ghost["searched"] if "searched" in s.ghost else z3.BoolVal(False)), "the result is the non-zero orthogonal word found")
            O(z3.And(ss == SETPV(w)(p0, s0, y), pp == SETPP(w)(p0, y), qq == q0, rr == r0), "exactly that word is stored in the generator, nothing else changes")
            O(orth(w, y, s.ghost["col"]), "the result is orthogonal to every collected word")
        for s, _ in exc:
            e.oblige(s, s.ghost.get("nosol", z3.BoolVal(False)), "an exception only if there is no solution", "post")
            e.oblige(s, z3.And(*[x == y for x, y in zip(e.g4(s, g), (p0, q0, r0, s0))]), "the generator is unchanged by an exception", "post")
        if not res: raise Unsupported("searchParity")
        rep.take(e, key)
    return Task("searchParity " + c.name, run)

def parity_value(name):
    """the parity word of a bundled generator is a word of its (linear) state"""
    g = gens.BY[name]
    def run(rep):
        e = g.engine(); st = State(); a = g.make(e, st, "g"); k = [x for x in e.prog.functions if x.startswith(g.cls + "::getParityValue(")]
        if len(k) != 1: raise AnnotationMismatch("getParityValue")
        sc = dict(zip([p for p, _ in g.scal], g.scalars(e, st, a)))
        word = (lambda s: g.V(e, s, a)(z3.IntVal(0))) if name != "dSFMT" else (lambda s: dict(zip([p for p, _ in g.scal], g.scalars(e, s, a)))["lung"])
        want = word(st); rep.cover("state", st.pc); old = st.copy()
        for s, v in gens.runs(e, st, k[0], [], a):
            v = e.read(s, v) if isinstance(v, LV) else v
            e.oblige(s, e.z(v, g.out) == want if g.out != "w128" else v == want, "parity word is the first word of the state" if name != "dSFMT" else "parity word is the lung", "post")
        rep.take(e, k[0])
        e = g.engine(); st = State(); a = g.make(e, st, "g"); k = [x for x in e.prog.functions if x.startswith(g.cls + "::setParityValue(")]
        if len(k) != 1: raise AnnotationMismatch("setParityValue")
        x = z3.BitVec("parity", g.w); old = st.copy(); arg = x
        if "&" in k[0].split("(")[-1]: arg = e.new_obj(st, x, "parity"); e.otype[arg.oid] = k[0].split("(&")[-1][:-1]
        for s, _ in gens.runs(e, st, k[0], [arg], a):
            e.oblige(s, word(s) == x, "the word of the state is set", "post")
            fl = [n for (_, n, t) in e.fields_of(g.cls) if n == "parity"]
            for n in fl: pv = e.read(s, a.sub(n)); e.oblige(s, (e.z(pv, g.out) if g.out != "w128" else pv) == x, "the parity field is set", "post")
            def blank(r): return r.with_("param", Rec(r.f["param"].cls, {k_: (0 if k_.startswith("parity") else v_) for k_, v_ in r.f["param"].f.items()})) if "param" in r.f else r
            old2, s2 = old.copy(), s.copy()
            for q in (old2, s2): e.write(q, a, blank(e.read(q, a)))
            for nme, fml in g.same_params(e, s2, a, old2, a):
                if nme != "parity": e.oblige(s, fml, "parameter %s unchanged" % nme, "post")
            if "param" in e.read(s, a).f:      # the parity parameters are the parts of the word
                P_ = e.read(s, a).f["param"].f; nms = sorted(k_ for k_ in P_ if k_.startswith("parity")); ws = [e.z(P_[k_], "u%d" % (g.w // len(nms))) for k_ in nms]
                e.oblige(s, z3.Concat(*reversed(ws)) == x, "the parity parameters are the parts of the word", "post")
        rep.take(e, k[0])
    return Task("parity value " + name, run)

def tasks(tier):
    L = []
    for c in CFGS: L += [cnt_lemma(c.w), set_state(c), add_state(c), calc_basis(c), addbase(c), spcv(c), search(c)]
    L += [t for t in C01.tasks(tier) if t.name in ("fromGF2Vec u32", "fromGF2Vec u64", "setBitOfPos u32", "setBitOfPos u64", "calc_1pos u32", "calc_1pos u64")]
    L += [lemmas(w) for w in (32, 64, 128)]
    return L + [parity_value(n) for n in ("RMT64", "SFMT", "dSFMT")]
