"""The bundled generators: how their fields form the abstract state (view),
and the generic relational / functional obligations over it.

view = list of scalar state words + one ring V(r) = state[(cursor+r) mod n],
0 <= r < n.  Everything else is a parameter."""
import time
from lib import *
IDX = z3.IntSort()
def C(v): return z3.IntVal(v)


def consts_trig(apps, sel, bysort):
    """instances at the integer constants (skolem constants, loop counters)"""
    return [(t,) for t in bysort.get("Int", {}).values() if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED]


def modn(x, n):
    """x mod n for 0 <= x < 3n (mathematical integers)"""
    return z3.If(x >= n + n, x - n - n, z3.If(x >= n, x - n, x))


class GenExec(LibExec):
    """% by a symbolic or non power of two divisor, without division circuits"""
    def int_mod(self, st, a, b, t):
        """a % b (C): conditional subtraction when 0 <= a < 3b, else an
        unspecified value in the range of the remainder"""
        sb = z3.simplify(b)
        if z3.is_int_value(sb): return super().int_mod(st, a, b, t) if not self.small_int(st, a, b) else modn(a, b)
        if self.small_int(st, a, b): return modn(a, b)
        f = z3.Function("rem_any", z3.IntSort(), z3.IntSort(), z3.IntSort())
        st.pc.append(z3.Implies(z3.And(b > 0, a >= 0), z3.And(f(a, b) >= 0, f(a, b) < b)))
        return z3.If(z3.And(b > 0, a >= 0, a < b), a, z3.If(z3.And(b > 0, a >= b, a < b + b), a - b, f(a, b)))
    def small_int(self, st, a, b):
        s = z3.Solver(); s.set("timeout", 2000); s.add(*st.pc); s.add(z3.Not(z3.And(a >= 0, a < b + b + b)))
        return s.check() == z3.unsat

    def simp(self, v):
        """keeps the structure of conditions (lockstep lemmas need it)"""
        r = super().simp(v)
        return v if is_z3(v) and is_z3(r) and z3.is_bool(v) else r
    # ---- cells of symbolic arrays with a name; values written get a name
    def arith_pc(self, st):
        return [f for f in st.pc if self.arith_only(f)]
    def arith_only(self, f):
        if not hasattr(self, "_ao"): self._ao = {}
        k = f.get_id()
        if k not in self._ao:
            seen, todo, ok = set(), [f], True
            while todo and ok:
                t = todo.pop()
                if t.get_id() in seen: continue
                seen.add(t.get_id())
                if z3.is_quantifier(t) or not (z3.is_bool(t) or z3.is_int(t)): ok = False
                elif z3.is_app(t): todo += t.children()
            self._ao[k] = (ok, f)
        return self._ao[k][0]
    def name_cells(self, st, base, cells):
        """cells: [(index term, word, ring offset)] of a symbolic array constant"""
        self.named = self.named or {}; self.writes = True
        self.named[base.get_id()] = list(cells)
        for i, w, _ in cells: st.assume(z3.Select(base, i) == w)
    named = None; writes = False
    def __init__(self, prog, **kw):
        super().__init__(prog, **kw); self.defs = {}
    def read(self, st, lv):
        self._st = st
        return super().read(st, lv)
    def write(self, st, lv, x):
        self._st = st
        return super().write(st, lv, x)
    def decide(self, a, b):
        """True/False if the state decides a == b, else None"""
        st = self._st
        k = (st.pc[-1].get_id() if st.pc else 0, len(st.pc), a.get_id(), b.get_id())
        if not hasattr(self, "_dec"): self._dec = {}
        if k not in self._dec:
            s = z3.Solver(); s.set("timeout", 1000); s.add(*self.arith_pc(st))
            s.push(); s.add(a != b); r = s.check(); s.pop()
            if r == z3.unsat: v = True
            else:
                s.add(a == b); v = False if s.check() == z3.unsat else None
            self._dec[k] = (v, a, b, st.pc[-1:])
        return self._dec[k][0]
    def resolve(self, t, it):
        """the word read at index it from a chain of stores over a named array"""
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
            b, j, v = t.children(); d = self.decide(it, j)
            if d is True: return v
            if d is None:
                # same cell only for some parameters: compare the ring offsets
                r = self.resolve(b, it); base = b
                while z3.is_app(base) and base.decl().kind() == z3.Z3_OP_STORE: base = base.children()[0]
                if r is None or base.get_id() not in self.named: return None
                o = [next((o for x, w, o in self.named[base.get_id()] if self.decide(q, x) is True), None) for q in (it, j)]
                if None in o or self.decide(z3.If(it == j, C(1), C(0)), z3.If(o[0] == o[1], C(1), C(0))) is not True: return None
                return z3.If(o[0] == o[1], v, r)
            t = b
        for x, w, o in self.named.get(t.get_id(), ()):
            if self.decide(it, x) is True: return w
        return None
    def arr_read(self, a, i):
        if is_z3(i) and a.base is None and isinstance(a.n, int) and a.n <= 64 and len(a.over) == a.n and (z3.is_bv(i) or z3.is_app_of(i, z3.Z3_OP_BV2INT)):
            x = i if z3.is_bv(i) else i.children()[0]           # small table indexed by a word
            r = self.z(a.over[a.n - 1], a.et)
            for k in reversed(range(a.n - 1)): r = z3.If(x == k, self.z(a.over[k], a.et), r)
            return r
        if self.named and is_z3(i) and a.base is not None and not a.over or (self.named and a.base is not None and isinstance(i, int) and i not in a.over):
            r = self.resolve(a.base, self.idx_term(i))
            if r is not None: return self.dec(a.et, r)
        return super().arr_read(a, i)
    def arr_write(self, a, i, v):
        if self.writes and is_z3(i) and is_z3(v) and z3.is_bv(v) and not z3.is_bv_value(v) and v.num_args() > 0:
            w = z3.Const(fresh_name("cell"), v.sort()); self.defs[w.get_id()] = (w, v)
            v = w
        return super().arr_write(a, i, v)
    def define(self, t):
        """replace names of written values by their definitions"""
        for _ in range(20):
            t2 = z3.substitute(t, *[(w, v) for w, v in self.defs.values()]) if self.defs else t
            if t2.eq(t): break
            t = t2
        return t

    # ---- relational proof over three runs: t3 == t1 ^ t2 by induction over
    # the (common) structure, one lemma over fresh variables per node
    def lock_init(self, st, triples):
        self.lk = {}; self.lk_pc = [f for f in st.pc]; self.lk_n = 0; self.lk_t = 0.0
        for t in triples:
            p, q = z3.Const(fresh_name("lp"), t[0].sort()), z3.Const(fresh_name("lq"), t[0].sort())
            self.lk[tuple(x.get_id() for x in t)] = ["lin", (p, q, p ^ q), t, None]
    def lock(self, t):
        """[kind, abstraction over fresh variables, triple, children]"""
        k = tuple(x.get_id() for x in t)
        if k in self.lk: return self.lk[k]
        if k[0] == k[1] == k[2]: r = ["eq", t, t, None]
        elif k[0] in self.defs and k[1] in self.defs and k[2] in self.defs: r = self.lock(tuple(self.defs[x][1] for x in k))
        elif all(x.num_args() for x in t) and all(x.decl().eq(t[0].decl()) and x.num_args() == t[0].num_args() for x in t):
            ch = [self.lock(c) for c in zip(*(x.children() for x in t))]
            r = ["other", None, t, ch]
            r[1] = self.rebuild(r, [c[1] for c in ch])
            if z3.is_bv(t[0]):
                ok = self.lemma(r[1])
                for d in (1, 2, 3, 5, 8):
                    if ok: break
                    a = self.expand(r, d, {})
                    ok = self.lemma(a)
                if ok:
                    p, q = z3.Const(fresh_name("lp"), t[0].sort()), z3.Const(fresh_name("lq"), t[0].sort())
                    r[0] = "lin"; r[1] = (p, q, p ^ q)
        else: r = ["other", t, t, None]
        self.lk[k] = r
        return r
    def rebuild(self, r, ch): return tuple(x.decl()(*[c[q] for c in ch]) for q, x in enumerate(r[2]))
    def expand(self, r, d, memo):
        """the abstraction with the structure kept below d proved nodes"""
        keep = {}; todo = [(r, d)]
        while todo:
            x, q = todo.pop()
            if x[3] is None or keep.get(id(x), -1) >= q: continue
            keep[id(x)] = q
            for c in x[3]:
                if c[0] == "lin" and q == 0: continue
                todo.append((c, q - 1 if c[0] == "lin" else q))
        def build(x):
            if id(x) not in keep: return x[1]
            if id(x) not in memo: memo[id(x)] = self.rebuild(x, [build(c) for c in x[3]])
            return memo[id(x)]
        return build(r)
    def lemma(self, a):
        t0 = time.time()
        g = a[2] == a[0] ^ a[1]
        ok = False
        for hyps in ([], [f for f in self.lk_pc if self.bv_only(f)]):
            s = z3.SolverFor("QF_BV") if not hyps else z3.Solver()
            s.set("timeout", 4000); s.add(*hyps); s.add(z3.Not(g))
            if s.check() == z3.unsat: ok = True; break
            if a[0].num_args() and not any(z3.is_app_of(a[0], k) for k in (z3.Z3_OP_SELECT, z3.Z3_OP_ITE)): break
        self.lk_n += 1; self.lk_t += time.time() - t0
        return ok
    def bv_only(self, f):
        if not hasattr(self, "_bo"): self._bo = {}
        k = f.get_id()
        if k not in self._bo:
            seen, todo, ok = set(), [f], True
            while todo and ok:
                t = todo.pop()
                if t.get_id() in seen: continue
                seen.add(t.get_id())
                if z3.is_quantifier(t) or z3.is_int(t) or z3.is_array(t) : ok = False
                elif z3.is_app(t): todo += t.children()
            self._bo[k] = (ok, f)
        return self._bo[k][0]
    def oblige_linear(self, st, t, label):
        """t3 == t1 ^ t2: by the lockstep lemmas if they go through, else as an
        ordinary obligation"""
        t = tuple(x if is_z3(x) else z3.BitVecVal(x, t[0].size()) for x in t)
        if self.lock(t)[0] == "lin":
            o = self._triv(label, "post", 0); o.backend = "z3 %s (lockstep lemmas)" % z3.get_version_string(); o.time = self.lk_t; self.lk_t = 0.0
            self.obls.append(o)
        else: self.oblige(st, self.define(t[2] == t[0] ^ t[1]), label, "post")

    def div_hook(self, st, op, a, b, t, line):
        w = a.size(); sgn = int_ty(t)[0]
        bs = z3.simplify(b)
        conc = bs.as_long() if z3.is_bv_value(bs) else None
        if conc and conc & (conc - 1) == 0: return None
        if op == "/":
            if not conc or conc >= 1 << (w - 1): return None
            q, r = self.qr(st, a, conc, w, sgn)
            return q
        if sgn and not conc: return None
        if conc: return self.qr(st, a, conc, w, sgn)[1]
        f = z3.Function("urem_any%d" % w, a.sort(), a.sort(), a.sort())
        st.pc.append(z3.ULT(f(a, b), b)); st.pc.append(z3.Implies(z3.ULT(a, b), f(a, b) == a))
        return f(a, b)

    def qr(self, st, a, c, w, sgn):
        """quotient and remainder by a constant through their definition"""
        k = (a.get_id(), c, sgn)
        if not hasattr(self, "_qr"): self._qr = {}
        if k not in self._qr:
            self._qr[k] = (z3.Const(fresh_name("quot"), a.sort()), z3.Const(fresh_name("rem"), a.sort()), a)
        q, r, _ = self._qr[k]
        hi = (1 << (w - 1 if sgn else w)) - 1
        d = z3.And(a == q * c + r, z3.ULT(r, c), z3.ULE(q, hi // c))
        if sgn:
            d = z3.And(z3.Implies(a >= 0, d), z3.Implies(a < 0, z3.And(q == a / c, r == z3.SRem(a, c))))
        st.pc.append(d)
        return q, r


def finity(f): return f


class Gen:
    def __init__(self, name, unit, cls, out, scal=(), ring=None, inv=None, offsets=None, reverse=None, irrelevant=(), maxn=1 << 20, minn=3, bvf=(), tables=()):
        """scal: [(path, width)]; ring: (field, size field or int, cursor field)"""
        self.name, self.unit, self.cls, self.out = name, unit, cls, out
        self.scal, self.ring, self._inv, self._off = list(scal), ring, inv, offsets
        self.reverse, self.irrelevant = reverse, irrelevant
        self.maxn, self.minn = maxn, minn
        self.tables = tables
        self.bvf = bvf      # int fields that are shift amounts: kept as bit vectors

    def engine(self, cls=None, **kw):
        cls = cls or GenExec
        return cls(self.prog(), idx="int", intmode={"i32"}, **kw) if self.ring else cls(self.prog(), **kw)
    def prog(self): return frontend.load(self.unit)
    @property
    def w(self): return 128 if self.out == "w128" else int(self.out[1:])

    # ---- objects
    def make(self, e, st, tag="g", like=None):
        """an object in an arbitrary valid state; like: take the parameters of that object"""
        lv = mkobj(e, st, self.cls, name=tag)
        for p in self.tables:       # an arbitrary XOR-linear table
            b = [z3.BitVec(fresh_name("%s.%s%d" % (tag, p, 1 << k)), 32) for k in range(4)]
            T = {}
            for i in range(16):
                x = bv(0, 32)
                for k in range(4):
                    if i >> k & 1: x = b[k] if x.eq(bv(0, 32)) else x ^ b[k]
                T[i] = x
            e.write(st, LV(lv.oid, lv.path + tuple(p.split("."))), ArrV("u32", 16, None, T))
        for p in self.bvf: e.write(st, LV(lv.oid, lv.path + tuple(p.split("."))), z3.BitVec(fresh_name(tag + "." + p), 32))
        if self.ring:
            f, sz, cur = self.ring
            n = sz if isinstance(sz, int) else (self.field(e, st, like, sz) if like else self.field(e, st, lv, sz))
            if not isinstance(sz, int):
                if not like: st.assume(n >= self.minn, n <= self.maxn)
                et = self.ptr_t(e, f)[1:]
                arr = e.new_obj(st, ArrV(et, n, z3.Const(fresh_name(tag + ".state"), z3.ArraySort(IDX, e.elem_sort(et)))), tag + ".arr")
                e.otype[arr.oid] = "[?]" + et
                e.write(st, lv.sub(f), arr.sub(0))
        if like: self.copy_params(e, st, lv, like)
        st.assume(*self.inv(e, st, lv))
        return lv

    def ptr_t(self, e, f): return {n: t for (_, n, t) in e.fields_of(self.cls)}[f]

    def state_fields(self):
        s = {p.split(".")[0] for p, _ in self.scal}
        if self.ring: s |= {self.ring[0], self.ring[2]}
        return s

    def copy_params(self, e, st, lv, like):
        for (_, n, t) in e.fields_of(self.cls):
            if n in self.state_fields(): continue
            e.write(st, lv.sub(n), e.read(st, like.sub(n)))

    def params(self, e, st, lv):
        return {n: e.read(st, lv.sub(n)) for (_, n, t) in e.fields_of(self.cls) if n not in self.state_fields()}

    def same_params(self, e, st, lv, st2, lv2, skip=()):
        """formula: all parameters of lv (in st) equal those of lv2 (in st2)"""
        a, b = self.params(e, st, lv), self.params(e, st2, lv2)
        out = []
        for n in a:
            if n in skip: continue
            f = eqv(e, a[n], b[n])
            if f is not True: out.append((n, f))
        return out

    # ---- view
    def field(self, e, st, lv, path):
        v = e.read(st, LV(lv.oid, lv.path + tuple(int(x) if x.isdigit() else x for x in path.split("."))))
        return v

    def scalars(self, e, st, lv):
        out = []
        for p, w in self.scal:
            v = self.field(e, st, lv, p)
            if v is UNINIT: v = z3.BitVec(fresh_name("uninit." + p), w)
            out.append(v if is_z3(v) else bv(v, w))
        return out

    def n(self, e, st, lv):
        sz = self.ring[1]
        v = sz if isinstance(sz, int) else self.field(e, st, lv, sz)
        return v if is_z3(v) else C(v)
    def cursor(self, e, st, lv):
        v = self.field(e, st, lv, self.ring[2])
        if v is UNINIT: return z3.Int(fresh_name("uninit.cursor"))
        return v if is_z3(v) else C(v)
    def array(self, e, st, lv):
        f = self.ring[0]
        v = e.read(st, lv.sub(f))
        if isinstance(v, LV): v = e.read(st, LV(v.oid, v.path[:-1]))
        if not isinstance(v, ArrV): raise Unsupported("state of %s is not an array" % self.name)
        return e.flush(v)
    def V(self, e, st, lv):
        a, n, c = self.array(e, st, lv), self.n(e, st, lv), self.cursor(e, st, lv)
        return lambda r: z3.Select(a, modn(c + r, n))

    def inv(self, e, st, lv):
        out = []
        if self.ring:
            c, n = self.cursor(e, st, lv), self.n(e, st, lv)
            out += [c >= 0, c < n]
        if self._inv: out += self._inv(self, e, st, lv)
        return out

    def ring_offsets(self, e, st, lv):
        n = self.n(e, st, lv)
        out = [C(0), C(1), C(2), n - 1, n - 2]
        if self._off: out += [modn(x, n) for x in self._off(self, e, st, lv)]
        return out

    def hyp(self, st, f, offs, n):
        """assume forall r in [0,n): f(r), with the instances the recursion needs"""
        g = lambda r: z3.Implies(z3.And(r >= 0, r < n), f(r))
        st.assume(*[g(o) for o in offs])
        return g

    def key(self, e, name, ps=None):
        pat = self.cls + "::" + name
        ks = [k for k in e.prog.functions if k.startswith(pat + "(")]
        if ps is not None: ks = [k for k in ks if re.match(r"^%s\((%s)\)c?$" % (re.escape(pat), ps), k)]
        if len(ks) != 1: raise AnnotationMismatch("%s: %s" % (pat, ks))
        return ks[0]


def eqv(e, a, b):
    """equality of two values of the same shape as a formula (or True)"""
    if e.veq(a, b): return True
    if a is UNINIT or b is UNINIT: return z3.BoolVal(False)
    if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
        fs = [eqv(e, a.f[k], b.f[k]) for k in a.f]
        fs = [f for f in fs if f is not True]
        return z3.And(fs) if fs else True
    if isinstance(a, ArrV) and isinstance(b, ArrV):
        if is_conc(a.n) and a.n <= 64:
            fs = [eqv(e, e.arr_read(a, i), e.arr_read(b, i)) for i in range(a.n)]
            fs = [f for f in fs if f is not True]
            return z3.And(fs) if fs else True
        return e.flush(a) == e.flush(b)
    if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return z3.BoolVal(a == b)
    if is_z3(a) or is_z3(b):
        a2 = a if is_z3(a) else e.lift(a, b); b2 = b if is_z3(b) else e.lift(b, a)
        return a2 == b2
    if isinstance(a, Opaque) or isinstance(b, Opaque): return True
    return z3.BoolVal(False)


# ------------------------------------------------------------- descriptors
XS = [("x", 32), ("y", 32), ("z", 32), ("w", 32)]
def xs3inv(g, e, st, lv): return [z3.ULT(e.z(e.read(st, lv.sub(f)), "u16"), 32) for f in "abc"]
def mt2inv(g, e, st, lv):
    F = lambda f: g.field(e, st, lv, f)
    return [F("pos") >= 0, F("pos") < F("size"), F("lower_mask") == ~F("upper_mask")]
def posinv(p):
    return lambda g, e, st, lv: [g.field(e, st, lv, p) >= 0, g.field(e, st, lv, p) < g.n(e, st, lv)]
def table_linear(e, st, lv, path):
    T = [e.z(e.read(st, LV(lv.oid, lv.path + path + (i,))), "u32") for i in range(16)]
    out = [T[0] == 0]
    for i in range(16):
        if i & (i - 1):
            x = bv(0, 32)
            for k in range(4):
                if i >> k & 1: x = x ^ T[1 << k]
            out.append(T[i] == x)
    return out
def mtgpinv(g, e, st, lv):
    F = lambda f: g.field(e, st, lv, f)
    return [F("param.pos") >= 1, F("param.pos") < F("state_size"), F("param.sh1") >= 0, F("param.sh1") < 32, F("param.sh2") >= 0, F("param.sh2") < 32] \
        + table_linear(e, st, lv, ("param", "p")) + table_linear(e, st, lv, ("param", "tp"))
def sfmtinv(g, e, st, lv):
    F = lambda f: g.field(e, st, lv, f)
    return [F("param.pos1") >= 1, F("param.pos1") < F("size") - 1, F("param.sl1") > 0, F("param.sl1") < 32, F("param.sr1") > 0, F("param.sr1") < 32,
            F("param.sl2") > 0, F("param.sl2") < 8, F("param.sr2") > 0, F("param.sr2") < 8, F("start_mode") >= 0, F("start_mode") < 4, F("weight_mode") >= 1, F("weight_mode") <= 4]
def dsfmtinv(g, e, st, lv):
    F = lambda f: g.field(e, st, lv, f)
    return [F("param.pos1") >= 1, F("param.pos1") < F("size") - 1, F("param.sl1") > 0, F("param.sl1") < 64, F("start_mode") >= 0, F("start_mode") < 2, F("weight_mode") >= 1, F("weight_mode") <= 2]
def off(*ps):
    def f(g, e, st, lv): return [g.field(e, st, lv, p) + d for p, d in ps]
    return f

GENS = [
    Gen("xorshift-2", "xs2.cpp", "XorShift", "u32", XS),
    Gen("xorshift-3", "xs3.cpp", "XorShift", "u32", XS, inv=xs3inv),
    Gen("xorshift-4", "xs4.cpp", "XorShift", "u32", XS, inv=xs3inv),
    Gen("xorshift-5", "xs5.cpp", "XorShift", "u32", XS),
    Gen("TinyMT32", "tinymt.cpp", "tinymt::tinymt32", "u32", [("status.%d" % i, 32) for i in range(4)], reverse="reverse_bit_flag"),
    Gen("mt1 MT19937", "mt1.cpp", "MT19937", "u32", ring=("state", 624, "index"), offsets=lambda g, e, st, lv: [C(397), C(398)]),
    Gen("mt2 MT32Search", "mt2.cpp", "MT32Search", "u32", ring=("state", "size", "index"), inv=mt2inv, offsets=off(("pos", 0), ("pos", 1)), reverse="reverse"),
    Gen("MTGP32", "mtgp.cpp", "mtgp::mtgp32", "u32", ring=("state", "state_size", "idx"), inv=mtgpinv, offsets=off(("param.pos", 0), ("param.pos", 1), ("param.pos", -1)), reverse="reverse_bit_flag", bvf=("param.sh1", "param.sh2"), tables=("param.p", "param.tp")),
    Gen("RMT64", "rmt64.cpp", "RMT64Search", "u64", ring=("state", "size", "index"), inv=posinv("pos"), offsets=off(("pos", 0), ("pos", 1)), reverse="reverse"),
    Gen("SFMT", "sfmt.cpp", "MTToolBox::sfmt", "w128", [("previous", 128)], ring=("state", "size", "index"), inv=sfmtinv, offsets=off(("param.pos1", 0), ("param.pos1", 1)), reverse="reverse_bit_flag", bvf=("param.sl1", "param.sr1", "param.sl2", "param.sr2")),
    Gen("dSFMT", "dsfmt.cpp", "MTToolBox::dSFMT", "w128", [("lung", 128), ("previous", 128)], ring=("state", "size", "index"), inv=dsfmtinv, offsets=off(("param.pos1", 0), ("param.pos1", 1)), bvf=("param.sl1",)),
]
BY = {g.name: g for g in GENS}


# --------------------------------------------------------- runs of a method
def runs(e, st, key, args, this):
    """[(state, value)] of running a method; exceptions must be unreachable"""
    res, exc = e.verify(key, args, this, st)
    for xs, et in exc: e.oblige(xs, z3.BoolVal(False), "no exception (%s)" % et[:40], "post")
    if not res: raise Unsupported("no return path of " + key)
    return res
