"""Shared specification vocabulary and models of dependencies (NTL, iostream)."""
import z3
from execu import *
from runner import Task, Report
import frontend

BV32 = z3.BitVecSort(32)
def bv(v, w): return z3.BitVecVal(v, w)
def bit(x, i): return z3.Extract(i, i, x)


def popcount(x, out=32):
    """number of one bits, as a balanced tree of additions"""
    level = [z3.Extract(i, i, x) for i in range(x.size())]
    w = 1
    while len(level) > 1:
        w += 1
        level = [z3.ZeroExt(1, level[i]) + z3.ZeroExt(1, level[i + 1]) for i in range(0, len(level), 2)]
    return z3.ZeroExt(out - level[0].size(), level[0])


def parity_bv(x):
    """XOR of all bits (1-bit vector)"""
    r = bit(x, 0)
    for i in range(1, x.size()): r = r ^ bit(x, i)
    return r


def reverse(x): return z3.Concat(*[bit(x, i) for i in range(x.size())])


def first_one_pos(x):
    """index from the most significant bit of the lowest set bit; -1 if none"""
    w = x.size()
    r = bv(-1, 32)
    for i in reversed(range(w)): r = z3.If(bit(x, i) == 1, bv(w - 1 - i, 32), r)
    return r


def nonneg(x): return x >= 0
def inrange(x, lo, hi): return z3.And(x >= lo, x <= hi)


VECGF2 = "R:NTL::Vec<NTL::GF2>"
GF2 = "R:NTL::GF2"
REFGF2 = "R:NTL::ref_GF2"


class LibExec(Exec):
    """Engine with assumed contracts for NTL vectors over GF(2) and for
    iostreams (output is not observed)."""
    STREAMS = ("basic_ostream", "basic_ios", "basic_ofstream", "basic_stringstream", "basic_istream", "ios_base")

    def __init__(self, prog, **kw):
        super().__init__(prog, **kw)
        self.absty[GF2] = z3.BoolSort()
        self.absty[REFGF2] = z3.BoolSort()
        self.defaults[VECGF2] = lambda: Rec("NTL::Vec<NTL::GF2>", {"len": 0, "a": ArrV("bool", None, z3.Const(fresh_name("vecgf2"), z3.ArraySort(self.idxsort(), z3.BoolSort())))})

    def fields_of(self, cls):
        if cls == "NTL::Vec<NTL::GF2>": return [(cls, "len", "i64"), (cls, "a", "[?]bool")]
        return super().fields_of(cls)

    def has_intrinsic(self, fn):
        q = fn["qn"]
        return q.startswith("NTL::") or q.startswith("std::") or q in ("exit", "abort", "memset", "memcpy")

    def intrinsic(self, fn, this, args, e, st, ctor_type=None):
        q = fn["qn"]
        line = e.get("l", 0)
        m = getattr(self, "in_" + re.sub(r"\W+", "_", q.split("<")[0] if not q.startswith("NTL::Vec<") else q), None)
        if m is not None:
            r = m(fn, this, args, e, st, ctor_type)
            if r is not NotImplemented:
                if not q.startswith("std::"): self.assumed.add("assumed: " + q)
                return r
        if ctor_type and ("std::" in ctor_type) and this is None and not args: return OPAQUE
        if any(s in (fn.get("cls") or "") for s in self.STREAMS) or (fn["ret"].startswith("&R:std::basic_") and any(s in fn["ret"] for s in self.STREAMS)):
            return args[0] if this is None else this
        if q in ("std::setw", "std::setfill", "std::hex", "std::dec"): return OPAQUE
        if ctor_type and ("std::" in ctor_type): return OPAQUE
        if q.startswith("std::") and fn["ret"] in ("R:std::_Setw", "R:std::_Setfill<char>"): return OPAQUE
        return self.intrinsic2(fn, this, args, e, st, ctor_type)

    def intrinsic2(self, fn, this, args, e, st, ctor_type):
        if fn.get("cls") and "std::" in fn["cls"] or fn["qn"].startswith("std::"):
            if fn["ret"].startswith("R:std::basic_string") or fn["ret"].startswith("&R:std::basic_string"): return OPAQUE
        raise Unsupported("external function " + fn["qn"] + " [" + fn["key"] + "]")

    def global_hook(self, d, st, oid):
        if d.get("qn", "").startswith("std::") or "std::" in d["t"]:
            if oid not in st.store: st.store[oid] = OPAQUE
            return LV(oid)
        return None

    # exit(): no return
    def in_exit(self, fn, this, args, e, st, ct): st.dead = True; return None
    def in_abort(self, fn, this, args, e, st, ct): st.dead = True; return None

    def in_memset(self, fn, this, args, e, st, ct):
        p, v, n = args
        if is_conc(v) and v == 0 and isinstance(p, LV):
            q = p if not (p.path and p.path[-1] == 0) else LV(p.oid, p.path[:-1])
            cur = self.read(st, q)
            if isinstance(cur, ArrV) and is_conc(cur.n) and int_ty(cur.et) and is_conc(n) and int(n) * 8 == cur.n * int_ty(cur.et)[1]:
                self.write(st, q, ArrV(cur.et, cur.n, None, {i: 0 for i in range(cur.n)})); return p
        raise Unsupported("memset shape")

    # ---- NTL::Vec<GF2>
    def in_NTL_Vec_NTL_GF2_Vec(self, fn, this, args, e, st, ct):
        if not args: return self.defaults[VECGF2]()
        return NotImplemented
    def in_NTL_Vec_NTL_GF2_SetLength(self, fn, this, args, e, st, ct):
        n = args[0]
        self.safe(st, self.compare("<=", 0, n, "i64"), "SetLength of negative length", e["l"])
        self.write(st, this.sub("len"), n)
    def in_NTL_Vec_NTL_GF2_length(self, fn, this, args, e, st, ct): return self.read(st, this.sub("len"))
    def vec_at(self, st, this, i, line):
        ln = self.read(st, this.sub("len"))
        if is_conc(i) and is_conc(ln): ok = 0 <= i < ln
        else: ok = z3.And(self.tobv(i, "i64") >= 0, self.tobv(i, "i64") < self.tobv(ln, "i64")) if not (is_z3(i) and z3.is_int(i)) else z3.And(i >= 0, i < self.toint(ln, "i64"))
        self.safe(st, ok, "NTL vector index", line)
        return this.sub("a").sub(i)
    def in_NTL_Vec_NTL_GF2_put(self, fn, this, args, e, st, ct):
        lv = self.vec_at(st, this, args[0], e["l"])
        v = args[1]
        if isinstance(v, LV): v = self.read(st, v)
        if is_conc(v): v = bool(int(v) & 1)
        elif z3.is_bool(v): pass
        elif z3.is_bv(v): v = z3.Extract(0, 0, v) == 1
        else: v = (v % 2) == 1
        self.write(st, lv, v)
    def in_NTL_Vec_NTL_GF2_get(self, fn, this, args, e, st, ct):
        return self.read(st, self.vec_at(st, this, args[0], e["l"]))
    def in_NTL_Vec_NTL_GF2_operator_(self, fn, this, args, e, st, ct):
        if len(args) == 1: return self.vec_at(st, this, args[0], e["l"])
        return NotImplemented
    def in_NTL_GF2_GF2(self, fn, this, args, e, st, ct):
        if not args: return False
        v = args[0]
        if isinstance(v, LV): v = self.read(st, v)
        if isinstance(v, LV): v = self.read(st, v)
        if is_conc(v): return bool(int(v) & 1)
        if z3.is_bool(v): return v
        if z3.is_bv(v): return z3.Extract(0, 0, v) == 1
        return (v % 2) == 1
    def gf2of(self, v, st):
        while isinstance(v, LV): v = self.read(st, v)
        if isinstance(v, bool): return v
        if is_conc(v): return bool(int(v) & 1)
        if z3.is_bool(v): return v
        if z3.is_bv(v): return z3.Extract(0, 0, v) == 1
        if v.decl().kind() == z3.Z3_OP_BV2INT: return z3.Extract(0, 0, v.arg(0)) == 1
        if v.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(v.arg(0), self.gf2of(v.arg(1), st), self.gf2of(v.arg(2), st))
        if z3.is_int_value(v): return bool(v.as_long() & 1)
        return (v % 2) == 1
    def in_NTL_ref_GF2_operator_(self, fn, this, args, e, st, ct):
        if fn["n"] != "operator=": return NotImplemented
        self.write(st, this, self.gf2of(args[0], st)); return this
    def in_NTL_GF2_operator_(self, fn, this, args, e, st, ct):
        if fn["n"] != "operator=": return NotImplemented
        self.write(st, this, self.gf2of(args[0], st)); return this
    def gf2val(self, v, st):
        while isinstance(v, LV): v = self.read(st, v)
        return v
    def in_NTL_IsZero(self, fn, this, args, e, st, ct):
        if fn["ps"][0] in (GF2, "&" + GF2, REFGF2):
            v = self.gf2val(args[0], st)
            if is_conc(v): return 0 if v else 1
            return self.ite_t(v, 0, 1, "i64")
        return NotImplemented
    def in_NTL_IsOne(self, fn, this, args, e, st, ct):
        if fn["ps"][0] in (GF2, "&" + GF2, REFGF2):
            v = self.gf2val(args[0], st)
            if is_conc(v): return 1 if v else 0
            return self.ite_t(v, 1, 0, "i64")
        return NotImplemented
    def in_NTL_rep(self, fn, this, args, e, st, ct):
        v = self.gf2val(args[0], st)
        if is_conc(v): return 1 if v else 0
        return self.ite_t(v, 1, 0, "i64")


def finish(eng, rep, *keys):
    rep.take(eng, *keys)


def simple(prog, key, mk, post, pre=None, cls=LibExec, contracts=None, loops=None, name=None, **kw):
    """Task body: verify one function from a fresh state.
    mk(eng, st) -> (args, this, ctxvars); post(eng, st, ret, vars) -> [(label, formula)]"""
    def run(rep):
        p = prog()
        k = p.find(key)
        eng = cls(p, **kw)
        if contracts:
            for c in contracts: eng.contracts[p.find(c.key) if c.key not in p.functions else c.key] = c
        if loops: eng.loopspecs[k] = loops
        st = State()
        args, this, env = mk(eng, st)
        if pre:
            for l, f in pre(eng, st, env): st.assume(f)
        rep.cover("precondition of " + short(k), st.pc)
        con = eng.contracts.pop(k, None) if not kw.get("rec") else None
        old = st.copy(); env["old"] = old
        res, exc = eng.verify(k, args, this, st)
        env["exc"] = exc
        for s, v in res:
            for l, f in post(eng, s, v, env): eng.oblige(s, f, l, "post")
        if not res and not exc: raise Unsupported("no return path")
        rep.take(eng, k)
    return run


def mkobj(eng, st, cls, uninit=False, name="self"):
    """an object of class cls in an arbitrary (or uninitialised) state"""
    t = "R:" + cls
    lv = eng.new_obj(st, eng.uninit(t) if uninit else eng.fresh_rec(cls, name, st), name)
    eng.otype[lv.oid] = t
    return lv


def mkvar(eng, st, t, name="x"):
    v = eng.fresh(t, name, st)
    lv = eng.new_obj(st, v, name); eng.otype[lv.oid] = t
    return lv, v
