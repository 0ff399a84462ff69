"""cppvc execu: evaluation of expressions and statements."""
import z3
from core import *
from core import _NeedType


def lin_divmod(t, L):
    """(t div L, t mod L) of a sum whose non-constant terms are multiples of L"""
    q, c = [], 0
    for a in (t.children() if z3.is_add(t) else [t]):
        if z3.is_int_value(a): c += a.as_long(); continue
        if z3.is_mul(a) and z3.is_int_value(a.arg(0)) and a.arg(0).as_long() % L == 0: q.append(a.arg(0).as_long() // L * (z3.Product(a.children()[1:]) if a.num_args() > 2 else a.arg(1))); continue
        return None
    return z3.Sum(q + [z3.IntVal(c // L)]), c % L


class Out:
    __slots__ = ("kind", "st", "val")
    def __init__(self, kind, st, val=None): self.kind, self.st, self.val = kind, st, val


class Exec(Engine):
    # ------------------------------------------------------------ arithmetic
    def arith(self, st, op, a, b, t, line, tb=None):
        """C binary operation on two values already converted to type t
        (for shifts, b has type tb)."""
        sgn, w = int_ty(t)
        if is_conc(a) and is_conc(b):
            a, b = int(a), int(b)
            if op in ("<<", ">>"):
                if not (0 <= b < w): self.safe(st, False, "shift amount", line); return self.fresh(t)
                r = a << b if op == "<<" else a >> b
                if op == "<<" and sgn and (a < 0 or r >= (1 << w)): self.safe(st, False, "signed shift overflow", line)
                return wrap(r, t)
            if op in ("/", "%"):
                if b == 0: self.safe(st, False, "division by zero", line); return self.fresh(t)
                q = abs(a) // abs(b); q = q if (a < 0) == (b < 0) else -q
                return wrap(q if op == "/" else a - b * q, t)
            r = {"+": a + b, "-": a - b, "*": a * b, "&": a & b, "|": a | b, "^": a ^ b}[op]
            if sgn and wrap(r, t) != r: self.safe(st, False, "signed overflow", line)
            return wrap(r, t)
        ints = [z3.is_int(x) for x in (a, b) if is_z3(x)]
        if op in ("<<", ">>"):
            tb = tb or t
            if is_conc(b):
                if not 0 <= int(b) < w: self.safe(st, False, "shift amount", line); return self.fresh(t)
            else:
                if z3.is_int(b): self.safe(st, z3.And(b >= 0, b < w), "shift amount", line)
                else: self.safe(st, z3.ULT(b, w) if b.size() > 6 else z3.BoolVal(True) if b.size() < 6 and w > (1 << b.size()) - 1 else z3.ULT(b, z3.BitVecVal(w, b.size())), "shift amount", line)
            h = self.shift_hook(st, op, a, b, t, line)
            if h is not None: return h
            av = self.tobv(a, t) if not is_conc(a) or True else a
            if is_conc(b): bv = z3.BitVecVal(int(b), w)
            elif z3.is_int(b): bv = i2bv(b, w)
            else:
                wb = b.size()
                bv = b if wb == w else z3.Extract(w - 1, 0, b) if wb > w else z3.ZeroExt(w - wb, b)
            if op == "<<":
                r = av << bv
                if sgn and self.safety:
                    # C++17: a must be non-negative and a*2^b representable in the unsigned type
                    self.safe(st, z3.And(av >= 0, z3.LShR(r, bv) == av), "signed shift overflow", line)
                return self.back(r, t, a)
            return self.back((av >> bv) if sgn else z3.LShR(av, bv), t, a)
        if any(ints):
            if not sgn and op in ("+", "-", "*") and any(is_z3(x) and z3.is_bv(x) for x in (a, b)):
                return self.arith(st, op, self.tobv(a, t), self.tobv(b, t), t, line)       # modular
            if op in ("&", "|", "^"):
                h = self.intbit_hook(st, op, a, b, t, line)
                if h is not None: return h
                return self.back(self.arith(st, op, self.tobv(a, t), self.tobv(b, t), t, line), t, a)
            a, b = self.toint(a, t), self.toint(b, t)
            if op == "/":
                self.safe(st, b != 0, "division by zero", line)
                return self.int_div(st, a, b, t)
            if op == "%":
                self.safe(st, b != 0, "division by zero", line)
                return self.int_mod(st, a, b, t)
            r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b}[op]()
            if sgn: self.safe(st, self.range_of(r, t), "signed overflow", line)
            else:
                # unsigned: must not wrap in mathematical mode (obligation)
                self.safe(st, self.range_of(r, t), "unsigned wrap (mathematical mode)", line)
            return z3.simplify(r)
        a, b = self.tobv(a, t), self.tobv(b, t)
        if t == "bool":
            return {"&": z3.And, "|": z3.Or, "^": z3.Xor}[op](a != 0, b != 0)
        if op == "+":
            if sgn: self.safe(st, z3.And(z3.BVAddNoOverflow(a, b, True), z3.BVAddNoUnderflow(a, b)), "signed overflow", line)
            return a + b
        if op == "-":
            if sgn: self.safe(st, z3.And(z3.BVSubNoOverflow(a, b), z3.BVSubNoUnderflow(a, b, True)), "signed overflow", line)
            return a - b
        if op == "*":
            if sgn: self.safe(st, z3.And(z3.BVMulNoOverflow(a, b, True), z3.BVMulNoUnderflow(a, b)), "signed overflow", line)
            return a * b
        if op == "&": return a & b
        if op == "|": return a | b
        if op == "^": return a ^ b
        if op in ("/", "%"):
            self.safe(st, b != 0, "division by zero", line)
            h = self.div_hook(st, op, a, b, t, line)
            if h is not None: return h
            if sgn: return a / b if op == "/" else z3.SRem(a, b)
            return z3.UDiv(a, b) if op == "/" else z3.URem(a, b)
        raise Unsupported("operator " + op)

    def back(self, r, t, like):
        if is_z3(like) and z3.is_int(like) and self.repr_int(t): return z3.BV2Int(r, int_ty(t)[0])
        return r

    def shift_hook(self, st, op, a, b, t, line): return None
    def intbit_hook(self, st, op, a, b, t, line): return None
    def div_hook(self, st, op, a, b, t, line): return None

    def int_div(self, st, a, b, t):
        # truncation towards zero; z3 Int div is floor for positive divisor
        return z3.If(a >= 0, a / b, -((-a) / b)) if not z3.is_int_value(z3.simplify(b)) or True else a / b

    def int_mod(self, st, a, b, t):
        return a - b * self.int_div(st, a, b, t)

    def compare(self, op, a, b, t):
        if isinstance(a, LV) or isinstance(b, LV) or a is NULL or b is NULL:
            return self.ptr_cmp(op, a, b)
        if is_conc(a) and is_conc(b):
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        if is_z3(a) and z3.is_bool(a) or is_z3(b) and z3.is_bool(b):
            if op in ("==", "!="):
                r = self.tobool(a) == self.tobool(b)
                r = r if is_z3(r) else z3.BoolVal(r)
                return r if op == "==" else z3.Not(r)
        it = int_ty(t)
        if it is None:
            if is_z3(a) and is_z3(b):
                if op == "==": return a == b
                if op == "!=": return a != b
            raise Unsupported("comparison of type " + t)
        if (is_z3(a) and z3.is_int(a)) or (is_z3(b) and z3.is_int(b)):
            a, b = self.toint(a, t), self.toint(b, t)
            return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        a, b = self.tobv(a, t), self.tobv(b, t)
        if op == "==": return a == b
        if op == "!=": return a != b
        if it[0]: return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
        return {"<": z3.ULT(a, b), ">": z3.UGT(a, b), "<=": z3.ULE(a, b), ">=": z3.UGE(a, b)}[op]

    def ptr_cmp(self, op, a, b):
        if op not in ("==", "!="): raise Unsupported("pointer comparison " + op)
        if isinstance(a, int) and a == 0: a = NULL
        if isinstance(b, int) and b == 0: b = NULL
        if a is NULL and b is NULL: r = True
        elif a is NULL or b is NULL:
            p = b if a is NULL else a
            if isinstance(p, LV) and p.oid.startswith("H:") and len(p.path) == 1:
                r = (p.path[0] == 0)
            elif isinstance(p, (LV, StrLit)): r = False
            elif is_z3(p): r = (p == 0)
            else: raise Unsupported("pointer comparison")
        elif isinstance(a, LV) and isinstance(b, LV):
            if a.oid != b.oid: r = False
            elif self.veq(a, b): r = True
            elif len(a.path) == len(b.path):
                cs = []
                for x, y in zip(a.path, b.path):
                    if isinstance(x, str) or isinstance(y, str):
                        if x != y: return op == "!="
                        continue
                    cs.append(self.idx_term(x) == self.idx_term(y))
                r = z3.And(*cs)
            else: r = False
        else: raise Unsupported("pointer comparison %r %r" % (a, b))
        if isinstance(r, bool): return r if op == "==" else not r
        return r if op == "==" else z3.Not(r)

    def convert(self, st, v, ft, tt, line=0):
        """integral conversion of v from C type ft to tt"""
        if v is UNINIT: return v
        f, t = int_ty(ft), int_ty(tt)
        if f is None or t is None or ft == tt: return v
        if tt == "bool": return self.simp(self.tobool(v, ft))
        if is_conc(v): return wrap(int(v), tt)
        if z3.is_bool(v):
            if self.repr_int(tt): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
            return z3.If(v, z3.BitVecVal(1, t[1]), z3.BitVecVal(0, t[1]))
        if z3.is_int(v):
            # in range (statically or provably by type)?
            if f == t: return v
            if self.widens(f, t): return v
            if f[0] and not t[0] and t[1] >= f[1]:
                # signed -> unsigned of at least the width
                h = self.s2u_hook(st, v, ft, tt, line)
                if h is not None: return h
                return z3.If(v >= 0, v, v + (1 << t[1]))
            h = self.narrow_hook(st, v, ft, tt, line)
            if h is not None: return h
            m = 1 << t[1]
            lo = -(m >> 1) if t[0] else 0
            hi = (m >> 1) - 1 if t[0] else m - 1
            return z3.If(z3.And(v >= lo, v <= hi), v, ((v - lo) % m) + lo)
        # bit-vector
        if t[1] < f[1]: r = z3.Extract(t[1] - 1, 0, v)
        elif t[1] > f[1]: r = z3.SignExt(t[1] - f[1], v) if f[0] else z3.ZeroExt(t[1] - f[1], v)
        else: r = v
        if self.repr_int(tt):
            h = self.bv2int_hook(st, v, ft, tt, line)
            if h is not None: return h
            return z3.BV2Int(r, t[0])
        return r

    def widens(self, f, t): return (t[1] > f[1] and (t[0] or not f[0])) or (t[1] >= f[1] and t[0] == f[0])
    def s2u_hook(self, st, v, ft, tt, line): return None
    def narrow_hook(self, st, v, ft, tt, line): return None
    def bv2int_hook(self, st, v, ft, tt, line): return None

    # ------------------------------------------------------------ expressions
    def ev(self, e, st):
        if "cv" in e and e["k"] not in ("ilist",):
            # integral constant expression, value computed by Clang
            v = int(e["cv"])
            return bool(v) if e["t"] == "bool" else wrap(v, e["t"]) if int_ty(e["t"]) else v
        m = getattr(self, "ev_" + e["k"].lstrip("?"), None)
        if e["k"].startswith("?") or m is None: raise Unsupported("expression " + e["k"])
        return m(e, st)

    def rv(self, e, st):
        """rvalue of a (possibly lvalue) class-type expression"""
        v = self.ev(e, st)
        if isinstance(v, LV) and (e.get("lv") or e["k"] == "tmp"): return self.read(st, v)
        return v

    def ev_int(self, e, st): return bool(int(e["v"])) if e["t"] == "bool" else wrap(int(e["v"]), e["t"])
    def ev_null(self, e, st): return NULL
    def ev_float(self, e, st): return OPAQUE
    def ev_str(self, e, st): return StrLit(e["v"])
    def ev_this(self, e, st): return st.this
    def ev_sizeof(self, e, st): raise Unsupported("sizeof")
    def ev_zeroinit(self, e, st):
        t = e["t"]
        return self.zero_value(t)
    def zero_value(self, t):
        if t == "bool": return False
        if int_ty(t): return 0
        if t.startswith("*"): return NULL
        a = arr_ty(t)
        if a and a[0] not in ("", "?"):
            return ArrV(a[1], int(a[0]), None, {i: self.zero_value(a[1]) for i in range(int(a[0]))})
        if t.startswith("R:"):
            r = self.prog.records.get(t[2:])
            if t in self.defaults: return self.defaults[t]()
            if r and r["union"]: return z3.BitVecVal(0, r["bits"])
            if r: return Rec(t[2:], {fn: self.zero_value(ft) for (_, fn, ft) in self.fields_of(t[2:])})
        raise Unsupported("zero value of " + t)

    def ev_tmp(self, e, st):
        inner = e["e"]
        v = self.ev(inner, st)
        if isinstance(v, LV) and inner["t"].startswith("R:") and not self.is_ptrlike(inner["t"]): return v
        lv = self.new_obj(st, v, "tmp"); self.otype[lv.oid] = e["t"]
        return lv

    def is_ptrlike(self, t): return t in self.ptr_enc

    def ev_ref(self, e, st):
        d = e["d"]
        if d["dk"] == "fn": return FnVal(d["fn"])
        if d["dk"] == "enum": raise Unsupported("enum without value")
        if d["dk"] == "slocal" and d["id"] in st.env and str(st.env[d["id"]][1].oid).startswith("S:") and not d.get("const"): return st.env[d["id"]][1]
        if d["dk"] in ("global", "slocal"): return self.global_lv(d, st)
        if d["id"] not in st.env: raise Unsupported("variable %s not in scope" % d["n"])
        return st.env[d["id"]][1]

    def global_lv(self, d, st):
        oid = "G:%s:%s" % (d["id"], d.get("qn", d["n"]))
        hook = self.global_hook(d, st, oid)
        if hook is not None: return hook
        if oid not in st.store:
            g = self.prog.globals.get(str(d["id"]), {})
            self.otype[oid] = g.get("t", d["t"])
            if g.get("const") and "init" in g:
                st.store[oid] = self.init_value(g["t"], g["init"], st)
            elif g.get("t", d["t"]).startswith("R:") and g.get("t", d["t"])[2:] not in self.prog.records:
                st.store[oid] = OPAQUE
            else: raise Unsupported("mutable or external global " + d.get("qn", d["n"]))
        return LV(oid)

    def global_hook(self, d, st, oid): return None

    def ev_mem(self, e, st):
        b = e["b"]
        base = self.ev(b, st)
        if not e["arrow"] and not b.get("lv") and not isinstance(base, LV):
            # member of an rvalue record
            return self.get_path(base, (e["f"],), st)
        base = self.deref(st, base, e["l"])
        return base.sub(e["f"])

    def deref(self, st, p, line):
        if p is UNINIT:
            self.safe(st, False, "uninitialised pointer", line); raise Unsupported("uninitialised pointer")
        if p is NULL:
            self.safe(st, False, "null dereference", line); raise Unsupported("null dereference")
        if isinstance(p, LV):
            return p
        raise Unsupported("dereference of %r" % (p,))

    def ev_idx(self, e, st):
        a = self.ev(e["a"], st)
        i = self.ev(e["b"], st)
        if not isinstance(a, LV):
            if isinstance(i, LV): a, i = i, a
            elif isinstance(a, StrLit) and is_conc(i):
                s = a.s.encode("latin1", "replace") + b"\0"
                if not 0 <= i < len(s): self.safe(st, False, "index", e["l"]); raise Unsupported("index")
                lv = self.new_obj(st, wrap(s[i], "i8"), "chr"); self.otype[lv.oid] = "i8"; return lv
            else: raise Unsupported("subscript of %r" % (a,))
        return self.ptr_add(st, a, i, e["l"], e["b"]["t"], access=True)

    def ptr_add(self, st, p, i, line, it="i32", access=False):
        """p points into an array (path ends with an index); p + i"""
        p = self.deref(st, p, line)
        if p.oid.startswith("H:") and len(p.path) == 1: raise Unsupported("arithmetic on object pointer")
        base = p.path[-1] if p.path and not isinstance(p.path[-1], str) else None
        if base is None:
            if is_conc(i) and int(i) == 0: return p
            raise Unsupported("pointer arithmetic on non-array")
        if is_conc(base) and is_conc(i): n = int(base) + int(i)
        elif is_conc(base) and int(base) == 0: n = i
        else: n = self.idx_term(base) + self.idx_term(self.ext_idx(i, it))
        arr = self.read(st, LV(p.oid, p.path[:-1]))
        flat = self.flat_walk(st, p, n, arr, line, access)
        if flat is not None: return flat
        ln = arr.n if isinstance(arr, ArrV) else self.soa_len(arr) if isinstance(arr, Rec) else None
        if ln is not None and access:
            if is_conc(n) and is_conc(ln):
                if not 0 <= n < ln: self.safe(st, False, "array index", line); raise Unsupported("concrete index %s out of bounds %s" % (n, ln))
            elif is_conc(base) and int(base) == 0 and is_z3(i) and z3.is_bv(i):
                # check on the full-width index value
                w = i.size(); l2 = z3.BitVecVal(ln, w) if is_conc(ln) else self.tow(ln, w)
                if not (is_conc(ln) and ln >= (1 << w)):
                    self.safe(st, z3.ULT(i, l2), "array index", line)
            else:
                nt, lt = self.idx_term(n), self.idx_term(ln)
                self.safe(st, z3.And(nt >= 0, nt < lt) if self.idx == "int" else z3.ULT(nt, lt), "array index", line)
        return LV(p.oid, p.path[:-1] + (n,))

    def flat_walk(self, st, p, n, arr, line, access):
        """a pointer to a lane of one element of an array of SIMD words walks over the lanes of the whole
        array (the words are contiguous): lane n of word j is lane n mod L of word j + n div L"""
        if self.idx != "int" or len(p.path) < 3 or p.path[-2] not in self.UNION or isinstance(p.path[-3], str) or not isinstance(arr, ArrV) or not is_conc(arr.n): return None
        L = int(arr.n)
        if is_conc(n) and 0 <= int(n) < L: return None
        outer = self.read(st, LV(p.oid, p.path[:-3]))
        if not isinstance(outer, ArrV): return None
        nt = z3.simplify(self.idx_term(n), som=True); q = lin_divmod(nt, L)
        dq, r = q if q else (nt / L, nt % L)
        j = z3.simplify(self.idx_term(p.path[-3]) + dq)
        if access: self.safe(st, z3.And(nt >= 0, j >= 0, j < self.idx_term(outer.n)), "array index", line)
        return LV(p.oid, p.path[:-3] + (j, p.path[-2], r))

    def tow(self, v, w):
        if z3.is_int(v): return i2bv(v, w)
        if v.size() == w: return v
        return z3.ZeroExt(w - v.size(), v) if v.size() < w else z3.Extract(w - 1, 0, v)

    def soa_len(self, r):
        for v in r.f.values():
            return v.n if isinstance(v, ArrV) else self.soa_len(v)

    def ext_idx(self, i, t):
        """widen an index of C type t to the index sort"""
        if is_conc(i) or z3.is_int(i): return i
        it = int_ty(t)
        if it and i.size() < 32: return z3.SignExt(32 - i.size(), i) if it[0] else z3.ZeroExt(32 - i.size(), i)
        return i

    def ev_un(self, e, st):
        op = e["op"]
        if op == "*":
            p = self.ev(e["e"], st)
            if isinstance(p, StrLit):
                lv = self.new_obj(st, wrap((p.s.encode("latin1") + b"\0")[0], "i8"), "chr"); self.otype[lv.oid] = "i8"; return lv
            return self.deref(st, p, e["l"])
        if op == "&":
            lv = self.ev(e["e"], st)
            return lv
        if op in ("++", "--", "post++", "post--"):
            lv = self.ev(e["e"], st)
            t = e["e"]["t"]
            old = self.load(st, lv, t, e["l"])
            if t.startswith("*"):
                if isinstance(old, StrLit): new = StrLit(old.s[1:])
                else: new = self.ptr_add(st, old, 1 if "+" in op else -1, e["l"])
            else:
                # arithmetic promotion: narrow types wrap on conversion back
                pt = t if int_ty(t)[1] >= 32 else "i32"
                new = self.convert(st, self.arith(st, op[-1], self.convert(st, old, t, pt), 1, pt, e["l"]), pt, t)
            self.write(st, lv, new)
            return old if op.startswith("post") else lv
        v = self.ev(e["e"], st)
        t = e["t"]
        if op == "!":
            b = self.tobool(v, e["e"]["t"])
            return (not b) if isinstance(b, bool) else z3.Not(b)
        if op == "+": return v
        if op == "-":
            return self.arith(st, "-", 0, v, t, e["l"])
        if op == "~":
            if is_conc(v): return wrap(~int(v), t)
            return ~self.tobv(v, t)
        if op == "__extension__": return v
        raise Unsupported("unary " + op)

    def load(self, st, lv, t, line):
        v = self.read(st, lv)
        if v is UNINIT:
            self.safe(st, False, "read of uninitialised value", line)
            v = self.fresh(t, "uninit", st)
        return v

    def ev_bin(self, e, st):
        a = self.ev(e["a"], st); b = self.ev(e["b"], st)
        op, ta, tb = e["op"], e["a"]["t"], e["b"]["t"]
        if op in ("<", ">", "<=", ">=", "==", "!="):
            if isinstance(a, Opaque) or isinstance(b, Opaque): return z3.Bool(fresh_name("opaque"))
            return self.compare(op, a, b, ta)
        if ta.startswith("*") or tb.startswith("*"):
            if op == "+":
                if isinstance(a, StrLit) and is_conc(b): return StrLit(a.s[int(b):])
                return self.ptr_add(st, a, b, e["l"], tb) if ta.startswith("*") else self.ptr_add(st, b, a, e["l"], ta)
            if op == "-" and not tb.startswith("*"):
                return self.ptr_add(st, a, -b, e["l"], tb)
            raise Unsupported("pointer " + op)
        if isinstance(a, Opaque) or isinstance(b, Opaque): return OPAQUE
        return self.arith(st, op, a, b, e["t"], e["l"], tb)

    def ev_comma(self, e, st):
        self.ev(e["a"], st); return self.ev(e["b"], st)

    def ev_land(self, e, st): return self.shortcircuit(e, st, True)
    def ev_lor(self, e, st): return self.shortcircuit(e, st, False)

    def shortcircuit(self, e, st, isand):
        a = self.simp(self.tobool(self.ev(e["a"], st), e["a"]["t"]))
        if isinstance(a, bool):
            if a != isand: return a
            return self.tobool(self.ev(e["b"], st), e["b"]["t"])
        g = a if isand else z3.Not(a)
        s2 = st.copy(); s2.pc.append(g)
        b = self.tobool(self.ev(e["b"], s2), e["b"]["t"])
        if s2.dead:
            st.pc.append(z3.Not(g)); return not isand
        changed = len(s2.pc) > len(st.pc) + 1 or any(s2.store.get(k) is not v for k, v in st.store.items()) or len(s2.schemas) != len(st.schemas)
        if changed:
            s1 = st.copy(); s1.pc.append(z3.Not(g))
            m = self.merge(s2, s1)
            if m is None: raise Unsupported("merge in short circuit")
            m.this, m.fn = st.this, st.fn
            env = st.env; st.assign(m); st.env = env
        else:
            for k in s2.store:
                if k not in st.store: st.store[k] = s2.store[k]
        bz = b if is_z3(b) else z3.BoolVal(b)
        return z3.And(a, bz) if isand else z3.Or(a, bz)

    def ev_cond(self, e, st, rv=None):
        """rv: the type, when the selected object is only read (the value is merged, not the place)"""
        c = self.simp(self.tobool(self.ev(e["c"], st), e["c"]["t"]))
        if isinstance(c, bool): return self.ev(e["a"] if c else e["b"], st)
        s1 = st.copy(); s1.pc.append(c)
        s2 = st.copy(); s2.pc.append(z3.Not(c))
        a = self.ev(e["a"], s1); b = self.ev(e["b"], s2)
        if rv and not s1.dead and not s2.dead and isinstance(a, LV) and isinstance(b, LV) and not (a.oid == b.oid and a.path == b.path):
            x, y = self.load(s1, a, rv, e["l"]), self.load(s2, b, rv, e["l"])
            if not isinstance(x, LV) and not isinstance(y, LV): a, b = x, y; e = dict(e, lv=False, t=rv)
        if s1.dead: st.assign(s2); return b
        if s2.dead: st.assign(s1); return a
        m = self.merge(s1, s2)
        if m is None: raise Unsupported("merge in ?:")
        env, th, fn = st.env, st.this, st.fn
        st.assign(m); st.env, st.this, st.fn = env, th, fn
        if isinstance(a, StrLit) or isinstance(b, StrLit): return OPAQUE
        return self.ite_t(c, a, b, e["t"] if not e.get("lv") else None)

    def ev_asg(self, e, st):
        # C++17: right operand first
        v = self.ev(e["b"], st)
        lv = self.ev(e["a"], st)
        if e["b"].get("lv") and isinstance(v, LV): v = self.read(st, v)
        if v is UNINIT and int_ty(e["a"]["t"]):
            self.safe(st, False, "read of uninitialised value", e["l"])
        self.write(st, lv, v)
        return lv

    def ev_casg(self, e, st):
        b = self.ev(e["b"], st)
        lv = self.ev(e["a"], st)
        t = e["a"]["t"]
        old = self.load(st, lv, t, e["l"])
        if t.startswith("*"):
            self.write(st, lv, self.ptr_add(st, old, b if e["op"] == "+" else -b, e["l"], e["b"]["t"])); return lv
        ct = e["lt"]
        r = self.arith(st, e["op"], self.convert(st, old, t, ct), b, e["rt"], e["l"], e["b"]["t"])
        self.write(st, lv, self.convert(st, r, e["rt"], t))
        return lv

    def ev_cast(self, e, st):
        ck, s = e["ck"], e["e"]
        t = e["t"]
        v = self.ev_cond(s, st, t) if ck == "LValueToRValue" and s.get("k") == "cond" and int_ty(t) else self.ev(s, st)
        if ck == "LValueToRValue":
            if s["t"].startswith("R:") and not isinstance(v, LV): return v
            if isinstance(v, LV):
                if not int_ty(t): 
                    r = self.read(st, v)
                    return r
                return self.load(st, v, t, e["l"])
            return v
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "FunctionToPointerDecay", "BitCast", "BuiltinFnToFnPtr"):
            if ck == "BitCast" and isinstance(v, LV): return self.bitcast(st, v, s["t"], t, e["l"])
            return v
        if ck == "Dynamic": return self.dynamic_cast(st, v, s["t"], t, e["l"])
        if ck == "IntegralCast": return self.convert(st, v, s["t"], t, e["l"])
        if ck == "IntegralToBoolean": return self.simp(self.tobool(v, s["t"]))
        if ck == "PointerToBoolean": return self.simp(self.tobool(v, s["t"]))
        if ck == "BooleanToSignedIntegral": return self.convert(st, v, s["t"], t)
        if ck == "ArrayToPointerDecay":
            if isinstance(v, StrLit): return v
            if isinstance(v, LV): return v.sub(0)
            raise Unsupported("decay of %r" % (v,))
        if ck == "NullToPointer": return NULL
        if ck == "ToVoid": return None
        if ck in ("IntegralToFloating", "FloatingCast", "FloatingToIntegral", "FloatingToBoolean"): return OPAQUE
        raise Unsupported("cast " + ck)

    def bitcast(self, st, v, ft, tt, line):
        if tt == "*void": return v
        raise Unsupported("pointer cast %s to %s" % (ft, tt))

    def dynamic_cast(self, st, v, ft, tt, line):
        """succeeds: the dynamic type is known to be the target class"""
        if isinstance(v, LV):
            c = self.dyn_class(st, v)
            tgt = tt.lstrip("*&")[2:]
            if c is None: raise Unsupported("dynamic_cast of unknown class")
            if c == tgt or tgt in self.prog.bases(c): return v
            if tt.startswith("*"): return NULL
        raise Unsupported("dynamic_cast")

    def dyn_class(self, st, lv):
        if lv.oid.startswith("H:") and len(lv.path) == 1: return lv.oid[2:]
        try: v = self.read(st, lv)
        except Unsupported: return None
        if isinstance(v, Rec): return v.cls
        return None

    # -------------------------------------------------------------- new etc.
    def ev_new(self, e, st):
        t = e["at"]
        if e["arr"]:
            n = self.ev(e["n"], st)
            if is_z3(n): n = z3.simplify(n)
            if is_z3(n) and z3.is_bv_value(n): n = n.as_long()
            es = self.elem_sort(t)
            a = ArrV(t, n, None, {})
            if not is_conc(n) or es is not None and n > 4096:
                a = self.fresh_array(t, n, "new", st)
            elif t.startswith("R:"):
                over = {}
                for i in range(n):
                    over[i] = self.construct_default(t, st, e)
                a = ArrV(t, n, None, over)
            lv = self.new_obj(st, a, "heap"); self.otype[lv.oid] = "[]" + t
            return lv.sub(0)
        init = e.get("init")
        if t.startswith("R:") and self.is_heap(t[2:]):
            self.init_heap(st, t[2:])
            return self.heap_alloc(st, t[2:], init, e)
        lv = self.new_obj(st, self.uninit(t), "heap"); self.otype[lv.oid] = t
        if init is not None: self.init_into(lv, t, init, st)
        return lv

    def heap_alloc(self, st, cls, init, e):
        ref = z3.Int(fresh_name("new." + cls.split("::")[-1]))
        al = st.ghost.get("alloc:" + cls)
        if al is None:
            al = z3.Int("alloc0." + cls); st.ghost["alloc:" + cls] = al
            st.assume(al > 0)
        st.assume(ref == al)
        st.ghost["alloc:" + cls] = al + 1
        lv = LV("H:" + cls, (ref,))
        if init is not None: self.init_into(lv, "R:" + cls, init, st)
        return lv

    def construct_default(self, t, st, e):
        v = self.uninit(t)
        return v

    def ev_del(self, e, st):
        v = self.ev(e["e"], st)
        self.on_delete(st, v, e)
        return None

    def on_delete(self, st, v, e): pass

    def ev_throw(self, e, st):
        self.exc.append((st.copy(), e.get("et", "void")))
        st.dead = True
        return None

    def ev_ilist(self, e, st):
        return self.ilist_value(e["t"], e, st)

    def ilist_value(self, t, e, st):
        a = arr_ty(t)
        if a:
            n = int(a[0])
            over = {}
            for i, x in enumerate(e["args"]): over[i] = self.init_value(a[1], x, st)
            for i in range(len(e["args"]), n): over[i] = self.zero_value(a[1])
            return ArrV(a[1], n, None, over)
        if t.startswith("R:"):
            r = self.prog.records.get(t[2:])
            if r is None: return OPAQUE
            if r["union"]: 
                if len(e["args"]) == 1:
                    sub = self.init_value(r["fields"][0]["t"], e["args"][0], st)
                    v = z3.BitVecVal(0, r["bits"])
                    for i, x in sub.over.items(): v = self.union_set(v, r["fields"][0]["n"], (i,), self.tobv(x, sub.et) if int_ty(sub.et) else x)
                    return z3.simplify(v)
                return z3.BitVecVal(0, r["bits"])
            f = {}
            fs = self.fields_of(t[2:])
            for i, (_, fn, ft) in enumerate(fs):
                f[fn] = self.init_value(ft, e["args"][i], st) if i < len(e["args"]) else self.zero_value(ft)
            return Rec(t[2:], f)
        if len(e["args"]) == 1: return self.ev(e["args"][0], st)
        if not e["args"]: return self.zero_value(t)
        raise Unsupported("initialiser list")

    def init_value(self, t, e, st):
        """value for initialising an object of type t from expression e"""
        if e["k"] == "ilist": return self.ilist_value(t, e, st)
        if e["k"] == "zeroinit": return self.zero_value(t)
        if e["k"] == "ctor":
            lv = self.new_obj(st, self.uninit(t), "init"); self.otype[lv.oid] = t
            self.init_into(lv, t, e, st)
            return self.read(st, lv)
        if e["k"] == "str" and arr_ty(t):
            a = arr_ty(t); s = e["v"].encode("latin1", "replace") + b"\0"
            return ArrV(a[1], int(a[0]), None, {i: wrap(s[i], "i8") if i < len(s) else 0 for i in range(int(a[0]))})
        v = self.ev(e, st)
        if isinstance(v, LV) and e.get("lv") and not t.startswith("*") and not t.startswith("&"): v = self.read(st, v)
        return v

    def init_into(self, lv, t, e, st):
        """initialise the object at lv (type t) with e"""
        if e["k"] == "tmp": e2 = e["e"]
        else: e2 = e
        if e2["k"] == "ctor":
            return self.construct(lv, t, e2, st)
        if e2["k"] in ("cast",) and e2["ck"] == "NoOp" and e2["e"]["k"] == "ctor":
            return self.construct(lv, t, e2["e"], st)
        v = self.init_value(t, e2, st)
        if v is UNINIT and int_ty(t): self.safe(st, False, "read of uninitialised value", e["l"])
        self.write(st, lv, v)

    def construct(self, lv, t, e, st):
        fn = e["fn"]
        a = arr_ty(t)
        if a:   # array of class objects, default constructed
            v = self.read(st, lv)
            if a[0] in ("", "?"): return
            n = int(a[0]); et = a[1]
            for i in range(n):
                el = lv.sub(i)
                self.write(st, el, self.uninit(et))
                self.construct(el, et, e, st)
            return
        cls = t[2:]
        if t in self.absty or t in self.ptr_enc or cls not in self.prog.records:
            args = [self.ev(x, st) for x in e["args"]]
            r = self.intrinsic(fn, None, args, e, st, ctor_type=t)
            if st.dead: return
            self.write(st, lv, r)
            return
        if fn["key"] not in self.prog.functions and (fn.get("defaulted") or fn.get("implicit")):
            if fn.get("copy"):
                src = self.ev(e["args"][0], st)
                v = self.read(st, src) if isinstance(src, LV) else src
                self.write(st, lv, v); return
            if not fn["ps"]:
                if e.get("zeroinit"): self.write(st, lv, self.zero_value(t))
                return
        if fn.get("copy") and (fn.get("defaulted") or fn.get("implicit")) and cls not in self.contracts:
            src = self.ev(e["args"][0], st)
            v = self.read(st, src) if isinstance(src, LV) else src
            if isinstance(v, Rec): v = Rec(cls, {k: v.f[k] for (_, k, _) in self.fields_of(cls)}) if cls != v.cls and not self.is_heap(cls) else v
            self.write(st, lv, v); return
        if e.get("zeroinit"): self.write(st, lv, self.zero_value(t))
        args = self.eval_args(fn, e["args"], st)
        self.call_fn(fn, lv, args, st, e["l"])

    def ev_ctor(self, e, st):
        t = e["t"]
        lv = self.new_obj(st, self.uninit(t), "obj"); self.otype[lv.oid] = t
        self.construct(lv, t, e, st)
        if st.dead: return UNINIT
        return self.read(st, lv)

    # ------------------------------------------------------------------ calls
    def eval_args(self, fn, args, st):
        out = []
        for i, a in enumerate(args):
            v = self.ev(a, st)
            pt = fn["ps"][i] if i < len(fn["ps"]) else None
            if pt is not None and not pt.startswith("&") and not pt.startswith("*"):
                if isinstance(v, LV) and a.get("lv"): v = self.read(st, v)
            if pt is not None and pt.startswith("&") and not isinstance(v, LV):
                lv = self.new_obj(st, v, "tmp"); self.otype[lv.oid] = pt[1:]; v = lv
            out.append(v)
        return out

    def ev_call(self, e, st):
        fn = e.get("fn")
        if fn is None: raise Unsupported("indirect call")
        if fn["n"] in ("__builtin_expect",): return self.ev(e["args"][0], st)
        args = self.eval_args(fn, e["args"], st)
        if st.dead: return UNINIT
        return self.call_fn(fn, None, args, st, e["l"], e)

    def ev_mcall(self, e, st):
        fn = e["fn"]
        ob = self.ev(e["ob"], st)
        if e["obptr"]: ob = self.deref(st, ob, e["l"])
        elif not isinstance(ob, LV):
            ob0 = ob
            ob = self.new_obj(st, ob0, "tmpobj"); self.otype[ob.oid] = e["ob"]["t"]
        args = self.eval_args(fn, e["args"], st)
        if st.dead: return UNINIT
        return self.call_fn(fn, ob, args, st, e["l"], e, virt=fn.get("virt") and not e.get("qual"))

    def ev_memfn(self, e, st): raise Unsupported("member function value")

    def ev_opcall(self, e, st):
        fn = e.get("fn")
        if fn is None: raise Unsupported("operator call")
        if fn.get("cls"):
            ob = self.ev(e["args"][0], st)
            if not isinstance(ob, LV):
                o = self.new_obj(st, ob, "tmpobj"); self.otype[o.oid] = e["args"][0]["t"]; ob = o
            args = self.eval_args(fn, e["args"][1:], st)
            if st.dead: return UNINIT
            return self.call_fn(fn, ob, args, st, e["l"], e, virt=fn.get("virt"))
        args = self.eval_args(fn, e["args"], st)
        if st.dead: return UNINIT
        return self.call_fn(fn, None, args, st, e["l"], e)

    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        key = fn["key"]
        if virt and this is not None:
            c = self.dyn_class(st, this)
            if c is not None:
                k2, m = self.prog.resolve_virtual(c, key)
                key = k2
        con = self.contracts.get(key)
        if con is not None: return self.apply_contract(con, key, fn, this, args, st, line)
        if key in self.intr or fn["qn"] in self.intr or self.has_intrinsic(fn):
            return self.intrinsic(fn, this, args, e or {"l": line, "t": fn["ret"]}, st)
        f = self.prog.functions.get(key)
        if f is None:
            if fn.get("assign") and this is not None and fn.get("defaulted"):
                src = args[0]; self.write(st, this, self.read(st, src) if isinstance(src, LV) else src)
                return this
            return self.intrinsic(fn, this, args, e or {"l": line, "t": fn["ret"]}, st)
        if fn.get("assign") and fn.get("defaulted"):
            src = args[0]; self.write(st, this, self.read(st, src) if isinstance(src, LV) else src)
            return this
        return self.inline(key, f, this, args, st, line)

    def has_intrinsic(self, fn): return False

    def intrinsic(self, fn, this, args, e, st, ctor_type=None):
        raise Unsupported("external function " + fn["qn"])

    def bind_params(self, f, args, st):
        env = {}
        for i, p in enumerate(f["params"]):
            if i >= len(args):
                if "init" in p:
                    a = self.ev(p["init"], st)
                    if not p["t"].startswith("&") and isinstance(a, LV) and not p["t"].startswith("*"): a = self.read(st, a)
                    args = list(args) + [a]
                else: raise Unsupported("missing argument")
            if p["t"].startswith("&"):
                a = args[i]
                if not isinstance(a, LV):
                    lv = self.new_obj(st, a, "tmp"); self.otype[lv.oid] = p["t"][1:]; a = lv
                env[p["id"]] = (p["n"], a)
            else:
                lv = self.new_obj(st, args[i], p["n"] or "arg"); self.otype[lv.oid] = p["t"]
                env[p["id"]] = (p["n"], lv)
        return env

    def inline(self, key, f, this, args, st, line):
        if self.call_depth > 40: raise Unsupported("recursion too deep: " + key)
        self.call_depth += 1
        self.inlined.add(key)
        try:
            outs = self.run_body(key, f, this, args, st)
        finally: self.call_depth -= 1
        rets = [o for o in outs if o.kind in ("ret", "norm")]
        if not rets:
            st.dead = True; return UNINIT
        env, th, fnn = st.env, st.this, st.fn
        RV = "RET:" + fresh_name("r")
        self.otype[RV] = f["ret"]
        sts = []
        for o in rets:
            if o.st.dead: continue
            o.st.store[RV] = o.val if o.kind == "ret" and o.val is not None else UNINIT
            sts.append(o.st)
        m = self.merge_all(sts)
        if not m: st.dead = True; return UNINIT
        if len(m) > 1: raise Unsupported("unmergeable returns of " + key)
        v = m[0].store.pop(RV)
        st.assign(m[0]); st.env, st.this, st.fn = env, th, fnn
        return v

    def run_body(self, key, f, this, args, st0):
        """execute function body; returns outcomes; thrown states go to self.exc"""
        st = st0.copy()
        st.env = {}
        st.this, st.fn = this, key
        st.env = self.bind_params(f, args, st)
        if f.get("inits") is not None:
            for i in f["inits"]:
                if i.get("delegate"): self.construct(this, "R:" + f["cls"], i["e"], st); continue
                if "base" in i:
                    b = i["base"][2:]
                    if i["e"]["k"] == "ctor" and i["e"]["fn"]["key"] in self.prog.functions and self.prog.functions[i["e"]["fn"]["key"]].get("inits") is not None:
                        bf = i["e"]["fn"]
                        if bf.get("copy") and bf.get("defaulted"): 
                            continue
                        a = self.eval_args(bf, i["e"]["args"], st)
                        self.call_fn(bf, this, a, st, f["line"])
                    elif i["e"]["k"] == "ctor" and self.prog.records.get(b, {}).get("fields"):
                        if not i["e"]["fn"].get("implicit") and not i["e"]["fn"].get("defaulted"): raise Unsupported("base constructor " + b)
                    continue
                fn = i["f"]
                ft = dict((n, t) for (_, n, t) in self.fields_of(f["cls"])).get(fn)
                if ft is None: raise Unsupported("initialiser for " + fn)
                self.init_into(this.sub(fn), ft, i["e"], st)
        outs = self.exec(f["body"], st)
        return outs

    def apply_contract(self, con, key, fn, this, args, st, line):
        self.used_contracts.add(con.key)
        if con.trusted: self.assumed.add(con.key)
        old = st.copy()
        params = {}
        ps = self.prog.functions.get(key, {}).get("params")
        for i, a in enumerate(args):
            params[i] = a
            if ps and i < len(ps): params[ps[i]["n"]] = a
        if ps:
            for i in range(len(args), len(ps)):
                if "init" in ps[i]: params[i] = params[ps[i]["n"]] = self.ev(ps[i]["init"], st)
        ctx = Ctx(self, st, params, this, old, None, fkey=key)
        ctx.line = line
        if con.requires:
            for lab, g in con.requires(ctx):
                self.oblige(st, g, "precondition of %s: %s@%d" % (short(key), lab, line), "pre", line)
        if con.apply:
            return con.apply(ctx, con)
        if con.assigns: con.assigns(ctx)
        res = None
        if con.result: res = con.result(ctx)
        elif fn["ret"] != "void": res = self.fresh(fn["ret"], "ret." + fn["n"], st)
        ctx.result = res
        if con.ensures:
            for lab, g in con.ensures(ctx): st.assume(g)
        return res

    # ------------------------------------------------------------- statements
    def exec(self, s, st):
        if st.dead: return []
        if s is None: return [Out("norm", st)]
        k = s["k"]
        m = getattr(self, "x_" + k.lstrip("?"), None)
        if k.startswith("?") or m is None: raise Unsupported("statement " + k)
        return m(s, st)

    def x_null(self, s, st): return [Out("norm", st)]
    def x_expr(self, s, st):
        self.ev(s["e"], st)
        return [] if st.dead else [Out("norm", st)]

    def x_block(self, s, st):
        sts = [st]; outs = []
        for c in s["b"]:
            nxt = []
            for x in sts:
                for o in self.exec(c, x):
                    if o.kind == "norm": nxt.append(o.st)
                    else: outs.append(o)
            sts = self.merge_all(nxt) if len(nxt) > 1 else nxt
            if not sts: break
        return outs + [Out("norm", x) for x in sts]

    def x_decl(self, s, st):
        for v in s["v"]: self.declare(v, st)
        return [] if st.dead else [Out("norm", st)]

    def declare(self, v, st):
        t = v["t"]
        if v["static"]:
            # static local: constant initialised value
            st.env[v["id"]] = (v["n"], self.static_local(v, st)); return
        if t.startswith("&"):
            lv = self.ev(v["init"], st)
            if not isinstance(lv, LV):
                x = self.new_obj(st, lv, v["n"]); self.otype[x.oid] = t[1:]; lv = x
            st.env[v["id"]] = (v["n"], lv); return
        val = self.uninit(t)
        if "vla" in v:
            n = self.ev(v["vla"], st)
            et = arr_ty(t)[1]
            if is_conc(n): val = ArrV(et, int(n), None, {})
            elif self.elem_sort(et) is not None: val = self.fresh_array(et, n, v["n"], st)
            elif et.startswith("R:"):
                val = self.fresh_soa(et[2:], n, v["n"], st)
            else: raise Unsupported("variable length array of " + et)
        lv = self.new_obj(st, val, v["n"]); self.otype[lv.oid] = t
        st.env[v["id"]] = (v["n"], lv)
        if "init" in v and "vla" not in v:
            self.init_into(lv, t, v["init"], st)

    def static_local(self, v, st):
        oid = "S:%s:%s" % (v["id"], v["n"])
        if oid not in st.store:
            g = self.prog.globals.get(str(v["id"]))
            if not g or not g.get("const"):        # any earlier call may have left any value: the contract must hold for all of them
                st.store[oid] = self.fresh(v["t"], v["n"], st); self.otype[oid] = v["t"]; self.assumed.add("static local %s: arbitrary value at the first use (a signed counter: below 2^30 in size; not changed by functions called through their contracts)" % v["n"])
                it = int_ty(v["t"]); x = st.store[oid]
                if it and it[0] and it[1] >= 32:
                    b = 1 << 30; st.assume(z3.And(x >= -b, x <= b))
                return LV(oid)
            self.otype[oid] = v["t"]
            st.store[oid] = self.uninit(v["t"])
            self.init_into(LV(oid), v["t"], v["init"], st)
        return LV(oid)

    def ev_ref_slocal(self, d, st): pass

    def x_ret(self, s, st):
        v = None
        if s["e"] is not None:
            v = self.ev(s["e"], st)
            f = self.prog.functions.get(st.fn)
            if f and not f["ret"].startswith("&") and not f["ret"].startswith("*") and isinstance(v, LV) and (s["e"].get("lv") or s["e"]["k"] == "tmp") and f["ret"] not in self.ptr_enc: v = self.read(st, v)
        return [] if st.dead else [Out("ret", st, v)]

    def x_break(self, s, st): return [Out("break", st)]
    def x_continue(self, s, st): return [Out("continue", st)]

    def x_if(self, s, st):
        if "init" in s or "cv" in s: raise Unsupported("if with initialiser")
        c = self.simp(self.tobool(self.ev(s["c"], st), s["c"]["t"]))
        if st.dead: return []
        if isinstance(c, bool): return self.exec(s["a"] if c else s["b"], st)
        if not self.feasible(st, c):
            st.pc.append(z3.Not(c)); return self.exec(s["b"], st)
        nc = z3.Not(c)
        if not self.feasible(st, nc):
            st.pc.append(c); return self.exec(s["a"], st)
        s1, s2 = st.copy(), st
        s1.pc.append(c); s2.pc.append(nc)
        o1 = self.exec(s["a"], s1); o2 = self.exec(s["b"], s2)
        norm = self.merge_all([o.st for o in o1 + o2 if o.kind == "norm"])
        return [o for o in o1 + o2 if o.kind != "norm"] + [Out("norm", x) for x in norm]

    def x_switch(self, s, st):
        v = self.ev(s["c"], st); t = s["c"]["t"]
        # flatten: list of (labels, stmt)
        items = []
        def flat(x):
            if x["k"] == "case": items.append(("case", x["v"])); flat(x["b"])
            elif x["k"] == "default": items.append(("default", None)); flat(x["b"])
            else: items.append(("stmt", x))
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        for x in body: flat(x)
        cases = [self.ev(x, st) for k, x in items if k == "case"]
        outs, norm = [], []
        def run_from(i, x):
            sts = [x]
            for k, y in items[i:]:
                if k != "stmt": continue
                nx = []
                for z in sts:
                    for o in self.exec(y, z):
                        if o.kind == "norm": nx.append(o.st)
                        elif o.kind == "break": norm.append(o.st)
                        else: outs.append(o)
                sts = self.merge_all(nx)
                if not sts: break
            norm.extend(sts)
        conds = [self.simp(self.compare("==", v, c, t)) for c in cases]
        ci = 0
        # group labels with the same continuation
        groups, cur = [], []
        for i, (k, x) in enumerate(items):
            if k == "stmt":
                if cur: groups.append((i, cur)); cur = []
            elif k == "case": cur.append(conds[ci]); ci += 1
            else: cur.append("default")
        if cur: groups.append((len(items), cur))
        anyc = [c for c in conds]
        hasdef = False
        for i, cs in groups:
            cc = [c for c in cs if not isinstance(c, str)]
            g = self.or_(cc)
            if len(cc) < len(cs):
                hasdef = True
                g = self.or_([g, self.not_(self.or_(anyc))])
            if g is False: continue
            x = st.copy()
            if g is not True:
                if not self.feasible(x, g): continue
                x.pc.append(g)
            run_from(i, x)
            if g is True: break
        else:
            if not hasdef:
                g = self.not_(self.or_(anyc))
                if g is not False:
                    x = st.copy()
                    if g is not True: x.pc.append(g)
                    if self.feasible(x, True if g is True else g): norm.append(x)
        return outs + [Out("norm", x) for x in self.merge_all(norm)]

    def or_(self, cs):
        cs = [c for c in cs if c is not False]
        if any(c is True for c in cs): return True
        if not cs: return False
        return z3.Or(*cs) if len(cs) > 1 else cs[0]
    def not_(self, c): return (not c) if isinstance(c, bool) else z3.Not(c)

    # ------------------------------------------------------------------ loops
    def x_for(self, s, st):
        sts = [st]
        if s["i"] is not None:
            o = self.exec(s["i"], st)
            sts = [x.st for x in o if x.kind == "norm"]
        outs = []
        for x in sts: outs += self.loop(s, s["c"], s["s"], s["b"], x)
        return self.norm_merge(outs)

    def x_while(self, s, st): return self.norm_merge(self.loop(s, s["c"], None, s["b"], st))

    def x_do(self, s, st):
        outs = []
        first = self.exec(s["b"], st)
        rest = []
        for o in first:
            if o.kind in ("norm", "continue"): rest.append(o.st)
            elif o.kind == "break": outs.append(Out("norm", o.st))
            else: outs.append(o)
        for x in self.merge_all(rest): outs += self.loop(s, s["c"], None, s["b"], x)
        return self.norm_merge(outs)

    def norm_merge(self, outs):
        n = self.merge_all([o.st for o in outs if o.kind == "norm"])
        return [o for o in outs if o.kind != "norm"] + [Out("norm", x) for x in n]

    def x_rangefor(self, s, st): raise Unsupported("range for")
    def x_try(self, s, st): raise Unsupported("try")

    def cond_val(self, c, st):
        if c is None: return True
        return self.simp(self.tobool(self.ev(c, st), c["t"]))

    def has_loop_spec(self, st, s):
        specs = self.loopspecs.get(st.fn)
        return specs is not None

    def loop_spec(self, st, s, probe=False):
        """the annotation for this loop (by order of first use among the
        loops of the function that need one)"""
        specs = self.loopspecs.get(st.fn)
        if specs is None: return None
        if callable(specs): return specs(self, st, s)
        lid = (st.fn, s["l"], id(s))
        if lid not in self.loopid:
            n = self.loopcount.get(st.fn, 0)
            self.loopid[lid] = n; self.loopcount[st.fn] = n + 1
        n = self.loopid[lid]
        if n >= len(specs) and probe: return None
        if n >= len(specs): raise AnnotationMismatch("no annotation for loop %d of %s" % (n, short(st.fn)))
        return specs[n]

    def split_cond(self, cond):
        """a loop condition that changes a variable (`--x >= 1`, `x--`, `(x = f()) != 0`): the loop
        while (C) B  is  effects(C); while (C') { B; effects(C) }, where C' reads the variable instead.
        Only an effect that is evaluated whenever C is, on a variable C mentions nowhere else, is moved."""
        def refs(e):
            if isinstance(e, list): return [r for x in e for r in refs(x)]
            if not isinstance(e, dict): return []
            return ([e["d"].get("id", e["d"]["n"])] if e.get("k") == "ref" and "d" in e else ["." + e["f"]] if e.get("k") == "mem" else ["call"] if e.get("k") in ("call", "mcall", "opcall") else []) + [r for x in e.values() for r in refs(x)]
        def plain(v): return int_ty(v.get("t", "")) and (v.get("k") == "ref" or v.get("k") == "mem" and v["b"].get("k") == "this")
        def find(e):
            k = e.get("k")
            if k == "un" and e["op"] in ("++", "--", "post++", "post--") and plain(e["e"]): return e
            if k == "asg" and plain(e["a"]): return e
            for f in (("e",) if k in ("un", "cast", "paren") else ("a", "b") if k == "bin" else ("a",) if k in ("land", "lor") else ()):
                r = find(e[f]) if isinstance(e.get(f), dict) else None
                if r is not None: return r
            return None
        x = find(cond)
        if x is None: return None
        var = x["e"] if x["k"] == "un" else x["a"]
        me = refs(var)[0]
        if refs(cond).count(me) != 1 or (var["k"] == "mem" and "call" in refs(cond)): return None
        if x["k"] == "asg" or not x["op"].startswith("post"): pure = var
        else:
            rd = {"k": "cast", "ck": "LValueToRValue", "e": var, "t": var["t"], "l": x["l"]}
            pure = {"k": "bin", "op": "-" if "+" in x["op"] else "+", "a": rd, "b": {"k": "int", "v": "1", "t": var["t"], "l": x["l"]}, "t": var["t"], "l": x["l"]}
            if int_ty(var["t"])[1] < 32: return None
        def sub(e):
            if e is x: return pure
            if isinstance(e, list): return [sub(y) for y in e]
            if isinstance(e, dict): return {a: sub(b) for a, b in e.items()}
            return e
        return x, sub(cond)

    def loop(self, s, cond, inc, body, st):
        if isinstance(cond, dict) and self.loopspecs.get(st.fn) is not None:
            sc = self.split_cond(cond)
            if sc is not None:
                eff, pure = sc
                self.ev(eff, st)
                return self.loop(s, pure, eff if inc is None else {"k": "comma", "a": inc, "b": eff, "t": eff["t"], "l": eff["l"]}, body, st)
        outs = []
        cur = [st]
        n = 0
        while cur:
            st = cur[0]; assert len(cur) == 1
            s0 = st
            probe = st.copy()
            nob = len(self.obls)
            c = self.cond_val(cond, st)
            if st.dead: break
            sp0 = self.loop_spec(st, s, True) if n == 0 and self.loopspecs.get(st.fn) is not None and not callable(self.loopspecs[st.fn]) and any(x is not None and x.force for x in self.loopspecs[st.fn]) else None
            if isinstance(c, bool) and not (sp0 is not None and sp0.force):
                if not c: outs.append(Out("norm", st)); break
            else:
                spec = self.loop_spec(st, s) if self.loopspecs.get(st.fn) is not None else None
                if spec is not None and spec.inv is not None:
                    del self.obls[nob:]
                    return outs + self.cut_loop(s, cond, inc, body, probe, spec)
                limit = (spec.unroll if spec and spec.unroll else self.maxunroll)
                ex = st.copy(); ex.pc.append(z3.Not(c))
                if self.feasible(st, z3.Not(c)): outs.append(Out("norm", ex))
                if not self.feasible(st, c): break
                st.pc.append(c)
                if n >= limit:
                    raise Unsupported("loop at line %s of %s needs an invariant (not exhausted after %d iterations)" % (s["l"], short(st.fn or ""), n))
            n += 1
            if n > 20000: raise Unsupported("loop too long")
            nxt = []
            for o in self.exec(body, st):
                if o.kind in ("norm", "continue"): nxt.append(o.st)
                elif o.kind == "break": outs.append(Out("norm", o.st))
                else: outs.append(o)
            nxt = self.merge_all(nxt)
            if len(nxt) > 1: 
                for x in nxt[1:]:
                    if inc is not None: self.ev(inc, x)
                    outs += self.loop(s, cond, inc, body, x)
                nxt = nxt[:1]
            cur = nxt
            for x in cur:
                if inc is not None: self.ev(inc, x)
        return outs

    def diff_cells(self, a, b, base=()):
        """paths where value b differs from a"""
        if a is b or self.veq(a, b): return []
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
            out = []
            for k in a.f: out += self.diff_cells(a.f[k], b.f[k], base + (k,))
            return out
        return [base]

    def havoc_value(self, v, t, name, st):
        """fresh value of the same shape"""
        if isinstance(v, Rec):
            if v.cls.startswith("SOA:"): return Rec(v.cls, {k: self.havoc_value(x, None, name + "." + k, st) for k, x in v.f.items()})
            ft = {fn: ty for (_, fn, ty) in self.fields_of(v.cls)}
            return Rec(v.cls, {k: self.havoc_value(x, ft.get(k), name + "." + k, st) for k, x in v.f.items()})
        if isinstance(v, ArrV):
            es = self.elem_sort(v.et)
            if es is not None: return ArrV(v.et, v.n, z3.Const(fresh_name(name), z3.ArraySort(self.idxsort(), es)))
            return ArrV(v.et, v.n, None, {k: self.havoc_value(x, v.et, name, st) for k, x in v.over.items()})
        if is_z3(v):
            nv = z3.Const(fresh_name(name), v.sort())
            if t and int_ty(t) and z3.is_int(nv): st.assume(self.range_of(nv, t))
            return nv
        if isinstance(v, (int, bool)):
            if t is None or (int_ty(t) is None and t not in self.absty): 
                if isinstance(v, bool): return z3.Bool(fresh_name(name))
                raise Unsupported("havoc of untyped integer " + name)
            return self.fresh(t, name, st)
        if isinstance(v, LV):
            if v.oid.startswith("H:") and len(v.path) == 1: return LV(v.oid, (z3.Int(fresh_name(name)),))
            if v.path and not isinstance(v.path[-1], str):
                return LV(v.oid, v.path[:-1] + (z3.Const(fresh_name(name), self.idxsort()),))
            raise Unsupported("loop changes pointer " + name)
        if v is UNINIT:
            if t and (int_ty(t) or t in self.absty or t.startswith("R:")) :
                try: return self.fresh(t, name, st)
                except Unsupported: return UNINIT
            return UNINIT
        if isinstance(v, (Opaque, StrLit)): return OPAQUE
        if v is NULL: raise Unsupported("loop changes null pointer " + name)
        raise Unsupported("havoc of %r" % (v,))

    def type_at(self, oid, path, v):
        t = self.otype.get(oid)
        for p in path:
            if t is None: return None
            if isinstance(p, str):
                if t.startswith("R:"):
                    t = {fn: ty for (_, fn, ty) in self.fields_of(t[2:])}.get(p)
                else: return None
            else:
                a = arr_ty(t); t = a[1] if a else None
        if t is None and isinstance(v, Rec): return "R:" + v.cls
        return t

    def cut_loop(self, s, cond, inc, body, st, spec):
        line = s["l"]
        entry = st.copy()
        ctx0 = Ctx(self, st, {}, st.this, entry, fkey=st.fn)
        ctx0.entry = entry; ctx0.line = line
        ctx0.loop = s
        gh = {}
        ctx0.g = gh
        if spec.once: spec.once(ctx0)
        # 1. invariant on entry
        for lab, g in spec.inv(ctx0):
            self.oblige(st, g, "loop@%d invariant on entry: %s" % (line, lab), "inv", line)
        # 2. find the modified cells (fixpoint)
        mods = set()
        self.mute += 1
        exc0 = list(self.exc)
        try:
            for rnd in range(12):
                h = st.copy()
                self.havoc_mods(h, mods)
                base = h.copy()
                new = set()
                c = self.cond_val(cond, h)
                if c is not True: 
                    if c is False: c = z3.BoolVal(False)
                    h.pc.append(c)
                ends = []
                snaps = []
                for o in self.exec(body, h):
                    if o.kind in ("norm", "continue"):
                        if inc is not None: self.ev(inc, o.st)
                    ends.append(o.st)
                for x in ends + [b for b, _ in self.exc[len(exc0):]]:
                    for k, v in base.store.items():
                        for p in self.diff_cells(v, x.store.get(k, v)): new.add((k, p))
                    for k, v in base.ghost.items():
                        if not self.veq(v, x.ghost.get(k, v)): new.add(("GHOST", k))
                    for k in x.store:
                        if k.startswith("H:") and k not in base.store:
                            for p in self.diff_cells(self.heap0(k[2:]), x.store[k]): new.add((k, p))
                    for k, v in x.ghost.items():
                        if k not in base.ghost: new.add(("GHOST", k))
                del self.exc[len(exc0):]
                new = self.widen_mods(new | mods, st)
                if new <= mods: break
                mods |= new
            else: raise Unsupported("modified set of loop at line %d does not stabilise" % line)
        finally:
            self.mute -= 1
            self.exc[:] = exc0
        # 3. arbitrary iteration
        h = st.copy()
        self.havoc_mods(h, mods)
        pre = h.copy()
        ctx = Ctx(self, h, {}, h.this, entry, fkey=h.fn); ctx.entry = entry; ctx.line = line; ctx.g = gh; ctx.loop = s
        for lab, g in spec.inv(ctx): h.assume(g)
        if spec.hints: spec.hints(ctx)
        vpre = spec.variant(ctx) if spec.variant else None
        outs = []
        c = self.cond_val(cond, h)
        if h.dead: return outs
        if c is not True:
            ex = h.copy(); ex.pc.append(z3.Not(c) if c is not False else z3.BoolVal(True))
            if spec.on_exit:
                cx = Ctx(self, ex, {}, ex.this, entry, fkey=ex.fn); cx.entry = entry; cx.line = line; cx.g = gh; cx.loop = s
                spec.on_exit(cx)
            if spec.split:
                cases = spec.split(Ctx(self, ex, {}, ex.this, entry, fkey=ex.fn))
                self.oblige(ex, z3.Or([f for f, _ in cases]), "loop@%d case split is complete" % line, "inv", line)
                for q, (f, conc) in enumerate(cases):
                    x = ex.copy(); x.pc.append(f); conc(Ctx(self, x, {}, x.this, entry, fkey=x.fn))
                    x.ghost["#split"] = "%s/%d.%d" % (st.ghost.get("#split", ""), line, q)
                    outs.append(Out("norm", x))
            else: outs.append(Out("norm", ex))
        if c is False: return outs
        if c is not True: h.pc.append(c)
        start = h.copy()
        for o in self.exec(body, h):
            if o.kind in ("norm", "continue"):
                x = o.st
                if inc is not None: self.ev(inc, x)
                cx = Ctx(self, x, {}, x.this, entry, fkey=x.fn); cx.entry = entry; cx.line = line; cx.g = gh; cx.start = start; cx.loop = s
                if spec.body_end: spec.body_end(cx)
                for lab, g in spec.inv(cx):
                    self.oblige(x, g, "loop@%d invariant preserved: %s" % (line, lab), "inv", line)
                if spec.variant:
                    v2 = spec.variant(cx)
                    self.oblige(x, z3.And(vpre >= 0, v2 < vpre) if z3.is_int(v2) else z3.ULT(v2, vpre), "loop@%d terminates" % line, "variant", line)
            elif o.kind == "break": outs.append(Out("norm", o.st))
            else: outs.append(o)
        return outs

    def widen_mods(self, mods, st):
        """drop cells of objects that do not exist before the loop"""
        return {(k, p) for (k, p) in mods if k == "GHOST" or k in st.store or k.startswith("H:")}

    def havoc_mods(self, st, mods):
        for (k, p) in sorted(mods, key=str):
            if k == "GHOST":
                v = st.ghost.get(p)
                if v is None: v = self.ghost0(p)
                if v is not None: st.ghost[p] = z3.Const(fresh_name("g." + str(p)), v.sort()) if is_z3(v) else self.ghost_fresh(p, v)
                continue
            if k not in st.store and k.startswith("H:"): self.init_heap(st, k[2:])
            root = st.store[k]
            outer, rest = self.soa_walk(root, p)
            v = self.get_path(outer[-1], rest) if rest else outer[-1]
            nv = self.havoc_value(v, self.type_at(k, p, v), (k.split("!")[0] + "." + ".".join(map(str, p))).strip("."), st)
            if rest: nv = self.set_path(outer[-1], rest, nv)
            for r, f in zip(reversed(outer[:-1]), reversed(p[:len(outer) - 1])): nv = r.with_(f, nv)
            st.store[k] = nv

    def soa_walk(self, root, p):
        """columns of a heap: follow the field names at the head of p"""
        outer = [root]; p = tuple(p)
        while p and isinstance(p[0], str) and isinstance(outer[-1], Rec) and outer[-1].cls.startswith("SOA:") and p[0] in outer[-1].f:
            outer.append(outer[-1].f[p[0]]); p = p[1:]
        return outer, p

    def ghost0(self, k):
        if k.startswith("alloc:"): return z3.Int("alloc0." + k[6:])
        return None
    def ghost_fresh(self, p, v): raise Unsupported("ghost havoc")

    # ------------------------------------------------------ verification entry
    separate_returns = False        # keep one outcome per return statement and path
    def verify(self, key, args, this, st, con=None):
        """run the body of `key` (not its contract) and return outcomes"""
        f = self.prog.functions.get(key)
        if f is None: raise AnnotationMismatch("function %s not found" % key)
        self.cur = short(key)
        self.exc = []
        outs = self.run_body(key, f, this, args, st)
        rets = [o for o in outs if o.kind in ("ret", "norm")]
        m = []
        RV = "RET:" + fresh_name("r"); self.otype[RV] = f["ret"]
        for o in rets:
            o.st.store[RV] = o.val if o.val is not None else UNINIT
        res = []
        for x in ([o.st for o in rets] if self.separate_returns else self.merge_all([o.st for o in rets])):
            v = x.store.pop(RV); res.append((x, v))
        return res, list(self.exc)


def short(k):
    k = re.sub(r"\(.*$", "", k) if "(" in k else k
    return k.replace("MTToolBox::", "").replace("unsigned int", "u32").replace("unsigned long", "u64")
