"""Reading of prime factor tables: strings, stringstreams, isdigit."""
from absgen import *
import C09

class TabExec(AbsExec):
    def has_intrinsic(self, fn): return fn["qn"] in ("isdigit", "std::isdigit", "strlen", "std::strlen") or super().has_intrinsic(fn)
    def digit(self, c):
        if is_conc(c): return z3.BoolVal(48 <= int(c) <= 57)
        c = self.tobv(c, "i8") if z3.is_bv(c) and c.size() == 8 else c
        if z3.is_int(c): return z3.And(c >= 48, c <= 57)
        return z3.And(c >= 48, c <= 57)
    def in_isdigit(self, fn, this, args, e, st, ct):
        if is_conc(args[0]): return 1 if 48 <= int(args[0]) <= 57 else 0
        return z3.If(self.digit(args[0]), z3.IntVal(1), z3.IntVal(0))
    in_std_isdigit = in_isdigit
    def text(self, st, p):
        """the characters of a C string: list of concrete codes or terms"""
        if isinstance(p, StrLit): return [ord(c) for c in p.s]
        out = []; 
        for i in range(200):
            c = self.read(st, self.ptr_add(st, p, i, 0)) 
            if is_conc(c):
                if int(c) == 0: return out
                out.append(int(c))
            else: out.append(c)
        raise Unsupported("string without end")
    def ssid(self, st, x):
        while isinstance(x, LV):
            v = self.read(st, x)
            if not isinstance(v, LV): break
            x = v
        if not isinstance(x, LV): raise Unsupported("string stream")
        return "ss:" + x.oid
    def in_std_operator(self, fn, this, args, e, st, ct):
        if fn["n"] == "operator<<" and len(args) == 2 and fn["ps"][1] == "*i8" and isinstance(args[0], LV) and "stringstream" in self.otype.get(args[0].oid, ""):
            k = self.ssid(st, args[0]); st.ghost[k] = tuple(st.ghost.get(k, ())) + tuple(self.text(st, args[1])); return args[0]
        return NotImplemented
    def in_NTL_operator_(self, fn, this, args, e, st, ct):
        if fn["n"] == "operator>>" and fn["ps"][1] == "&R:NTL::ZZ":
            k = self.ssid(st, args[0]); b = list(st.ghost.get(k, ()))
            while b and is_conc(b[0]) and b[0] in (32, 9, 10): b.pop(0)
            r = z3.IntVal(0); n = 0
            while b and not (is_conc(b[0]) and not 48 <= b[0] <= 57):
                c = b.pop(0); n += 1
                if not is_conc(c): self.oblige(st, self.digit(c), "only digits are read as a number", "pre", e["l"])
                r = z3.simplify(r * 10 + (int(c) - 48 if is_conc(c) else z3.BV2Int(c) - 48))
            if not n: raise Unsupported("read of a number from a stream that holds none")
            st.ghost[k] = tuple(b); self.write(st, args[1], r); return args[0]
        return super().in_NTL_operator_(fn, this, args, e, st, ct)
    def zz(self, st, x):
        while isinstance(x, LV): x = self.read(st, x)
        if is_z3(x) and z3.is_bv(x) and x.size() == 32:      # sign extended character
            return z3.BV2Int(x, True)
        return super().zz(st, x)

def mk_table(e, st, rows):
    """rows: python strings, or lists of character terms"""
    ps = {}
    for i, r in enumerate(rows):
        if isinstance(r, str): ps[i] = StrLit(r)
        else:
            lv = e.new_obj(st, ArrV("i8", len(r) + 1, None, dict([(j, c) for j, c in enumerate(r)] + [(len(r), 0)])), "row"); e.otype[lv.oid] = "[%d]i8" % (len(r) + 1); ps[i] = lv.sub(0)
    ps[len(rows)] = NULL
    lv = e.new_obj(st, ArrV("*i8", len(rows) + 1, None, ps), "table"); e.otype[lv.oid] = "[%d]*i8" % (len(rows) + 1)
    return lv.sub(0)
def value(r):
    v = z3.IntVal(0)
    for c in r: v = v * 10 + (ord(c) - 48 if isinstance(c, str) else z3.BV2Int(c) - 48)
    return z3.simplify(v)
def symrow(st, n, i):
    cs = [z3.BitVec("c%d_%d" % (i, j), 8) for j in range(n)]
    for c in cs: st.assume(c >= 48, c <= 57)
    return cs

def read_isprime(rep, rows, label):
    """isPrime(poly, n, table): the factor vector it hands over"""
    p = C09.PP(); e = TabExec(p); k = p.find("MTToolBox::isPrime(&R:NTL::GF2X,i32,**i8)"); st = State(); lv, f = C09.mkpoly(e, st)
    if callable(rows): rows = rows(st)
    n = z3.Int("degree"); st.assume(n >= 0, n < 1 << 20)
    calls = []
    def record(s, ff, nn, ln, v): s.ghost["call"] = (ff, nn, ln, v)
    con = C09.prime3_contract(e, record); e.contracts[con.key] = con
    res, exc = e.verify(k, [lv, n, mk_table(e, st, rows)], None, st)
    for s, v in res:
        c = s.ghost.get("call")
        if not c: e.oblige(s, z3.BoolVal(False), label + "the factor list test is called", "post"); continue
        ff, nn, ln, vec = c
        e.oblige(s, z3.And(ff == f, nn == n), label + "polynomial and degree are handed over", "post")
        e.oblige(s, e.toint(ln, "i64") == len(rows), label + "one factor per entry", "post")
        a = e.flush(vec.f["a"])
        e.oblige(s, z3.And([z3.Select(a, i) == value(r) for i, r in enumerate(rows)] + [z3.BoolVal(True)]), label + "each factor is the decimal value of its entry", "post")
        e.oblige(s, C09.b_(v) == C09.ISP(f, n, e.toint(ln, "i64"), a), label + "its answer is returned", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)

def read_ctor(rep, rows, label):
    """AlgorithmPrimitivity(table): the factor vector it stores"""
    p = C09.PR(); e = TabExec(p); k = p.find("MTToolBox::AlgorithmPrimitivity::<ctor>(**i8)"); st = State(); this = mkobj(e, st, "MTToolBox::AlgorithmPrimitivity", uninit=True)
    if callable(rows): rows = rows(st)
    res, exc = e.verify(k, [mk_table(e, st, rows)], this, st)
    for s, v in res:
        e.oblige(s, z3.Not(C09.b_(e.read(s, this.sub("mersenne")))), label + "factor list object", "post")
        vec = e.read(s, e.read(s, this.sub("primes"))); a = e.flush(vec.f["a"])
        e.oblige(s, e.toint(vec.f["len"], "i64") == len(rows), label + "one factor per entry", "post")
        e.oblige(s, z3.And([z3.Select(a, i) == value(r) for i, r in enumerate(rows)] + [z3.BoolVal(True)]), label + "each factor is the decimal value of its entry", "post")
    if not res or exc: raise Unsupported("paths without a result")
    rep.take(e, k)
