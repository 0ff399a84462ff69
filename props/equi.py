"""Contracts of the equidistribution objects, temperings and the defect."""
from absgen import *
K = F("K", GP, GQ, B, GS, I, I)                      # dimension of equidistribution of the v leading bits
DELTA = F("DELTA", GP, GQ, B, GS, I, I, I)           # (..., width, state size): total defect
TEMPER = F("TEMPER", I, GP, GQ, B, GS, GQ)              # tempering found by tempering object i
TEMPC = "ABSTEMP"
def isequi(cls): return cls.startswith("MTToolBox::AlgorithmEquidistribution<")
class EquiExec(AbsExec):
    """AlgorithmEquidistribution objects are seen through their contract (C15):
    they hold a copy of the generator's components."""
    equi_contract = True
    kvb = True
    def in_time(self, fn, this, args, e, st, ct): return self.fresh(fn["ret"], "time", st)
    def in_ctime(self, fn, this, args, e, st, ct): return OPAQUE
    def fields_of(self, cls):
        if self.equi_contract and isequi(cls): return [(cls, "p", "GP"), (cls, "q", "GQ"), (cls, "rev", "bool"), (cls, "s", "GS"), (cls, "len", "i32"), (cls, "sz", "i32"), (cls, "used", "i32")]
        if cls == TEMPC: return [(cls, "id", "i32"), (cls, "calls", "i32")]
        if cls == PGC: return [(cls, "pos", "i64"), (cls, "ap", "GP"), (cls, "aq", "GQ"), (cls, "as", "GS")]
        return super().fields_of(cls)
    def temper(self, st, name):
        lv = self.new_obj(st, Rec(TEMPC, {"id": z3.Int(fresh_name(name)), "calls": z3.IntVal(0)}), name); self.otype[lv.oid] = "R:" + TEMPC; return lv
    def pgen(self, st, name="pg"):
        lv = super().pgen(st, name); r = self.read(st, lv)
        for f, s in (("ap", GP), ("aq", GQ), ("as", GS)): r.f[f] = z3.Const(fresh_name(name + "." + f), s)
        self.write(st, lv, r); return lv
    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        if isinstance(this, LV):
            try: v = self.read(st, this)
            except Unsupported: v = None
            if isinstance(v, Rec) and v.cls == TEMPC:
                if fn["n"] == "isLSBTempering": return F("ISLSB", I, B)(v.f["id"])
                if fn["n"] == "operator()":
                    g = args[0]; p, q, r, s = self.g4(st, g)
                    self.assumed.add("contract of tempering objects (C17, C18)")
                    self.write(st, g.sub("q"), TEMPER(v.f["id"], p, q, r if is_z3(r) else z3.BoolVal(bool(r)), s)); self.write(st, g.sub("rev"), False)
                    self.write(st, this.sub("calls"), self.toint(v.f["calls"], "i32") + 1)
                    return self.fresh("i32", "tempering", st)
                raise Unsupported("tempering function " + fn["n"])
        if self.equi_contract and fn.get("cls") and isequi(fn["cls"]): return self.equi_call(fn, this, args, st, line)
        return super().call_fn(fn, this, args, st, line, e, virt)
    def equi_call(self, fn, this, args, st, line):
        n = fn["key"].split("(")[0].split("::")[-1]
        self.used_contracts.add("contract of AlgorithmEquidistribution (C15): " + n)
        if n == "<ctor>":
            p, q, r, s = self.g4(st, args[0]); ln = self.toint(args[1], "i32"); m = self.toint(args[2], "i32") if len(args) > 2 else z3.IntVal(0)
            self.oblige(st, ln >= 1, "precondition of AlgorithmEquidistribution: at least one bit@%d" % line, "pre", line)
            m = z3.simplify(m)
            for f, v in (("p", p), ("q", q), ("rev", r), ("s", s), ("len", ln), ("sz", z3.If(m == 0, BS(p), m)), ("used", z3.IntVal(0))): self.write(st, this.sub(f), v)
            return None
        if n == "<dtor>": return None
        if n == "get_all_equidist":
            v = self.read(st, this).f; self.once(st, this, line)
            r = DELTA(v["p"], v["q"], v["rev"] if is_z3(v["rev"]) else z3.BoolVal(v["rev"]), v["s"], v["len"], v["sz"])
            self.kv_write(st, args[0], v, line)
            st.assume(r >= 0, r <= v["sz"] * v["len"]); return r
        raise Unsupported("equidistribution function " + n)
    def once(self, st, this, line):
        u = self.toint(self.read(st, this.sub("used")), "i32"); self.oblige(st, u == 0, "an equidistribution object is used once@%d" % line, "pre", line); self.write(st, this.sub("used"), u + 1)
    def kv_write(self, st, p, v, line):
        """k(1..len) go to the array (contents not used by the callers)"""
        ln = z3.simplify(v["len"])
        self.veq_array(st, p, ln, line, v)
    def veq_array(self, st, p, ln, line, v):
        p = self.deref(st, p, line)
        if p.path and not isinstance(p.path[-1], str): base, arr = p.path[-1], LV(p.oid, p.path[:-1])
        else: base, arr = 0, p
        a = self.read(st, arr)
        if not isinstance(a, ArrV) or not is_conc(base) or int(base) != 0: raise Unsupported("veq array")
        n = a.n if is_conc(a.n) else self.toint(a.n, "i64")
        self.oblige(st, ln <= n, "the k(v) array holds the width@%d" % line, "pre", line)
        f = self.fresh_array(a.et, a.n, "veq", st)
        self.write(st, arr, f)
        if self.kvb and (is_conc(ln) or z3.is_int_value(ln)):     # 0 <= k(v) <= floor(size/v)
            for j in range(int(str(ln))):
                x = self.toint(self.read(st, arr.sub(j)), a.et); st.assume(x >= 0, x * (j + 1) <= v["sz"])
        return f
    def ev_new(self, e, st):
        t = e["at"]
        if not e["arr"] and t.startswith("R:MTToolBox::AbsGen<"):
            init = e.get("init")
            if not init or init["k"] != "ctor" or not init["fn"].get("copy"): raise Unsupported("new of a generator")
            a = self.eval_args(init["fn"], init["args"], st)
            lv = self.new_obj(st, self.read(st, a[0]), "newgen"); self.otype[lv.oid] = "R:" + GENC
            return lv
        return super().ev_new(e, st)
