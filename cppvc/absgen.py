"""Abstract generators and NTL polynomials for the algorithms.

An object behind a generator interface (AbstractGenerator ... ReducibleTempering-
Calculatable) is a record ABSGEN{p,q,rev,s}: structural parameters, tempering
parameters, reverse-output flag, state; the virtual functions are uninterpreted
functions of these components - the contract of the interface, which C05-C07 and
C23 prove for the bundled generators.  GF2X is an abstract sort of polynomials;
ZZ is a mathematical integer."""
import z3
from lib import *
I = z3.IntSort(); B = z3.BoolSort()
GP = z3.DeclareSort("GP"); GQ = z3.DeclareSort("GQ"); GS = z3.DeclareSort("GS"); Poly = z3.DeclareSort("Poly")
BVS = z3.BitVecSort
def F(name, *s): return z3.Function(name, *s)
T = F("T", GP, GS, GS)                                   # one step
ADD = F("ADD", GP, GS, GS, GS)                           # state addition
ZERO = F("ZERO", GP, GS, GS)
ISZ = F("ISZ", GP, GS, B)
BS = F("BITSIZE", GP, I)
MEXP = F("MEXP", GP, I)
ONEBIT = F("ONEBIT", GP, GS, I, GS)
SETUP = F("SETUP", GP, GS, I, GP); SETUPQ = F("SETUPQ", GP, GQ, I, GQ); SETUPS = F("SETUPS", GP, GS, I, GS)
SETUPT = F("SETUPT", GP, GQ, GQ)
def OUT(w): return F("OUT%d" % w, GP, GQ, B, GS, BVS(w))         # generate()
def OUTW(w): return F("OUTW%d" % w, GP, GQ, B, GS, I, BVS(w))    # generate(v)
def SEED(w): return F("SEED%d" % w, GP, GS, BVS(w), GS)
def PV(w): return F("PARITY%d" % w, GP, GS, BVS(w))
def SETPV(w): return F("SETPARITY%d" % w, GP, GS, BVS(w), GS)
def SETPP(w): return F("SETPARITYP%d" % w, GP, BVS(w), GP)
def TEMPQ(w): return F("TEMPQ%d" % w, GP, GQ, BVS(w), BVS(w), I, GQ)
STf = F("ST", GP, GS, I, GS)                             # i-fold step
def ST(p, s, i): return STf(p, s, z3.IntVal(i) if isinstance(i, int) else i)
# polynomials
PZERO = z3.Const("poly0", Poly)
DEG = F("deg", Poly, I); COEFF = F("coeff", Poly, I, B); MONO = F("mono", I, I, Poly)
GCDp = F("gcd", Poly, Poly, Poly); MULp = F("mul", Poly, Poly, Poly); DIVp = F("quo", Poly, Poly, Poly); MODp = F("rem", Poly, Poly, Poly); ADDp = F("padd", Poly, Poly, Poly)
LCMp = F("LCM", Poly, Poly, Poly)
ISONE = F("isone", Poly, B); IRRED = F("irreducible", Poly, B); WEIGHT = F("weight", Poly, I)
POWX = F("xpow", I, Poly, Poly)
POW = F("pow", I, I, I)
BARR = z3.ArraySort(I, B)
MINSEQ = F("minpolyseq", BARR, I, I, Poly)
VECZZ = "R:NTL::Vec<NTL::ZZ>"
GENC = "ABSGEN"; PGC = "ABSPG"
GENCLS = ("AbstractGenerator", "RecursionSearchable", "EquidistributionCalculatable", "TemperingCalculatable", "ReducibleGenerator", "ReducibleTemperingCalculatable", "AbsGen")


def st_axiom():
    """ST(p,s,0) = s, ST(p,s,i+1) = T(p,ST(p,s,i))"""
    return Schema([GP, GS, I], lambda p, s, i: z3.And(z3.Implies(i == 0, STf(p, s, i) == s), z3.Implies(i >= 0, STf(p, s, i + 1) == T(p, STf(p, s, i)))), "step iterates", trig=[("ST", (0, 1, 2))])


class AbsExec(LibExec):
    gencls = GENCLS
    def __init__(self, prog, **kw):
        kw.setdefault("idx", "int"); kw.setdefault("intmode", ("i32", "i64", "u16"))
        kw.setdefault("maxunroll", 300)
        super().__init__(prog, **kw)
        for t, s in (("GP", GP), ("GQ", GQ), ("GS", GS), ("R:NTL::GF2X", Poly), ("R:NTL::GF2XModulus", Poly), ("R:NTL::ZZ", I)): self.absty[t] = s
        self.axioms.append(st_axiom())
        self.defaults[VECZZ] = lambda: Rec("NTL::Vec<NTL::ZZ>", {"len": 0, "a": ArrV("R:NTL::ZZ", None, z3.Const(fresh_name("veczz"), z3.ArraySort(self.idxsort(), I)))})
        self.absaddr = {}
    def repr_int(self, t): return t in self.intmode
    def fields_of(self, cls):
        if cls == GENC: return [(cls, "p", "GP"), (cls, "q", "GQ"), (cls, "rev", "bool"), (cls, "s", "GS")]
        if cls == PGC: return [(cls, "pos", "i64")]
        if cls == "NTL::Vec<NTL::ZZ>": return [(cls, "len", "i64"), (cls, "a", "[?]R:NTL::ZZ")]
        return super().fields_of(cls)
    def absconst(self, t, v): return z3.IntVal(v)
    # -- objects
    def gen(self, st, name="g"):
        v = Rec(GENC, {"p": z3.Const(fresh_name(name + ".p"), GP), "q": z3.Const(fresh_name(name + ".q"), GQ), "rev": z3.Bool(fresh_name(name + ".rev")), "s": z3.Const(fresh_name(name + ".s"), GS)})
        lv = self.new_obj(st, v, name); self.otype[lv.oid] = "R:" + GENC
        return lv
    def pgen(self, st, name="pg"):
        x = z3.Int(fresh_name(name)); st.assume(x >= 0)
        lv = self.new_obj(st, Rec(PGC, {"pos": x}), name); self.otype[lv.oid] = "R:" + PGC
        return lv
    def g4(self, st, lv):
        r = self.read(st, lv)
        return r.f["p"], r.f["q"], r.f["rev"] if is_z3(r.f["rev"]) else z3.BoolVal(r.f["rev"]), r.f["s"]
    def abs_of(self, st, lv):
        if not isinstance(lv, LV): return None
        try: v = self.read(st, lv)
        except Unsupported: return None
        return v.cls if isinstance(v, Rec) and v.cls in (GENC, PGC) else None
    def call_fn(self, fn, this, args, st, line, e=None, virt=False):
        if this is not None:
            c = self.abs_of(st, this)
            if c: 
                con = self.contracts.get(fn["key"])
                if con is not None: return self.apply_contract(con, fn["key"], fn, this, args, st, line)
                return self.gen_call(fn, this, args, st, line) if c == GENC else self.pg_call(fn, this, args, st, line)
        return super().call_fn(fn, this, args, st, line, e, virt)
    def uw(self, t):
        t = t.lstrip("&*")
        it = int_ty(t)
        if it: return it[1]
        r = self.prog.records.get(t[2:]) if t.startswith("R:") else None
        if r and r["union"]: return r["bits"]
        raise Unsupported("word type " + t)
    def gen_call(self, fn, this, args, st, line):
        n = fn["n"]; p, q, rev, s = self.g4(st, this)
        self.assumed.add("interface contract: " + n)
        ss = lambda x: self.write(st, this.sub("s"), x)
        if n == "generate":
            w = self.uw(fn["ret"])
            if args: r = OUTW(w)(p, q, rev, s, self.toint(args[0], "i32"))
            else: r = OUT(w)(p, q, rev, s)
            ss(T(p, s)); return r
        if n == "clone": 
            lv = self.new_obj(st, self.read(st, this), "clone"); self.otype[lv.oid] = "R:" + GENC
            return lv
        if n == "seed":
            w = self.uw(fn["ps"][0]); ss(SEED(w)(p, s, self.zw(args[0], fn["ps"][0], st))); return None
        if n == "add":
            o = args[0]
            if self.abs_of(st, o) != GENC: raise Unsupported("add of another object")
            ss(ADD(p, s, self.g4(st, o)[3])); return None
        if n == "setZero": ss(ZERO(p, s)); return None
        if n == "isZero": return ISZ(p, s)
        if n == "bitSize": return self.tosz(st, BS(p))
        if n == "getMexp": return self.tosz(st, MEXP(p))
        if n == "setUpParam":
            g = args[0]; k = self.read(st, g.sub("pos"))
            self.write(st, this.sub("p"), SETUP(p, s, k)); self.write(st, this.sub("q"), SETUPQ(p, q, k)); ss(SETUPS(p, s, k))
            self.write(st, g.sub("pos"), k + 1); return None
        if n == "setReverseOutput": self.write(st, this.sub("rev"), True); return None
        if n == "resetReverseOutput": self.write(st, this.sub("rev"), False); return None
        if n == "isReverseOutput": return rev
        if n == "setTemperingPattern":
            w = self.uw(fn["ps"][0])
            self.write(st, this.sub("q"), TEMPQ(w)(p, q, self.zw(args[0], fn["ps"][0], st), self.zw(args[1], fn["ps"][1], st), self.toint(args[2], "i32"))); return None
        if n == "setUpTempering": self.write(st, this.sub("q"), SETUPT(p, q)); return None
        if n == "getParityValue": return PV(self.uw(fn["ret"]))(p, s)
        if n == "setParityValue":
            w = self.uw(fn["ps"][0]); v = self.zw(args[0], fn["ps"][0], st)
            ss(SETPV(w)(p, s, v)); self.write(st, this.sub("p"), SETPP(w)(p, v)); return None
        if n == "setOneBit": ss(ONEBIT(p, s, self.toint(args[0], "i32"))); return None
        if n in ("getParamString", "getHeaderString"): return OPAQUE
        raise Unsupported("interface function " + n)
    def tosz(self, st, x):
        st.assume(x >= 0, x <= (1 << 22)); return x
    def zw(self, v, t, st):
        if isinstance(v, LV): v = self.read(st, v)
        t = t.lstrip("&")
        if is_z3(v) and z3.is_bv(v): return v
        return self.tobv(v, t)
    def pg_call(self, fn, this, args, st, line):
        n = fn["n"]
        if n in ("getUint32", "getUint64"):
            k = self.read(st, this.sub("pos")); self.write(st, this.sub("pos"), k + 1)
            return F("PG" + n[7:], I, BVS(int(n[7:])))(k)
        raise Unsupported("parameter generator function " + n)
    # -- NTL polynomials
    def pv(self, st, x):
        while isinstance(x, LV): x = self.read(st, x)
        if not is_z3(x): raise Unsupported("polynomial value %r" % (x,))
        return x
    def in_NTL_GF2X_GF2X(self, fn, this, args, e, st, ct):
        if not args: return PZERO
        if len(args) == 1: return self.pv(st, args[0])
        if len(args) == 2: return self.mono(st, args[0], args[1])
        return NotImplemented
    def in_NTL_GF2XModulus_GF2XModulus(self, fn, this, args, e, st, ct):
        return self.pv(st, args[0]) if args else NotImplemented
    def in_NTL_GF2XModulus_operator_(self, fn, this, args, e, st, ct): return self.pv(st, this)
    def in_NTL_build(self, fn, this, args, e, st, ct): self.write(st, args[0], self.pv(st, args[1]))
    def mono(self, st, i, c):
        t = MONO(self.toint(i, "i64"), self.toint(self.gf(c, st), "i64"))
        return t
    def gf(self, c, st):
        if isinstance(c, LV): c = self.gf2val(c, st)
        if is_z3(c) and z3.is_bool(c): return z3.If(c, z3.IntVal(1), z3.IntVal(0))
        return c
    def in_NTL_GF2X_operator_(self, fn, this, args, e, st, ct):
        if fn["n"] == "operator=": self.write(st, this, self.pv(st, args[0]) if not int_ty(fn["ps"][0]) else MONO(z3.IntVal(0), self.toint(args[0], "i64"))); return this
        return NotImplemented
    def in_NTL_deg(self, fn, this, args, e, st, ct):
        d = DEG(self.pv(st, args[0])); st.assume(d >= -1, d <= (1 << 24)); return d
    def in_NTL_GCD(self, fn, this, args, e, st, ct):
        if len(args) == 3: self.write(st, args[0], GCDp(self.pv(st, args[1]), self.pv(st, args[2]))); return None
        return GCDp(self.pv(st, args[0]), self.pv(st, args[1]))
    def bin3(self, f, args, st):
        if len(args) == 3: self.write(st, args[0], f(self.pv(st, args[1]), self.pv(st, args[2]))); return None
        return f(self.pv(st, args[0]), self.pv(st, args[1]))
    def in_NTL_mul(self, fn, this, args, e, st, ct):
        return self.bin3(MULp, args, st) if fn["ps"][0] == "&R:NTL::GF2X" else NotImplemented
    def in_NTL_div(self, fn, this, args, e, st, ct):
        return self.bin3(DIVp, args, st) if fn["ps"][0] == "&R:NTL::GF2X" else NotImplemented
    def in_NTL_rem(self, fn, this, args, e, st, ct):
        return self.bin3(MODp, args, st) if fn["ps"][0] == "&R:NTL::GF2X" else NotImplemented
    def in_NTL_sqr(self, fn, this, args, e, st, ct):
        if fn["ps"][0] != "&R:NTL::GF2X": return NotImplemented
        a = self.pv(st, args[-1]); r = MULp(a, a)
        if len(args) == 2: self.write(st, args[0], r); return None
        return r
    def in_NTL_add(self, fn, this, args, e, st, ct):
        return self.bin3(ADDp, args, st) if fn["ps"][0] == "&R:NTL::GF2X" else NotImplemented
    def in_NTL_weight(self, fn, this, args, e, st, ct):
        d = WEIGHT(self.pv(st, args[0])); st.assume(d >= 0, d <= (1 << 24)); return d
    def in_NTL_coeff(self, fn, this, args, e, st, ct):
        if len(args) == 2: return COEFF(self.pv(st, args[0]), self.toint(args[1], "i64"))
        return NotImplemented
    def in_NTL_IterIrredTest(self, fn, this, args, e, st, ct):
        return z3.If(IRRED(self.pv(st, args[0])), z3.IntVal(1), z3.IntVal(0))
    def in_NTL_MinPolySeq(self, fn, this, args, e, st, ct):
        v = self.read(st, args[1]); n = self.toint(v.f["len"], "i64"); m = self.toint(args[2], "i64")
        self.safe(st, n >= 2 * m, "MinPolySeq needs 2m terms", e["l"])
        self.write(st, args[0], MINSEQ(self.flush(v.f["a"]), n, m)); return None
    def in_NTL_IsOne(self, fn, this, args, e, st, ct):
        if fn["ps"][0] == "&R:NTL::GF2X": return z3.If(ISONE(self.pv(st, args[0])), z3.IntVal(1), z3.IntVal(0))
        return super().in_NTL_IsOne(fn, this, args, e, st, ct)
    def in_NTL_IsZero(self, fn, this, args, e, st, ct):
        if fn["ps"][0] == "&R:NTL::GF2X": return z3.If(DEG(self.pv(st, args[0])) == -1, z3.IntVal(1), z3.IntVal(0))
        return super().in_NTL_IsZero(fn, this, args, e, st, ct)
    def in_NTL_PowerXMod(self, fn, this, args, e, st, ct):
        self.write(st, args[0], POWX(self.zz(st, args[1]), self.pv(st, args[2]))); return None
    def zz(self, st, x):
        while isinstance(x, LV): x = self.read(st, x)
        return z3.IntVal(int(x)) if is_conc(x) else x if z3.is_int(x) else z3.BV2Int(x, True)
    def in_NTL_ZZ_ZZ(self, fn, this, args, e, st, ct):
        if not args: return z3.IntVal(0)
        if len(args) == 1: return self.zz(st, args[0])
        return NotImplemented
    def in_NTL_ZZ_operator_(self, fn, this, args, e, st, ct):
        if fn["n"] == "operator=": self.write(st, this, self.zz(st, args[0])); return this
        return NotImplemented
    def in_NTL_power(self, fn, this, args, e, st, ct):
        a = self.zz(st, args[-2]); n = self.toint(args[-1], "i64")
        if is_conc(args[-1]) and z3.is_int_value(a): r = z3.IntVal(a.as_long() ** int(args[-1]))
        else: r = POW(a, n)
        if len(args) == 3: self.write(st, args[0], r); return None
        return r
    def in_NTL_operator_(self, fn, this, args, e, st, ct):
        n = fn["n"]; ps = fn["ps"]
        if ps and any("GF2X" in x for x in ps[:2]):
            if n in ("operator==", "operator!=") and all("GF2X" in x for x in ps):
                r = self.pv(st, args[0]) == self.pv(st, args[1])
                return z3.If(r if n == "operator==" else z3.Not(r), z3.IntVal(1), z3.IntVal(0))
            if not all("GF2X" in x for x in ps):
                raise Unsupported("polynomial operator with " + str(ps))
            a = self.pv(st, args[0]); b = self.pv(st, args[1])
            if n in ("operator/=", "operator*=", "operator+=", "operator-=", "operator%="):
                self.write(st, args[0], {"/": DIVp, "*": MULp, "+": ADDp, "-": ADDp, "%": MODp}[n[8]](a, b)); return args[0]
            if n in ("operator/", "operator*", "operator+", "operator-", "operator%"):
                return {"/": DIVp, "*": MULp, "+": ADDp, "-": ADDp, "%": MODp}[n[8]](a, b)
            raise Unsupported("polynomial " + n)
        if ps and any(x in (GF2, "&" + GF2, REFGF2, "&" + REFGF2) for x in ps):
            v = [self.gf(x, st) for x in args]
            v = [(z3.IntVal(int(x)) if is_conc(x) else x) % 2 if not (is_z3(x) and z3.is_app_of(x, z3.Z3_OP_ITE)) else x for x in v]
            if n == "operator==": return z3.If(v[0] == v[1], z3.IntVal(1), z3.IntVal(0))
            if n == "operator!=": return z3.If(v[0] != v[1], z3.IntVal(1), z3.IntVal(0))
            raise Unsupported("GF2 " + n)
        if ps and any("ZZ" in x for x in ps):
            a = self.zz(st, args[0]); b = self.zz(st, args[1])
            op = n[8:].rstrip("=") if n not in ("operator==", "operator!=") else n[8:]
            if op in ("+", "-", "*"): r = {"+": a + b, "-": a - b, "*": a * b}[op]
            elif op == "/":
                self.safe(st, b != 0, "division by zero", e["l"])
                r = a / b        # floor division, as NTL's
            elif op == "%":
                self.safe(st, b != 0, "division by zero", e["l"]); r = a % b
            elif op in ("==", "!="):
                r = a == b if op == "==" else a != b
                return z3.If(r, z3.IntVal(1), z3.IntVal(0))
            else: raise Unsupported("ZZ " + n)
            r = z3.simplify(r)
            if n.endswith("=") and n[8] in "+-*/%": self.write(st, args[0], r); return args[0]
            return r
        return NotImplemented
    # -- NTL vectors of ZZ
    def in_NTL_Vec_NTL_ZZ_Vec(self, fn, this, args, e, st, ct):
        if not args: return self.defaults[VECZZ]()
        if len(args) == 1 and isinstance(args[0], LV): return self.read(st, args[0])
        return NotImplemented
    def in_NTL_Vec_NTL_ZZ_SetLength(self, fn, this, args, e, st, ct):
        self.safe(st, self.compare("<=", 0, args[0], "i64"), "SetLength of negative length", e["l"])
        self.write(st, this.sub("len"), args[0])
    def in_NTL_Vec_NTL_ZZ_length(self, fn, this, args, e, st, ct): return self.read(st, this.sub("len"))
    def in_NTL_Vec_NTL_ZZ_operator_(self, fn, this, args, e, st, ct):
        if fn["n"] == "operator[]": return self.vec_at(st, this, args[0], e["l"])
        if fn["n"] == "operator=": self.write(st, this, self.read(st, args[0])); return this
        return NotImplemented
    def in_NTL_Vec_NTL_ZZ_get(self, fn, this, args, e, st, ct): return self.read(st, self.vec_at(st, this, args[0], e["l"]))
    def in_NTL_Vec_NTL_ZZ_put(self, fn, this, args, e, st, ct): self.write(st, self.vec_at(st, this, args[0], e["l"]), self.zz(st, args[1]))
    def in_NTL_SetCoeff(self, fn, this, args, e, st, ct):
        a = self.pv(st, args[0]); i = self.toint(args[1], "i64")
        c = self.toint(self.gf(args[2], st), "i64") % 2 if len(args) > 2 else z3.IntVal(1)
        self.write(st, args[0], F("setcoeff", Poly, I, I, Poly)(a, i, z3.simplify(c))); return None
    def in_NTL_DivRem(self, fn, this, args, e, st, ct):
        a, b = self.pv(st, args[2]), self.pv(st, args[3])
        self.write(st, args[0], DIVp(a, b)); self.write(st, args[1], MODp(a, b)); return None
    def in_NTL_XGCD(self, fn, this, args, e, st, ct):
        a, b = self.pv(st, args[3]), self.pv(st, args[4])
        d = GCDp(a, b)
        self.write(st, args[0], d); self.write(st, args[1], F("xg1", Poly, Poly, Poly)(a, b)); self.write(st, args[2], F("xg2", Poly, Poly, Poly)(a, b)); return None
    def gen_state(self, st, lv): return self.g4(st, lv)
