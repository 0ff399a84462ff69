"""C17: partial bit pattern tempering."""
from equi import *
UNITS = ["rt.cpp"]
LEVEL = "proof"
NOTE = "AlgorithmPartialBitPattern for the five instances the samples and tests use: search_best_temper executed symbolically for every window the algorithm visits (all 2^size patterns of the window; the loop bound is a template constant, so the loop is unrolled completely), for an arbitrary generator, tempering state, parameter slot and defect function; operator() against its contract: window order, slots, reverse-output mode. The generator interface (masked overwrite of one parameter, C07) and the total defect (C15) are used by contract."
ASSUMPTIONS = ["setTemperingPattern overwrites exactly the masked bits of one parameter and setUpTempering only derives from the parameters: writing the same mask and slot again forgets the earlier write", "the total defect is a function of the generator's components, at least 0 and at most size*width (C15)", "bit_len equals the word size (all uses)"]
TRUSTED = ["iostream output (not observed)"]
P = lambda: frontend.load("rt.cpp")
INST = [(32, "unsigned int", 1, 23, 6, False), (32, "unsigned int", 4, 23, 5, False), (32, "unsigned int", 1, 9, 5, True), (32, "unsigned int", 4, 9, 5, True), (64, "unsigned long", 2, 63, 6, False)]
def PC(w): return F("POPC%d" % w, BVS(w), I)
def BEST(w): return F("BESTQ%d" % w, GP, GQ, B, GS, I, I, I, GQ)
def cname(w, U, n, t, s, l): return "MTToolBox::AlgorithmPartialBitPattern<%s, %d, %d, %d, %d, %s>" % (U, w, n, t, s, "true" if l else "false")
def keyof(p, C, n):
    k = [x for x in p.functions if x.startswith(C + "::" + n + "(")]
    if len(k) != 1: raise Unsupported("%s: %d functions" % (n, len(k)))
    return k[0]
class PExec(EquiExec):
    kvb = False
    def rewrite(self, w, t):
        """SETUPT(TEMPQ(SETUPT(TEMPQ(q,m,a,i)),m,b,i)) = SETUPT(TEMPQ(q,m,b,i))"""
        tq = TEMPQ(w)
        d = lambda x, f: z3.is_app(x) and x.decl().eq(f)
        x = t.arg(1)
        if d(x, tq):
            y = x.arg(1)
            if d(y, SETUPT):
                z = y.arg(1)
                if d(z, tq) and z.arg(2).eq(x.arg(2)) and z.arg(4).eq(x.arg(4)):
                    return SETUPT(t.arg(0), tq(x.arg(0), z.arg(1), x.arg(2), x.arg(3), x.arg(4)))
        return t
    def gen_call(self, fn, this, args, st, line):
        if fn["n"] == "setTemperingPattern":
            w = self.uw(fn["ps"][0]); p, q, r, s = self.g4(st, this)
            m, v = (self.zw(args[i], fn["ps"][i], st) for i in (0, 1)); 
            self.write(st, this.sub("q"), TEMPQ(w)(p, q, z3.simplify(m), z3.simplify(v), self.toint(args[2], "i32"))); self.ww = w; self.assumed.add("interface contract: setTemperingPattern"); return None
        r = super().gen_call(fn, this, args, st, line)
        if fn["n"] == "setUpTempering": self.write(st, this.sub("q"), self.rewrite(getattr(self, "ww", 32), self.g4(st, this)[1]))
        return r
    # -- cut points: at every defect evaluation the pair (least defect, pattern)
    # held by two local variables (found by what they satisfy, not by name) is
    # replaced by fresh values that satisfy the invariant just proved
    cut = None
    def equi_call(self, fn, this, args, st, line):
        if self.cut and fn["key"].split("(")[0].endswith("::get_all_equidist"):
            self.cut(st)
            r = super().equi_call(fn, this, args, st, line)
            q = self.read(st, this.sub("q"))
            if z3.is_app(q) and q.decl().name().startswith("SETUPT") and q.arg(1).decl().name().startswith("TEMPQ"):
                x = z3.simplify(q.arg(1).arg(3))
                if z3.is_bv_value(x): st.assume(PC(x.size())(x) == bin(x.as_long()).count("1"))
            st.ghost["evaluated"] = st.ghost.get("evaluated", ()) + (q,)
            return r
        return super().equi_call(fn, this, args, st, line)
def scalars(e, st):
    for oid, v in list(st.store.items()):
        if is_z3(v) and (z3.is_int(v) or z3.is_bv(v)) and not z3.is_const(v) : yield oid, v
def count_contracts(e, w):
    for k in [x for x in e.prog.functions if re.search(r"::count_bit(<.*>)?\(u%d\)$" % w, x)]:
        def ap(c, con):
            x = e.zw(c.args[0], "u%d" % w, c.st); r = PC(w)(x); c.st.assume(r >= 0, r <= w); return r
        e.contracts[k] = Contract(k, apply=ap)
def windows(t, s): return [(a, min(a + s, t)) for a in range(0, t, s)]
def pats(w, lo, hi, lsb):
    pos = [b if lsb else w - 1 - b for b in range(lo, hi)]
    for k in range(1 << len(pos)): yield sum(1 << pos[j] for j in range(len(pos)) if k >> j & 1)

def window(inst, lo, hi):
    w, U, n, t, s, lsb = inst
    def run(rep):
        p = P(); e = PExec(p); C = cname(*inst); k = keyof(p, C, "search_best_temper"); count_contracts(e, w)
        st = State(); g = e.gen(st, "g"); this = mkobj(e, st, C); idx = z3.Int("slot"); st.assume(idx >= 0, idx < n)
        p0, q0, r0, s0 = e.g4(st, g); st.assume(BS(p0) >= 1, BS(p0) <= 1 << 22)
        verbose = z3.Bool("verbose")
        rep.cover("precondition", st.pc)
        mask = 0; ps = list(pats(w, lo, hi, lsb))
        for x in ps: mask |= x
        st.assume(PC(w)(bv(0, w)) == 0)
        M = bv(mask, w)
        Q = lambda x: SETUPT(p0, TEMPQ(w)(p0, q0, M, x if is_z3(x) else bv(x, w), idx))
        D = lambda q: DELTA(p0, q, r0, s0, z3.IntVal(w), BS(p0))
        Y = z3.BitVec("any_pattern", w); st.assume(D(Q(Y)) >= 0, D(Q(Y)) <= BS(p0) * w, PC(w)(Y) >= 0)
        def inv(s, x, m):
            return z3.And(x & ~M == 0, z3.Or(m == D(Q(x)), z3.And(x == 0, m == BS(p0) * w)),
                z3.Implies(z3.Or([Y == q.arg(1).arg(3) for q in s.ghost.get("evaluated", ()) if q.decl().eq(SETUPT)]), z3.And(m <= D(Q(Y)), z3.Implies(m == D(Q(Y)), PC(w)(Y) <= PC(w)(x)))))
        def cut(s):
            if len(s.ghost.get("evaluated", ())) < 2: return
            t = s.copy(); c0 = s.ghost.get("cutpos", nb); t.pc = s.pc[:nb] + s.pc[c0:]      # fewer hypotheses: base facts and those since the last cut
            xs = [(o, v) for o, v in scalars(e, s) if z3.is_bv(v) and v.size() == w]; ms = [(o, v) for o, v in scalars(e, s) if z3.is_int(v)]
            for ox, x in xs:
                for om, m in ms:
                    S = z3.Solver(); S.set("timeout", 4000); S.add(t.pc); S.add(z3.Not(inv(s, x, m)))
                    if S.check() != z3.unsat: continue
                    e.oblige(t, inv(s, x, m), "running best of the patterns tried so far (%d)" % len(s.ghost["evaluated"]), "inv")
                    nx, nm = z3.BitVec(fresh_name("best"), w), z3.Int(fresh_name("least")); s.store[ox], s.store[om] = nx, nm; s.ghost["cutpos"] = len(s.pc)
                    s.assume(inv(s, nx, nm), PC(w)(nx) >= 0, PC(w)(nx) <= w, nm >= 0, nm <= BS(p0) * w)
                    return
            raise Unsupported("no local variables hold the best pattern so far")
        e.cut = cut; e.check_feasible = False; nb = len(st.pc)
        res, exc = e.verify(k, [g, lo, idx, hi, verbose], this, st)
        for st1, v in res:
            if "cutpos" in st1.ghost: st1 = st1.copy(); st1.pc = st1.pc[:nb] + st1.pc[st1.ghost["cutpos"]:]
            pf, qf, rf, sf = e.g4(st1, g)
            e.oblige(st1, z3.And(pf == p0, rf == r0, sf == s0), "only the tempering parameters change", "post")
            # the pattern installed
            z = z3.simplify(qf); x = None
            if z.decl().eq(SETUPT) and qf.arg(1).decl().eq(TEMPQ(w)): x = qf.arg(1).arg(3)
            if x is None: x = z3.BitVec("installed", w); st1.assume(z3.Or([z3.And(qf == Q(y), x == bv(y, w)) for y in ps] + [x == 1]))
            e.oblige(st1, qf == Q(x), "the window of the parameter holds one pattern, the rest of the parameter is untouched", "post")
            e.oblige(st1, x & ~M == 0, "the pattern lies inside the window", "post")
            e.oblige(st1, z3.Implies(Y & ~M == 0, z3.And(D(Q(x)) <= D(Q(Y)), z3.Implies(D(Q(x)) == D(Q(Y)), PC(w)(Y) <= PC(w)(x)))), "no pattern of the window is better than the one kept", "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("window u%d/%d%s [%d,%d)" % (w, n, " lsb" if lsb else "", lo, hi), run)

def outer(inst):
    w, U, n, t, s, lsb = inst
    def run(rep):
        p = P(); e = PExec(p); C = cname(*inst); k = keyof(p, C, "operator()"); kb = keyof(p, C, "search_best_temper")
        def ap(c, con):
            st = c.st; g = c.args[0]; lo, i, hi = c.args[1], c.args[2], c.args[3]; P_, Q_, r, S_ = e.g4(st, g)
            e.oblige(st, z3.And(e.toint(i, "i32") >= 0, e.toint(i, "i32") < n, z3.BoolVal(is_conc(lo) and is_conc(hi) and (int(lo), int(hi)) in windows(t, s))), "precondition of search_best_temper: a verified window and slot", "pre")
            e.write(st, g.sub("q"), BEST(w)(P_, Q_, r, S_, e.toint(lo, "i32"), e.toint(hi, "i32"), e.toint(i, "i32")))
            return e.fresh("i32", "bestdelta", st)
        e.contracts[kb] = Contract(kb, apply=ap)
        st = State(); g = e.gen(st, "g"); this = mkobj(e, st, C); p0, q0, r0, s0 = e.g4(st, g)
        res, exc = e.verify(k, [g, z3.Bool("verbose")], this, st)
        q = q0
        for lo, hi in windows(t, s):
            for i in range(n): q = BEST(w)(p0, q, z3.BoolVal(lsb), s0, z3.IntVal(lo), z3.IntVal(hi), z3.IntVal(i))
        for st1, v in res:
            pf, qf, rf, sf = e.g4(st1, g)
            e.oblige(st1, qf == q, "windows from the outer end inward, every slot, searched in the right output mode", "post")
            e.oblige(st1, z3.And(pf == p0, sf == s0), "only the tempering parameters change", "post")
            e.oblige(st1, z3.Not(rf), "reverse output is off at the end", "post")
            e.oblige(st1, e.toint(v, "i32") == 0, "returns 0", "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
        k = [x for x in p.functions if x.startswith(C + "::isLSBTempering(")]
        e = PExec(p); st = State(); this = mkobj(e, st, C); res, exc = e.verify(k[0], [], this, st)
        for st1, v in res: e.oblige(st1, (v if is_z3(v) else z3.BoolVal(bool(v))) == lsb, "reports its mode", "post")
        if not res or exc: raise Unsupported("paths without a result")
        rep.take(e, k[0])
    return Task("search order u%d/%d%s" % (w, n, " lsb" if lsb else ""), run)

def tasks(tier):
    T = []
    for i in INST:
        T.append(outer(i)); T += [window(i, lo, hi) for lo, hi in windows(i[3], i[4])]
    return T
