"""C22: combined recursion-and-tempering searches."""
from equi import *
UNITS = ["rt.cpp"]
LEVEL = "proof"
NOTE = "AlgorithmRecursionAndTempering<uint32_t/uint64_t>::search (both overloads) and AlgorithmReducibleRecursionAndTempering<.., any generator class>::search, for every generator, parameter source, primitivity object, tempering objects and flags (verbose and no_lsb symbolic), callees by contract: recursion searches (C12, C13), parity search (C19), characteristic polynomial and annihilation (C13), tempering objects (C17, C18), defect (C15). Partial correctness: the outer retry loop has no bound in the source."
ASSUMPTIONS = ["1000*bitSize() fits in an int (bitSize() <= 2^20)", "the recursion search succeeds within 100000 rounds of 1000*bitSize() tries (the retry loop has no bound in the source)", "tempering objects change only tempering parameters and end with reverse output off (C17, C18)"]
TRUSTED = ["iostream output (not observed)", "time(), ctime()"]
P = lambda: frontend.load("rt.cpp")
ACCP = F("ACCPOLY", GP, GQ, GS, I, Poly); ACCOK = F("ACCEPTED", GP, GQ, GS, I, Poly, B)
FACP = F("FACPOLY", GP, GQ, GS, I, Poly)
CHARS = F("CHARS", GP, GQ, B, GS, Poly, GS); CHARP = F("CHARP", GP, GQ, B, GS, Poly, Poly)
ANNI = F("ANNI", GP, GS, Poly, GS)
PARF = lambda w: F("PARITYOF%d" % w, GP, GQ, B, GS, Poly, BVS(w))
PARS = F("PARITYSEARCH_S", GP, GQ, B, GS, Poly, GS)

class RTExec(EquiExec):
    pass

def search_contract(e, w, U, red):
    C = "MTToolBox::Algorithm%sRecursionSearch<%s>" % ("Reducible" if red else "", U)
    def ap(c, con):
        st = c.st; this = c.this
        g = e.read(st, this.sub("rand")); pg = e.read(st, this.sub("baseGenerator"))
        if not isinstance(g, LV) or not isinstance(pg, LV): raise Unsupported("search object without generator")
        rev = e.g4(st, g)[2]
        p, q, s = z3.Const(fresh_name("sp"), GP), z3.Const(fresh_name("sq"), GQ), z3.Const(fresh_name("ss"), GS)
        pos = z3.Int(fresh_name("spos")); n0 = e.toint(e.read(st, pg.sub("pos")), "i64")
        r = z3.Bool(fresh_name("found")); tc = e.toint(c.args[0], "i32")
        st.assume(pos >= n0, pos <= n0 + z3.If(tc > 0, tc, 0))
        cnt = e.toint(e.read(st, this.sub("count")), "i64"); e.write(st, this.sub("count"), cnt + (pos - n0)); 
        for f, v in (("p", p), ("q", q), ("rev", rev), ("s", s)): e.write(st, g.sub(f), v)
        e.write(st, pg.sub("pos"), pos); e.write(st, pg.sub("ap"), p); e.write(st, pg.sub("aq"), q); e.write(st, pg.sub("as"), s)
        st.assume(BS(p) == n_of(e, st))
        po = ACCP(p, q, s, pos); e.write(st, this.sub("poly"), po)
        if red: e.write(st, this.sub("irreducible"), FACP(p, q, s, pos)); st.assume(r == ACCOK(p, q, s, pos, FACP(p, q, s, pos)))
        else:
            prim = e.read(st, this.sub("isPrime")); nm = e.read(st, prim).f.get("name", "?") if isinstance(prim, LV) else "?"
            st.assume(r == ACCOK(p, q, s, pos, po)); st.ghost["prim"] = nm
        return r
    return Contract(C + "::start(i32)", apply=ap)
def n_of(e, st): return e.nbits

def eq_obj(e, x, lv): return isinstance(x, LV) and e.ptr_cmp("==", x, lv)

def mk(w, U, red, overload, dflt=False):
    G = "MTToolBox::AbsGen<%s>" % U
    C = "MTToolBox::AlgorithmRe%s<%s>" % ("cursionAndTempering", U) if not red else "MTToolBox::AlgorithmReducibleRecursionAndTempering<%s, %s>" % (U, G)
    def run(rep):
        p = P(); e = RTExec(p); e.separate_returns = True
        ks = [x for x in p.functions if x.startswith(C + "::search(") and x.count("AlgorithmTempering<") == (1 if overload else 2)]
        if len(ks) != 1: raise Unsupported("search overloads: %d" % len(ks))
        k = ks[0]
        st = State(); g = e.gen(st, "lg"); pg = e.pgen(st, "pg"); t1 = e.temper(st, "st1"); t2 = e.temper(st, "st2")
        p0, q0, r0, s0 = e.g4(st, g); e.nbits = BS(p0); st.assume(BS(p0) >= 1, BS(p0) <= 1 << 20)
        c = search_contract(e, w, U, red); e.contracts[c.key] = c
        prim = e.new_obj(st, Rec("MTToolBox::AlgorithmPrimitivity", {"name": "given"}), "prim"); e.otype[prim.oid] = "R:MTToolBox::AlgorithmPrimitivity"
        this = mkobj(e, st, C); e.write(st, this.sub("baseGenerator"), pg)
        e.write(st, this.sub("poly"), z3.Const("poly_before", Poly))
        if not red: e.write(st, this.sub("isPrime"), prim)
        if red:
            def parity(c, con):
                s = c.st; gg = c.args[0]; a, b, r, x = e.g4(s, gg); f = e.read(s, c.args[1])
                v = PARF(w)(a, b, r, x, f)
                e.write(s, gg.sub("p"), SETPP(w)(a, v)); e.write(s, gg.sub("s"), SETPV(w)(a, x, v))
                s.assume(BS(SETPP(w)(a, v)) == BS(a))
                return v
            kk = [x for x in p.functions if x.startswith("MTToolBox::AlgorithmCalculateParity<%s, %s>::searchParity(" % (U, G))][0]
            e.contracts[kk] = Contract(kk, apply=parity)
            def charp(c, con):
                s = c.st; gg = c.args[0]; a, b, r, x = e.g4(s, gg); f = e.read(s, c.args[1])
                e.write(s, c.args[1], CHARP(a, b, r, x, f)); e.write(s, gg.sub("s"), CHARS(a, b, r, x, f))
            kk = p.find("MTToolBox::calcCharacteristicPolynomial<%s>(*R:MTToolBox::ReducibleGenerator<%s>,&R:NTL::GF2X)" % (U, U))
            e.contracts[kk] = Contract(kk, apply=charp)
            def ann(c, con):
                s = c.st; gg = c.args[0]; a, b, r, x = e.g4(s, gg); e.write(s, gg.sub("s"), ANNI(a, x, e.read(s, c.args[1])))
            kk = p.find("MTToolBox::annihilate<%s>(*R:MTToolBox::EquidistributionCalculatable<%s>,&R:NTL::GF2X)" % (U, U))
            e.contracts[kk] = Contract(kk, apply=ann)
        verbose = z3.Bool("verbose"); nolsb = z3.Bool("no_lsb"); i1, i2 = e.read(st, t1).f["id"], e.read(st, t2).f["id"]
        os = e.new_obj(st, OPAQUE, "os")
        rep.cover("precondition", st.pc)
        def hints(c):
            try: i = e.toint(c.var("i"), "i32")
            except AnnotationMismatch: return
            c.assume(i >= 0, i <= 100000)
        for kk in [x for x in p.functions if x.startswith(C + '::search(')]: e.loopspecs[kk] = [LoopSpec(inv=lambda c: [("bit size", BS(e.g4(c.st, g)[0]) == BS(p0)), ("output mode untouched by the search", e.g4(c.st, g)[2] == r0),
            ("tempering not started", z3.And(e.toint(e.read(c.st, t1.sub("calls")), "i32") == 0, e.toint(e.read(c.st, t2.sub("calls")), "i32") == 0))] + ([]), force=True, hints=hints)]
        args = [g, t1, verbose, os] if overload else [g, t1, t2, verbose, os, nolsb]
        if dflt:                                                   # every optional argument left out: both temperings are used
            st.assume(z3.Not(nolsb)); args = [this, g, t1, t2]
            k = [x for x in p.functions if x.startswith("MTToolBox::searchDefaults%s<%s>(" % ("R" if red else "", U))][0]
        res, exc = e.verify(k, args, None if dflt else this, st)
        nret = 0
        for s, v in res:
            v = v if is_z3(v) else z3.BoolVal(bool(v)); nret += 1
            pf, qf, rf, sf = e.g4(s, g); posf = e.toint(e.read(s, pg.sub("pos")), "i64")
            a, b, x = (e.read(s, pg.sub(n)) for n in ("ap", "aq", "as"))
            O = lambda f, n: e.oblige(s, z3.Implies(v, f), n, "post")
            acc = FACP(a, b, x, posf) if red else ACCP(a, b, x, posf)
            po = e.read(s, this.sub("poly"))
            O(po == acc, "reported polynomial is the one the recursion search accepted" if not red else "reported polynomial is the irreducible factor found by the search")
            O(ACCOK(a, b, x, posf, acc), "true only after the recursion search succeeded")
            if not red: e.oblige(s, z3.BoolVal(s.ghost.get("prim") == "given"), "the configured primitivity test is used", "post")
            O(e.toint(e.read(s, this.sub("weight")), "i32") == WEIGHT(po), "reported weight is its number of terms")
            q2 = TEMPER(i2, pf, b, r0, sf); lsb = z3.BoolVal(False) if overload else z3.Not(nolsb)
            O(qf == z3.If(lsb, TEMPER(i1, pf, q2, z3.BoolVal(False), sf), TEMPER(i1, pf, b, r0, sf)), "LSB tempering (unless disabled), then MSB tempering, each once")
            n1, n2 = (e.toint(e.read(s, t.sub("calls")), "i32") for t in (t1, t2))
            O(z3.And(n1 == 1, n2 == z3.If(lsb, 1, 0)), "each tempering object is applied exactly once")
            O(z3.Not(rf), "reverse output is off at the end")
            O(e.toint(e.read(s, this.sub("delta")), "i32") == DELTA(pf, qf, rf, sf, z3.IntVal(w), BS(pf)), "reported defect is the total defect of the generator left behind")
            if red:
                par = PARF(w)(a, b, r0, x, acc)
                O(e.read(s, this.sub("parity")) == par, "reported parity is the one found")
                O(pf == SETPP(w)(a, par), "that parity is installed in the generator")
                s1 = SETPV(w)(a, x, par); one = MONO(z3.IntVal(0), z3.IntVal(1))
                O(sf == ANNI(pf, CHARS(pf, b, r0, s1, one), DIVp(CHARP(pf, b, r0, s1, one), acc)), "the state is projected to the factor's subspace before tempering")
            else: O(z3.And(pf == a, sf == x), "the generator keeps the accepted parameters")
        if not nret or exc: raise Unsupported("paths without a result")
        rep.take(e, k)
    return Task("%s search%s u%d" % ("reducible" if red else "recursion", " (one tempering)" if overload else " (optional arguments left out)" if dflt else "", w), run)

def getters(w, U, red):
    G = "MTToolBox::AbsGen<%s>" % U
    C = "MTToolBox::AlgorithmRecursionAndTempering<%s>" % U if not red else "MTToolBox::AlgorithmReducibleRecursionAndTempering<%s, %s>" % (U, G)
    def run(rep):
        p = P()
        for nm, f, so in (("getDelta()", "delta", I), ("getWeight()", "weight", I), ("getCharacteristicPolynomial()", "poly", Poly), ("getIrreducibleFactor()", "poly", Poly), ("getParity()", "parity", BVS(w))):
            ks = [x for x in p.functions if x.rstrip("c") == C + "::" + nm]
            if not ks: continue
            e = RTExec(p); st = State(); this = mkobj(e, st, C); e.write(st, this.sub(f), z3.Const("value", so))
            res, exc = e.verify(ks[0], [], this, st)
            for s, v in res:
                while isinstance(v, LV): v = e.read(s, v)
                e.oblige(s, v == z3.Const("value", so), nm + " reports the result", "post")
            if not res or exc: raise Unsupported("no result")
            rep.take(e, ks[0])
        e = RTExec(p); st = State(); this = mkobj(e, st, C, uninit=True); pg = e.pgen(st)
        k = [x for x in p.functions if x.startswith(C + "::<ctor>(&R:MTToolBox::ParameterGenerator")][0]
        prim = e.new_obj(st, Rec("MTToolBox::AlgorithmPrimitivity", {"name": "given"}), "prim"); e.otype[prim.oid] = "R:MTToolBox::AlgorithmPrimitivity"
        res, exc = e.verify(k, [pg] + ([] if red else [prim]), this, st)
        for s, v in res:
            e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub("baseGenerator")), pg), "parameter source", "post")
            if not red: e.oblige(s, e.ptr_cmp("==", e.read(s, this.sub("isPrime")), prim), "primitivity test", "post")
        if not res or exc: raise Unsupported("no result")
        rep.take(e, k)
    return Task("%s getters u%d" % ("reducible" if red else "recursion", w), run)

def tasks(tier):
    return [f for w, U in ((32, "unsigned int"), (64, "unsigned long")) for f in (mk(w, U, False, False), mk(w, U, False, True), mk(w, U, True, False), mk(w, U, False, False, True), mk(w, U, True, False, True), getters(w, U, False), getters(w, U, True))]
