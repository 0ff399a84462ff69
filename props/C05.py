"""C05: every bundled generator is GF(2)-linear in its state."""
from gens import *
UNITS = [g.unit for g in GENS]
LEVEL = "proof"
NOTE = "Relational contracts on the real methods: three runs of generate() from states V1, V2 and V1^V2 (independent cursors, any size, any parameters satisfying the class invariant) give outputs and states related by XOR; add() forms V1^V2; setZero() the zero state, from which generate() gives zero and zero."
ASSUMPTIONS = ["class invariant of the parameters (positions inside the state, usable shift amounts, XOR-linear MTGP tables), established by setUpParam/setUpTempering (C23)",
               "the two states added have the same parameters and size, and are different objects", "NON_LINEAR variant of TinyMT not compiled"]
TRUSTED = ["x % n for 0 <= x < 3n written as conditional subtraction (built-in simplification rule of the engine)"]

def ringpart(g, e, lv): return g.ring is not None

def in_array(A, w):
    while z3.is_app(A) and A.decl().kind() == z3.Z3_OP_STORE:
        if A.children()[2].eq(w): return True
        A = A.children()[0]
    return False

def step_linear(g):
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "g1"); b = g.make(e, st, "g2", like=a); c = g.make(e, st, "g3", like=a)
        for x, y, z in zip(*(g.scalars(e, st, o) for o in (a, b, c))): st.assume(z == x ^ y)
        H = None; trip = list(zip(*(g.scalars(e, st, o) for o in (a, b, c))))
        if g.ring:
            Va, Vb, Vc = (g.V(e, st, o) for o in (a, b, c)); n = g.n(e, st, a)
            H = lambda r: z3.Implies(z3.And(r >= 0, r < n), Vc(r) == Va(r) ^ Vb(r))
            cells = [[], [], []]
            for q, o in enumerate(g.ring_offsets(e, st, a)):
                ws = []
                for z, (lv, l) in enumerate(((a, "a"), (b, "b"), (c, "c"))):
                    A = g.array(e, st, lv); w = z3.Const(fresh_name("%s.V%d" % (l, q)), A.sort().range()); ws.append(w)
                    cells[z].append((modn(g.cursor(e, st, lv) + o, n), w, o))
                trip.append(tuple(ws))
                # the offset is inside the ring: obligation, then instance of the hypothesis
                e.oblige(st, z3.And(o >= 0, o < n), "offset %d of the view is inside the ring" % q, "post")
                st.assume(ws[2] == ws[0] ^ ws[1])
            for z, lv in enumerate((a, b, c)): e.name_cells(st, g.array(e, st, lv), cells[z])
        rep.cover("three related states", st.pc)
        k = g.key(e, "generate", "")
        for s1, o1 in runs(e, st, k, [], a):
            for s2, o2 in runs(e, s1, k, [], b):
                for s3, o3 in runs(e, s2, k, [], c):
                    e.lock_init(s3, trip)
                    val = lambda v: e.read(s3, v) if isinstance(v, LV) else v
                    O = tuple(val(o) if g.out == "w128" else e.z(val(o), g.out) for o in (o1, o2, o3))
                    e.oblige_linear(s3, O, "output of the sum is the XOR of the outputs")
                    for (p, _), x, y, z in zip(g.scal, *(g.scalars(e, s3, o) for o in (a, b, c))):
                        e.oblige_linear(s3, (x, y, z), "state word %s of the sum" % p)
                    if g.ring:
                        # words written by the three runs are related
                        st2 = s3.copy()
                        wr = [[w for w, v in e.defs.values() if in_array(g.array(e, s3, o), w)] for o in (a, b, c)]
                        for ws in zip(*wr):
                            e.oblige_linear(s3, ws, "word stored by the sum"); st2.assume(ws[2] == ws[0] ^ ws[1])
                        r = z3.Int(fresh_name("r"))
                        st2.pc = [f for f in st2.pc if e.arith_only(f)] + [f for f in st2.pc if not e.arith_only(f) and z3.is_eq(f)]
                        st2.assume(r >= 0, r < n, H(r), H(modn(r + 1, n)))
                        Ua, Ub, Uc = (g.V(e, s3, o) for o in (a, b, c))
                        e.oblige(st2, Uc(r) == Ua(r) ^ Ub(r), "ring state of the sum, every offset", "post")
                    for o, l in ((a, "first"), (b, "second"), (c, "sum")):
                        e.oblige(s3, z3.And([z3.BoolVal(True)] + g.inv(e, s3, o)), "class invariant kept (%s)" % l, "post")
                        for nme, f in g.same_params(e, s3, o, st, o): e.oblige(s3, f, "parameter %s unchanged (%s)" % (nme, l), "post")
        rep.take(e, k)
    return run

def adding(g):
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "g1"); b = g.make(e, st, "g2", like=a)
        ks = [k for k in e.prog.functions if k.startswith(g.cls + "::add(&R:MTToolBox::Equi")]
        if len(ks) != 1: raise AnnotationMismatch("add")
        k = ks[0]
        rep.cover("two states", st.pc)
        spec = None
        if g.ring:
            n = g.n(e, st, a); Va, Vb = g.V(e, st, a), g.V(e, st, b)
            A0 = g.array(e, st, a); ca, cb = g.cursor(e, st, a), g.cursor(e, st, b)
            B0 = g.array(e, st, b)
            def inv(c):
                A = g.array(e, c.st, a); i = e.z(c.var("i"), "i32")
                # B0 and the cursors are unchanged during the loop (frame)
                return [("range", z3.And(i >= 0, i <= n)), ("addee unchanged", z3.And(g.array(e, c.st, b) == B0, g.cursor(e, c.st, a) == ca, g.cursor(e, c.st, b) == cb)),
                        ("words before i added, others unchanged", ForallGoal([IDX], lambda r: z3.Implies(z3.And(r >= 0, r < n), z3.Select(A, modn(ca + r, n)) == z3.If(r < i, Va(r) ^ Vb(r), Va(r))), trig=consts_trig))]
            spec = [LoopSpec(inv=inv, force=True, variant=lambda c: n - e.z(c.var("i"), "i32"))]
            e.loopspecs[k] = spec
            for k2 in e.prog.functions:
                if k2.startswith(g.cls + "::add(*"): e.loopspecs[k2] = spec
        old = st.copy()
        for s, _ in runs(e, st, k, [b], a):
            for (p, _), x, y, z in zip(g.scal, g.scalars(e, old, a), g.scalars(e, old, b), g.scalars(e, s, a)): e.oblige(s, z == x ^ y, "state word %s" % p, "post")
            for (p, _), x, y in zip(g.scal, g.scalars(e, old, b), g.scalars(e, s, b)): e.oblige(s, x == y, "addend word %s unchanged" % p, "post")
            if g.ring:
                U = g.V(e, s, a); Ub = g.V(e, s, b)
                e.oblige(s, ForallGoal([IDX], lambda r: z3.Implies(z3.And(r >= 0, r < n), z3.And(U(r) == Va(r) ^ Vb(r), Ub(r) == Vb(r)))), "ring state is the XOR, addend unchanged", "post")
            for o, l in ((a, "addee"), (b, "addend")):
                e.oblige(s, z3.And([z3.BoolVal(True)] + g.inv(e, s, o)), "class invariant kept (%s)" % l, "post")
                for nme, f in g.same_params(e, s, o, old, o): e.oblige(s, f, "parameter %s unchanged (%s)" % (nme, l), "post")
        rep.take(e, k)
    return run

def setzero_loops(g, e, st, a, n):
    def inv(c):
        A = g.array(e, c.st, a); i = e.z(c.var("i"), "i32")
        return [("range", z3.And(i >= 0, i <= n)), ("words before i are zero", ForallGoal([IDX], lambda q: z3.Implies(z3.And(q >= 0, q < i), z3.Select(A, q) == 0)))]
    return [LoopSpec(inv=inv, force=True, variant=lambda c: n - e.z(c.var("i"), "i32"))]

def zero(g):
    """setZero gives the zero view; from it generate() gives 0 and the zero view"""
    def run(rep):
        e = g.engine(); st = State()
        a = g.make(e, st, "g"); k = g.key(e, "setZero")
        if g.ring and not isinstance(g.ring[1], int) or g.ring:
            n = g.n(e, st, a); e.loopspecs[k] = setzero_loops(g, e, st, a, n)
        old = st.copy()
        for s, _ in runs(e, st, k, [], a):
            for (p, _), x in zip(g.scal, g.scalars(e, s, a)): e.oblige(s, x == 0, "state word %s zero" % p, "post")
            if g.ring:
                U = g.V(e, s, a); e.oblige(s, ForallGoal([IDX], lambda r: z3.Implies(z3.And(r >= 0, r < n), U(r) == 0)), "ring state zero", "post")
            e.oblige(s, z3.And([z3.BoolVal(True)] + g.inv(e, s, a)), "class invariant", "post")
            for nme, f in g.same_params(e, s, a, old, a): e.oblige(s, f, "parameter %s unchanged" % nme, "post")
        rep.take(e, k)
        e = g.engine(); st = State()
        a = g.make(e, st, "g")
        for x in g.scalars(e, st, a): st.assume(x == 0)
        H = None
        if g.ring:
            V = g.V(e, st, a); n = g.n(e, st, a)
            H = g.hyp(st, lambda r: V(r) == 0, g.ring_offsets(e, st, a), n)
        rep.cover("zero state", st.pc)
        k = g.key(e, "generate", "")
        for s, v in runs(e, st, k, [], a):
            v = e.read(s, v) if isinstance(v, LV) else v
            e.oblige(s, (v if is_z3(v) else bv(v, g.w)) == 0, "zero state outputs zero", "post")
            for (p, _), x in zip(g.scal, g.scalars(e, s, a)): e.oblige(s, x == 0, "state word %s stays zero" % p, "post")
            if g.ring:
                U = g.V(e, s, a); r = z3.Int(fresh_name("r")); s2 = s.copy()
                s2.assume(r >= 0, r < n, H(r), H(modn(r + 1, n)))
                e.oblige(s2, U(r) == 0, "ring state stays zero", "post")
        rep.take(e, k)
    return run

def tasks(tier):
    T = []
    for g in GENS:
        T.append(Task(g.name + " step", step_linear(g), weight=5))
        T.append(Task(g.name + " add", adding(g), weight=3))
        T.append(Task(g.name + " zero", zero(g), weight=2))
    return T
