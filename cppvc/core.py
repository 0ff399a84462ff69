"""cppvc core: symbolic execution of extracted C++ bodies against contracts.

Values:   python int/bool (concrete), z3 terms (BitVec, Int, Bool, abstract
          sorts), Rec, ArrV, LV (pointer target / reference), NULL, UNINIT.
"""
import re, time, itertools, os, sys
import z3

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    """Construct or shape outside the engine's dialect (tool limit)."""


class AnnotationMismatch(Unsupported):
    """A sidecar annotation does not fit the current source."""


class _Uninit:
    def __repr__(self): return "UNINIT"
UNINIT = _Uninit()


class _Null:
    def __repr__(self): return "NULL"
NULL = _Null()


class Opaque:
    """A value the properties do not look into (streams, strings)."""
    def __init__(self, what=""): self.what = what
    def __repr__(self): return "Opaque(%s)" % self.what
OPAQUE = Opaque()


class StrLit:
    def __init__(self, s): self.s = s


class FnVal:
    def __init__(self, fn): self.fn = fn


class Rec:
    __slots__ = ("cls", "f")
    def __init__(self, cls, f): self.cls, self.f = cls, f
    def with_(self, k, v):
        d = dict(self.f); d[k] = v
        return Rec(self.cls, d)
    def __repr__(self): return "Rec(%s,%s)" % (self.cls, list(self.f))


class ArrV:
    """Array of scalars (or of anything, with concrete indices only).
    base: z3 array or None; over: {int: value}; n: length (int/z3/None)."""
    __slots__ = ("et", "n", "base", "over")
    def __init__(self, et, n, base=None, over=None):
        self.et, self.n, self.base, self.over = et, n, base, over or {}
    def __repr__(self): return "ArrV(%s,%s,%d)" % (self.et, self.n, len(self.over))


class LV:
    """Location: object id + path (field names / indices)."""
    __slots__ = ("oid", "path")
    def __init__(self, oid, path=()): self.oid, self.path = oid, tuple(path)
    def sub(self, x): return LV(self.oid, self.path + (x,))
    def __repr__(self): return "LV(%s,%s)" % (self.oid, self.path)


def is_z3(v): return isinstance(v, z3.ExprRef)
def is_conc(v): return isinstance(v, (int, bool))

_INT = re.compile(r"^([iu])(\d+)$")


def int_ty(t):
    """(signed,width) or None; bool is (False,1)."""
    if t == "bool": return (False, 1)
    m = _INT.match(t)
    return (m.group(1) == "i", int(m.group(2))) if m else None


def wrap(v, t):
    s, w = int_ty(t)
    if t == "bool": return bool(v)
    v &= (1 << w) - 1
    if s and v >> (w - 1): v -= 1 << w
    return v


def arr_ty(t):
    m = re.match(r"^\[(\d*|\?)\](.*)$", t, re.S)
    return (m.group(1), m.group(2)) if m else None


_ctr = itertools.count()
def i2bv(v, w):
    c = const_choice(v, w) if z3.is_app_of(v, z3.Z3_OP_ITE) else None
    return z3.Int2BV(v, w) if c is None else c
def const_choice(v, w):
    """an integer chosen among constants by conditions, as a w-bit word (None: not of that form)"""
    if z3.is_int_value(v): return z3.BitVecVal(v.as_long(), w)
    if not z3.is_app_of(v, z3.Z3_OP_ITE): return None
    a, b = const_choice(v.arg(1), w), const_choice(v.arg(2), w)
    return None if a is None or b is None else z3.If(v.arg(0), a, b)


def fresh_name(p): return "%s!%d" % (p, next(_ctr))


class Schema:
    """Universally quantified hypothesis, instantiated on ground terms."""
    def __init__(self, sorts, fn, name="", trig=None):
        self.sorts, self.fn, self.name, self.trig = sorts, fn, name, trig
        self.done = set()


class ForallGoal:
    """Goal of the form forall x.. : guard -> body (skolemised when proved)."""
    def __init__(self, sorts, fn, name="q", trig=None): self.sorts, self.fn, self.name, self.trig = sorts, fn, name, trig


def bv_parts(v): return list(v.children()) if z3.is_app_of(v, z3.Z3_OP_CONCAT) else [v]

def bv_ext(hi, lo, v):
    """v[hi:lo], looking through concatenations and extractions"""
    if lo == 0 and hi == v.size() - 1: return v
    if z3.is_bv_value(v): return z3.BitVecVal(v.as_long() >> lo, hi - lo + 1)
    if z3.is_app_of(v, z3.Z3_OP_CONCAT):
        out, pos = [], v.size()
        for c in v.children():
            pos -= c.size()
            h, l = min(hi, pos + c.size() - 1), max(lo, pos)
            if h >= l: out.append(bv_ext(h - pos, l - pos, c))
        return bv_cat(out)
    if z3.is_app_of(v, z3.Z3_OP_EXTRACT): 
        l0 = v.params()[1]
        return bv_ext(hi + l0, lo + l0, v.children()[0])
    return z3.Extract(hi, lo, v)

def bv_cat(parts):
    """concatenation, joining adjacent pieces of one word"""
    out = []
    for p in parts:
        if out:
            q = out[-1]
            if z3.is_app_of(q, z3.Z3_OP_EXTRACT) and z3.is_app_of(p, z3.Z3_OP_EXTRACT) and q.children()[0].eq(p.children()[0]) and q.params()[1] == p.params()[0] + 1:
                out[-1] = bv_ext(q.params()[0], p.params()[1], p.children()[0]); continue
            if z3.is_bv_value(q) and z3.is_bv_value(p):
                out[-1] = z3.BitVecVal((q.as_long() << p.size()) | p.as_long(), q.size() + p.size()); continue
        out.append(p)
    return z3.Concat(*out) if len(out) > 1 else out[0]


class State:
    __slots__ = ("pc", "store", "env", "schemas", "dead", "ghost", "this", "fn")
    def __init__(self):
        self.pc, self.store, self.env, self.schemas = [], {}, {}, []
        self.dead, self.ghost, self.this, self.fn = False, {}, None, None
    def copy(self):
        s = State()
        s.pc, s.store, s.env, s.schemas = list(self.pc), dict(self.store), dict(self.env), list(self.schemas)
        s.dead, s.ghost, s.this, s.fn = self.dead, dict(self.ghost), self.this, self.fn
        return s
    def assign(self, o):
        for k in State.__slots__: setattr(self, k, getattr(o, k))
    def assume(self, *fs):
        for g in fs:
            if isinstance(g, (list, tuple)):
                for x in g: self.assume(x)
            elif isinstance(g, Schema): self.schemas.append(g)
            elif isinstance(g, ForallGoal): self.schemas.append(Schema(g.sorts, g.fn, g.name, g.trig))
            elif g is True: pass
            elif g is False: self.pc.append(z3.BoolVal(False))
            else: self.pc.append(g)


class Obl:
    def __init__(self, name, fn, line, kind, hyps, schemas, goal, cex=None):
        self.name, self.fn, self.line, self.kind = name, fn, line, kind
        self.hyps, self.schemas, self.goal, self.cex = hyps, schemas, goal, cex
        self.status, self.backend, self.time, self.model = None, None, 0.0, None


class LoopSpec:
    """inv(ctx)->list of (label, formula|ForallGoal); entry ghost via pre(ctx);
    after each havoc, ghost assumptions via hints(ctx)."""
    def __init__(self, inv=None, unroll=None, variant=None, hints=None, modifies=None, keep=None, body_end=None, on_exit=None, once=None, split=None, force=False):
        self.inv, self.unroll, self.variant, self.hints = inv, unroll, variant, hints
        self.modifies, self.keep, self.body_end, self.on_exit = modifies, keep, body_end, on_exit
        self.once = once
        self.force = force        # use the invariant even when the bound is a constant
        self.split = split        # case split after the loop: ctx -> [(formula, concretise(ctx))]


class Contract:
    """Machine-checked specification of one function of /repo (or an assumed
    one of a dependency: trusted=True)."""
    def __init__(self, key, requires=None, ensures=None, assigns=None, result=None, trusted=False, loops=None, setup=None, apply=None, note=""):
        self.key, self.requires, self.ensures, self.assigns = key, requires, ensures, assigns
        self.result, self.trusted, self.loops, self.setup = result, trusted, loops or [], setup
        self.apply, self.note = apply, note


class Program:
    def __init__(self, d):
        self.functions, self.records, self.globals = d["functions"], d["records"], d["globals"]
        self.gmap = {}
    def find(self, pat):
        """Unique function whose key equals pat, else matches as suffix/regex."""
        if pat in self.functions: return pat
        c = [k for k in self.functions if re.search(pat, k)]
        if len(c) != 1: raise AnnotationMismatch("function pattern %r matches %d functions: %s" % (pat, len(c), c[:4]))
        return c[0]
    def bases(self, cls):
        """all (transitive) bases"""
        out, todo = [], [cls]
        while todo:
            r = self.records.get(todo.pop())
            if not r: continue
            for b in r["bases"]:
                n = b["t"][2:] if b["t"].startswith("R:") else b["t"]
                if n not in out: out.append(n); todo.append(n)
        return out
    def all_fields(self, cls):
        out = []
        for c in [cls] + self.bases(cls):
            r = self.records.get(c)
            if r:
                for f in r["fields"]: out.append((c, f["n"], f["t"]))
        return out
    def resolve_virtual(self, cls, key):
        """most derived override of method `key` for dynamic class cls"""
        order = [cls] + self.bases(cls)
        targets = {key}
        changed = True
        while changed:
            changed = False
            for c in order:
                for m in self.records.get(c, {}).get("methods", []):
                    if m["key"] not in targets and any(o in targets for o in m["ov"]):
                        targets.add(m["key"]); changed = True
        for c in order:
            for m in self.records.get(c, {}).get("methods", []):
                if m["key"] in targets: return m["key"], m
        return key, None


class Ctx:
    """What contracts and invariants see."""
    def __init__(self, eng, st, args=None, this=None, old=None, result=None, extra=None, fkey=None):
        self.eng, self.st, self.args, self.this = eng, st, args or {}, this
        self.old, self.result, self.extra, self.fkey = old, result, extra or {}, fkey
    def var(self, name, st=None):
        st = st or self.st
        best = None
        for vid, (nm, lv) in st.env.items():
            if nm == name: best = lv
        if best is None: best = self.loopcounter(st)
        if best is None: raise AnnotationMismatch("no local variable %r in scope" % name)
        return self.eng.read(st, best)
    def loopcounter(self, st):
        """the only variable declared by the loop header (renamed counter)"""
        s = getattr(self, "loop", None)
        ini = s.get("i") if s else None
        vs = ini["v"] if isinstance(ini, dict) and "v" in ini and isinstance(ini["v"], list) else []
        vs = [v["id"] for v in vs if v["id"] in st.env]
        return st.env[vs[0]][1] if len(vs) == 1 else None
    def has_var(self, name): return any(nm == name for nm, _ in self.st.env.values())
    def varlv(self, name):
        best = None
        for vid, (nm, lv) in self.st.env.items():
            if nm == name: best = lv
        if best is None: best = self.loopcounter(self.st)
        if best is None: raise AnnotationMismatch("no local variable %r in scope" % name)
        return best
    def read(self, lv, *path, st=None):
        return self.eng.read(st or self.st, LV(lv.oid, lv.path + tuple(path)))
    def get(self, *path):                        # field of this
        return self.read(self.this, *path)
    def oldget(self, *path): return self.read(self.this, *path, st=self.old)
    def old_read(self, lv, *path): return self.read(lv, *path, st=self.old)
    def assume(self, *f): self.st.assume(*f)


class Engine:
    """One verification task."""
    def __init__(self, prog, contracts=None, intmode=(), idx="bv", heap=(), intr=None, safety=True, maxunroll=70, name=""):
        self.prog, self.contracts = prog, dict(contracts or {})
        self.intmode = set(intmode)
        self.idx = idx
        self.heap = list(heap)             # class names (or predicates) living in the symbolic heap
        self.intr = dict(intr or {})
        self.safety, self.maxunroll = safety, maxunroll
        self.obls, self.mute, self.exc = [], 0, []
        self.used_contracts, self.inlined, self.externs, self.assumed = set(), set(), set(), set()
        self.name = name
        self.cur = None
        self.loopspecs = {}                # fkey -> list[LoopSpec]
        self.loopcount = {}
        self.kindfilter = None
        self.absty = {}                    # type string -> z3 sort (abstract value types)
        self.defaults = {}                 # type string -> callable giving default-constructed value
        self.ptr_enc = {}
        self.loopid = {}
        self.check_feasible = True
        self.call_depth = 0
        self.trace = False
        self.axioms = []                   # schemas always available
        self.mods = set()
        self.heap_ghost = {}               # class -> {field: z3 sort} overriding layout
        self.branch_prune_ms = 500
        self._psolver = None
        self.facts = {}

    # ---------------------------------------------------------------- utils
    def find(self, pat): return self.prog.find(pat)
    def idxsort(self): return z3.IntSort() if self.idx == "int" else z3.BitVecSort(32)

    def is_heap(self, cls):
        for h in self.heap:
            if cls == h or (callable(h) and h(cls)): return True
        return False

    def repr_int(self, t): return t in self.intmode

    def fresh(self, t, name="v", st=None):
        it = int_ty(t)
        if t == "bool": return z3.Bool(fresh_name(name))
        if it:
            if self.repr_int(t):
                v = z3.Int(fresh_name(name))
                if st is not None: st.assume(self.range_of(v, t))
                return v
            return z3.BitVec(fresh_name(name), it[1])
        if t in self.absty: return z3.Const(fresh_name(name), self.absty[t])
        a = arr_ty(t)
        if a:
            n = int(a[0]) if a[0] not in ("", "?") else None
            return self.fresh_array(a[1], n, name, st)
        if t.startswith("R:"): return self.fresh_rec(t[2:], name, st)
        if t.startswith("*"):
            c = t[1:]
            if c.startswith("R:") and self.is_heap(c[2:]): return LV("H:" + c[2:], (z3.Int(fresh_name(name + ".ref")),))
        raise Unsupported("fresh value of type " + t)

    def range_of(self, v, t):
        s, w = int_ty(t)
        lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if s else (0, (1 << w) - 1)
        return z3.And(v >= lo, v <= hi)

    def elem_sort(self, t):
        it = int_ty(t)
        if t == "bool": return z3.BoolSort()
        if it: return z3.IntSort() if self.repr_int(t) else z3.BitVecSort(it[1])
        if t in self.absty: return self.absty[t]
        if t.startswith("*") or t in self.ptr_enc: return z3.IntSort()
        if t.startswith("R:"):
            r = self.prog.records.get(t[2:])
            if r and r["union"]: return z3.BitVecSort(r["bits"])
        return None

    def fresh_array(self, et, n, name="a", st=None):
        es = self.elem_sort(et)
        if es is not None:
            return ArrV(et, n, z3.Const(fresh_name(name), z3.ArraySort(self.idxsort(), es)))
        a = arr_ty(et)
        if n is not None and isinstance(n, int) and n <= 64:
            return ArrV(et, n, None, {i: self.fresh(et, "%s_%d" % (name, i), st) for i in range(n)})
        if et.startswith("R:"):
            return self.fresh_soa(et[2:], n, name, st)
        raise Unsupported("fresh array of " + et)

    def fresh_soa(self, cls, n, name, st=None):
        f = {}
        for (_, fn, ft) in self.fields_of(cls):
            f[fn] = self.fresh_array(ft, n, name + "." + fn, st)
        return Rec("SOA:" + cls, f)

    def fields_of(self, cls):
        if cls in self.heap_ghost: return [(cls, k, t) for k, t in self.heap_ghost[cls]]
        return self.prog.all_fields(cls)

    def fresh_rec(self, cls, name, st=None):
        r = self.prog.records.get(cls)
        if r is None: return OPAQUE
        if r["union"]: return z3.BitVec(fresh_name(name), r["bits"])
        f = {}
        for (_, fn, ft) in self.fields_of(cls):
            if ft.startswith("*") or ft.startswith("&"): f[fn] = UNINIT; continue
            f[fn] = self.fresh(ft, name + "." + fn, st)
        return Rec(cls, f)

    def uninit(self, t):
        """value of a default-initialised object of type t"""
        if t in self.defaults: return self.defaults[t]()
        a = arr_ty(t)
        if a:
            n = int(a[0]) if a[0] not in ("", "?") else None
            return ArrV(a[1], n, None, {})
        if t.startswith("R:"):
            r = self.prog.records.get(t[2:])
            if r is None: return OPAQUE
            if r["union"]: return UNINIT
            return Rec(t[2:], {fn: self.uninit(ft) for (_, fn, ft) in self.fields_of(t[2:])})
        return UNINIT

    def new_obj(self, st, val, hint="o"):
        oid = fresh_name(hint)
        st.store[oid] = val
        return LV(oid)

    # ----------------------------------------------------- integer helpers
    def z(self, v, t):
        """z3 term of a value of C type t in its natural representation"""
        if is_z3(v): return v
        if isinstance(v, (bool, int)):
            if t == "bool": return z3.BoolVal(bool(v))
            it = int_ty(t)
            if it:
                if self.repr_int(t): return z3.IntVal(int(v))
                return z3.BitVecVal(int(v), it[1])
            es = self.absty.get(t)
            if es is not None and es == z3.IntSort(): return z3.IntVal(int(v))
        raise Unsupported("no term for %r of type %s" % (v, t))

    def tobv(self, v, t):
        w = int_ty(t)[1]
        if isinstance(v, (bool, int)): return z3.BitVecVal(int(v), w)
        if z3.is_bool(v): return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
        if z3.is_int(v):
            cb = const_choice(v, w)
            if cb is not None: return cb
            # wrapped value If(i >= 0, i, i + 2^w): same low bits as i
            if z3.is_app_of(v, z3.Z3_OP_ITE) and w in (32, 64):
                c, a, b = v.children()
                if z3.is_app_of(c, z3.Z3_OP_GE) and c.arg(0).eq(a) and z3.is_app_of(b, z3.Z3_OP_ADD) and b.num_args() == 2 \
                        and any(b.arg(q).eq(a) and z3.is_int_value(b.arg(1 - q)) and b.arg(1 - q).as_long() % (1 << w) == 0 for q in (0, 1)): return i2bv(a, w)
            return i2bv(v, w)
        return v

    def toint(self, v, t):
        if isinstance(v, (bool, int)): return z3.IntVal(int(v))
        if z3.is_bool(v): return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        if z3.is_int(v): return v
        return z3.BV2Int(v, int_ty(t)[0])

    def tobool(self, v, t="bool"):
        if isinstance(v, (bool, int)): return bool(v)
        if v is NULL: return False
        if isinstance(v, (LV, StrLit)):
            if isinstance(v, LV) and v.oid.startswith("H:") and len(v.path) == 1: return v.path[0] != 0 if is_z3(v.path[0]) else v.path[0] != 0
            return True
        if z3.is_bool(v): return v
        if z3.is_int(v): return v != 0
        if z3.is_bv(v): return v != 0
        raise Unsupported("bool of %r" % (v,))

    def simp(self, v):
        if is_z3(v):
            if z3.is_bool(v):
                v2 = z3.simplify(v)
                if z3.is_true(v2): return True
                if z3.is_false(v2): return False
                return v2
            return z3.simplify(v)
        return v

    # ----------------------------------------------------------- obligations
    def oblige(self, st, goal, label, kind="assert", line=0):
        if self.mute or st.dead: return
        if goal is True: 
            self.obls.append(self._triv(label, kind, line)); return
        if kind == "safety" and not self.safety: return
        if isinstance(goal, (list, tuple)):
            for i, g in enumerate(goal):
                if isinstance(g, tuple): self.oblige(st, g[1], label + "." + g[0], kind, line)
                else: self.oblige(st, g, "%s.%d" % (label, i), kind, line)
            return
        if isinstance(goal, ForallGoal):
            sk = [z3.Const(fresh_name(goal.name), s) for s in goal.sorts]
            goal = goal.fn(*sk)
            if isinstance(goal, (list, tuple)):
                return self.oblige(st, list(goal), label, kind, line)
        if goal is False: goal = z3.BoolVal(False)
        if goal is True:
            self.obls.append(self._triv(label, kind, line)); return
        g2 = z3.simplify(goal) if kind == "safety" else goal
        if z3.is_true(g2):
            self.obls.append(self._triv(label, kind, line)); return
        fn = self.cur or self.name
        self.obls.append(Obl("%s: %s" % (fn, label), fn, line, kind, list(st.pc), list(st.schemas) + self.axioms, goal))

    def _triv(self, label, kind, line):
        o = Obl("%s: %s" % (self.cur or self.name, label), self.cur or self.name, line, kind, [], [], None)
        o.status, o.backend = "proved", "simplifier"
        return o

    def safe(self, st, goal, what, line):
        if goal is True or self.mute: 
            return
        if not self.safety:
            return
        self.oblige(st, goal, "%s@%d" % (what, line), "safety", line)
        # assume it afterwards, to avoid repeated reports of the same fault
        if is_z3(goal):
            f = z3.BoolRef(goal.as_ast(), goal.ctx); self.facts[id(f)] = f   # own object: told apart from branch conditions
            st.pc.append(f)

    # ------------------------------------------------------------ lvalues
    def idx_term(self, i, t=None):
        if isinstance(i, (int, bool)):
            return z3.IntVal(i) if self.idx == "int" else z3.BitVecVal(i, 32)
        if self.idx == "int":
            return i if z3.is_int(i) else z3.BV2Int(i)
        if z3.is_int(i): return i2bv(i, 32)
        w = i.size()
        if w == 32: return i
        if w < 32: return z3.ZeroExt(32 - w, i)
        return z3.Extract(31, 0, i)

    def dec(self, t, term):
        """z3 array element -> value of C type t"""
        if t in self.ptr_enc: return LV("H:" + self.ptr_enc[t], (term,))
        if t.startswith("*R:") and self.is_heap(t[3:]): return LV("H:" + t[3:], (term,))
        return term

    def enc(self, t, v):
        es = self.elem_sort(t)
        if isinstance(v, LV):
            if v.oid.startswith("H:") and len(v.path) == 1:
                r = v.path[0]
                return r if is_z3(r) else z3.IntVal(r)
            raise Unsupported("pointer to non-heap object stored in symbolic array")
        if v is NULL: return z3.IntVal(0)
        if v is UNINIT: return z3.Const(fresh_name("uninit"), es)
        if isinstance(v, (int, bool)):
            if es == z3.BoolSort(): return z3.BoolVal(bool(v))
            if es == z3.IntSort(): return z3.IntVal(int(v))
            return z3.BitVecVal(int(v), es.size())
        if is_z3(v):
            if v.sort() == es: return v
            if z3.is_int(v) and isinstance(es, z3.BitVecSortRef): return i2bv(v, es.size())
            if z3.is_bv(v) and es == z3.IntSort(): return z3.BV2Int(v, int_ty(t)[0] if int_ty(t) else False)
        raise Unsupported("cannot store %r in array of %s" % (v, t))

    def flush(self, a):
        """ArrV -> single z3 array term"""
        es = self.elem_sort(a.et)
        if es is None: raise Unsupported("symbolic index into array of " + a.et)
        base = a.base
        if base is None: base = z3.Const(fresh_name("uarr"), z3.ArraySort(self.idxsort(), es))
        for k in sorted(a.over): base = z3.Store(base, self.idx_term(k), self.enc(a.et, a.over[k]))
        return base

    def arr_read(self, a, i):
        if isinstance(a, Rec) and a.cls.startswith("SOA:"): raise Unsupported("SOA read")
        if is_z3(i):
            i = z3.simplify(i)
            if z3.is_bv_value(i): i = i.as_long()
            elif z3.is_int_value(i): i = i.as_long()
        if isinstance(i, int):
            if i in a.over: return a.over[i]
            if a.base is None: return UNINIT if a.et not in self.defaults else self.defaults[a.et]()
            return self.dec(a.et, z3.Select(a.base, self.idx_term(i)))
        if a.base is None and a.over and all(is_conc(v) for v in a.over.values()) and int_ty(a.et) and isinstance(a.n, int) and len(a.over) <= 64:
            # constant table: ite chain
            items = sorted(a.over.items())
            it = self.idx_term(i)
            r = self.z(items[-1][1], a.et)
            for k, v in reversed(items[:-1]): r = z3.If(it == self.idx_term(k), self.z(v, a.et), r)
            return r
        return self.dec(a.et, z3.Select(self.flush(a), self.idx_term(i)))

    def arr_write(self, a, i, v):
        if is_z3(i):
            i2 = z3.simplify(i)
            if z3.is_bv_value(i2) or z3.is_int_value(i2): i = i2.as_long()
        if isinstance(i, int):
            o = dict(a.over); o[i] = v
            return ArrV(a.et, a.n, a.base, o)
        return ArrV(a.et, a.n, z3.Store(self.flush(a), self.idx_term(i), self.enc(a.et, v)))

    def get_path(self, v, path, st=None):
        for k, p in enumerate(path):
            if isinstance(v, Rec):
                if v.cls.startswith("SOA:"):
                    # p is an index, next is a field
                    if k + 1 >= len(path):
                        return Rec(v.cls[4:], {f: self.arr_read_any(x, p) for f, x in v.f.items()})
                    fa = v.f.get(path[k + 1])
                    if fa is None: raise Unsupported("no field %s in %s" % (path[k + 1], v.cls))
                    return self.get_path(self.arr_read_any(fa, p), path[k + 2:], st)
                if p not in v.f: raise Unsupported("no field %s in %s" % (p, v.cls))
                v = v.f[p]
            elif isinstance(v, ArrV):
                if isinstance(p, str): raise Unsupported("field of array")
                v = self.arr_read(v, p)
            elif v is UNINIT and isinstance(p, str) and p in self.UNION:
                if k + 1 >= len(path): return ArrV("u%d" % self.UNION[p], 128 // self.UNION[p], None, {})
                return UNINIT
            elif z3.is_bv(v) and isinstance(p, str):   # union view: (member, idx)
                if k + 1 >= len(path):
                    w = self.UNION.get(p)
                    if w is None: raise Unsupported("union member " + p)
                    return ArrV("u%d" % w, v.size() // w, None, {i: self.union_get(v, p, (i,)) for i in range(v.size() // w)})
                return self.union_get(v, p, path[k + 1:])
            elif v is OPAQUE or isinstance(v, Opaque): return OPAQUE
            else:
                raise Unsupported("path %s into %r" % (path, v))
        return v

    def arr_read_any(self, a, i):
        if isinstance(a, ArrV): return self.arr_read(a, i)
        if isinstance(a, Rec) and a.cls.startswith("SOA:"):
            return Rec(a.cls[4:], {f: self.arr_read_any(x, i) for f, x in a.f.items()})
        raise Unsupported("array read of %r" % a)

    UNION = {"u8": 8, "u16": 16, "u": 32, "u32": 32, "u64": 64}
    def union_get(self, v, m, rest):
        w = self.UNION.get(m)
        if w is None or len(rest) != 1: raise Unsupported("union member %s%s" % (m, rest))
        i = rest[0]
        if isinstance(i, int): return bv_ext(w * i + w - 1, w * i, v)
        if z3.is_int(i) and z3.is_app_of(i, z3.Z3_OP_MOD):
            L = v.size() // w; r = bv_ext(v.size() - 1, v.size() - w, v)
            for k in range(L - 2, -1, -1): r = z3.If(i == k, bv_ext(w * k + w - 1, w * k, v), r)
            return r
        sh = z3.ZeroExt(v.size() - 32, self.bvidx(i)) * w
        return z3.Extract(w - 1, 0, z3.LShR(v, sh))

    def bvidx(self, i):
        if z3.is_int(i): return i2bv(i, 32)
        return z3.Extract(31, 0, i) if i.size() > 32 else z3.ZeroExt(32 - i.size(), i) if i.size() < 32 else i

    def union_set(self, v, m, rest, x, bits=None):
        w = self.UNION.get(m)
        if w is None or len(rest) != 1: raise Unsupported("union member %s%s" % (m, rest))
        if v is UNINIT: v = z3.BitVec(fresh_name("uninit"), bits or 128)
        n = v.size(); i = rest[0]
        x = x if is_z3(x) else z3.BitVecVal(x, w)
        if z3.is_int(x): x = i2bv(x, w)
        if isinstance(i, int):
            parts = []
            if w * i + w < n: parts += bv_parts(bv_ext(n - 1, w * i + w, v))
            parts.append(x)
            if i > 0: parts += bv_parts(bv_ext(w * i - 1, 0, v))
            return bv_cat(parts)
        if z3.is_int(i) and z3.is_app_of(i, z3.Z3_OP_MOD):
            L = n // w; r = self.union_set(v, m, (L - 1,), x)
            for k in range(L - 2, -1, -1): r = z3.If(i == k, self.union_set(v, m, (k,), x), r)
            return r
        sh = z3.ZeroExt(n - 32, self.bvidx(i)) * w
        mask = z3.BitVecVal((1 << w) - 1, n) << sh
        return (v & ~mask) | (z3.ZeroExt(n - w, x) << sh)

    def set_path(self, v, path, x, t=None):
        if not path: return x
        p = path[0]
        if isinstance(v, Rec):
            if v.cls.startswith("SOA:"):
                if len(path) == 1:
                    f = dict(v.f)
                    for k in f: f[k] = self.arr_write_any(f[k], p, x.f[k])
                    return Rec(v.cls, f)
                fa = v.f[path[1]]
                if len(path) == 2: return v.with_(path[1], self.arr_write_any(fa, p, x))
                sub = self.set_path(self.arr_read_any(fa, p), path[2:], x)
                return v.with_(path[1], self.arr_write_any(fa, p, sub))
            if p not in v.f: raise Unsupported("no field %s in %s" % (p, v.cls))
            return v.with_(p, self.set_path(v.f[p], path[1:], x))
        if isinstance(v, ArrV):
            if len(path) == 1: return self.arr_write(v, p, x)
            return self.arr_write(v, p, self.set_path(self.arr_read(v, p), path[1:], x))
        if (v is UNINIT or z3.is_bv(v)) and isinstance(p, str): return self.union_set(v, p, path[1:], x)
        raise Unsupported("write path %s into %r" % (path, v))

    def same_cell(self, a, i, x):
        """x is the value already stored at i"""
        return is_z3(x) and isinstance(a, ArrV) and z3.is_app_of(x, z3.Z3_OP_SELECT) and self.veq(self.arr_read(a, i), x)

    def arr_write_any(self, a, i, x):
        if isinstance(a, ArrV): return self.arr_write(a, i, x)
        if isinstance(a, Rec) and a.cls.startswith("SOA:"):
            return Rec(a.cls, {k: a.f[k] if self.same_cell(a.f[k], i, x.f[k]) else self.arr_write_any(a.f[k], i, x.f[k]) for k in a.f})
        raise Unsupported("array write")

    def read(self, st, lv):
        if not isinstance(lv, LV): raise Unsupported("read through %r" % (lv,))
        if lv.oid not in st.store:
            if lv.oid.startswith("H:"): self.init_heap(st, lv.oid[2:])
            else: raise Unsupported("dangling object " + lv.oid)
        return self.get_path(st.store[lv.oid], lv.path, st)

    def init_heap(self, st, cls):
        oid = "H:" + cls
        if oid not in st.store: st.store[oid] = self.heap0(cls)

    def heap0(self, cls):
        if not hasattr(self, "_h0"): self._h0 = {}
        if cls not in self._h0: self._h0[cls] = self.fresh_soa(cls, None, "heap." + cls.split("::")[-1])
        return self._h0[cls]

    def write(self, st, lv, x):
        if not isinstance(lv, LV): raise Unsupported("write through %r" % (lv,))
        if lv.oid not in st.store:
            if lv.oid.startswith("H:"): self.init_heap(st, lv.oid[2:])
            else: raise Unsupported("dangling object " + lv.oid)
        if lv.oid in self.readonly: raise Unsupported("write to constant object")
        st.store[lv.oid] = self.set_path(st.store[lv.oid], lv.path, x)

    readonly = frozenset()

    # ----------------------------------------------------------- merging
    def veq(self, a, b):
        if a is b: return True
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)): return a == b
        if is_z3(a) and is_z3(b): return a.eq(b)
        if isinstance(a, LV) and isinstance(b, LV):
            return a.oid == b.oid and len(a.path) == len(b.path) and all(self.veq(x, y) if not isinstance(x, str) and not isinstance(y, str) else x == y for x, y in zip(a.path, b.path))
        if isinstance(a, Opaque) and isinstance(b, Opaque): return True
        if isinstance(a, StrLit) and isinstance(b, StrLit): return a.s == b.s
        if isinstance(a, Rec) and isinstance(b, Rec):
            return a.cls == b.cls and a.f.keys() == b.f.keys() and all(self.veq(a.f[k], b.f[k]) for k in a.f)
        if isinstance(a, ArrV) and isinstance(b, ArrV):
            return a.et == b.et and self.veq(a.n, b.n) and (a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base))) and a.over.keys() == b.over.keys() and all(self.veq(a.over[k], b.over[k]) for k in a.over)
        return False

    def lift(self, v, like):
        """concrete -> z3 with the sort of `like`"""
        if is_z3(v): return v
        if isinstance(v, (int, bool)):
            s = like.sort()
            if s == z3.BoolSort(): return z3.BoolVal(bool(v))
            if s == z3.IntSort(): return z3.IntVal(int(v))
            if isinstance(s, z3.BitVecSortRef): return z3.BitVecVal(int(v), s.size())
        raise Unsupported("lift %r" % (v,))

    def ite(self, c, a, b, w=None):
        if c is True: return a
        if c is False: return b
        if self.veq(a, b): return a
        if a is UNINIT: return b     # reading it on that path was already checked
        if b is UNINIT: return a
        if is_z3(a) or is_z3(b):
            if not is_z3(a): a = self.lift(a, b)
            if not is_z3(b): b = self.lift(b, a)
            if a.sort() != b.sort():
                if z3.is_int(a) and z3.is_bv(b): a = i2bv(a, b.size())
                elif z3.is_bv(a) and z3.is_int(b): b = i2bv(b, a.size())
                else: raise Unsupported("ite sorts")
            return z3.If(c, a, b)
        if isinstance(a, bool) and isinstance(b, bool): return z3.If(c, z3.BoolVal(a), z3.BoolVal(b))
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            raise _NeedType(a, b)
        if isinstance(a, LV) and isinstance(b, LV) and a.oid == b.oid and len(a.path) == len(b.path):
            return LV(a.oid, tuple(x if (isinstance(x, str) or isinstance(y, str)) and x == y else self.ite_idx(c, x, y) for x, y in zip(a.path, b.path)))
        if isinstance(a, LV) and b is NULL and a.oid.startswith("H:"): return LV(a.oid, (self.ite_idx(c, a.path[0], 0),))
        if isinstance(b, LV) and a is NULL and b.oid.startswith("H:"): return LV(b.oid, (self.ite_idx(c, 0, b.path[0]),))
        if isinstance(a, Rec) and isinstance(b, Rec) and a.cls == b.cls:
            ft = {fn: t for (_, fn, t) in (self.fields_of(a.cls) if not a.cls.startswith("SOA:") else [])}
            return Rec(a.cls, {k: self.ite_t(c, a.f[k], b.f[k], ft.get(k)) for k in a.f})
        if isinstance(a, ArrV) and isinstance(b, ArrV) and a.et == b.et:
            n = a.n if self.veq(a.n, b.n) else self.ite_t(c, a.n, b.n, "u64")
            same = a.base is b.base or (a.base is not None and b.base is not None and a.base.eq(b.base))
            if same:
                try:
                    ov = {}
                    for k in set(a.over) | set(b.over):
                        va = a.over[k] if k in a.over else self.arr_read(a, k)
                        vb = b.over[k] if k in b.over else self.arr_read(b, k)
                        ov[k] = self.ite_t(c, va, vb, a.et)
                    return ArrV(a.et, n, a.base, ov)
                except _NeedType: raise
            return ArrV(a.et, n, z3.If(c, self.flush(a), self.flush(b)))
        if isinstance(a, Opaque) or isinstance(b, Opaque): return OPAQUE
        raise Unsupported("cannot merge %r / %r" % (a, b))

    def ite_idx(self, c, x, y):
        if self.veq(x, y): return x
        return self.ite_t(c, x, y, "i64" if self.idx == "int" else "u32") if not (is_conc(x) and is_conc(y)) or self.idx != "int" else z3.If(c, z3.IntVal(x), z3.IntVal(y))

    def ite_t(self, c, a, b, t):
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)) and a != b:
            if t is None or int_ty(t) is None:
                if isinstance(a, bool) or isinstance(b, bool): return z3.If(c, z3.BoolVal(bool(a)), z3.BoolVal(bool(b)))
                if t in self.absty: return z3.If(c, self.absconst(t, a), self.absconst(t, b))
                return z3.If(c, z3.IntVal(a), z3.IntVal(b))
            return z3.If(c, self.z(a, t), self.z(b, t))
        return self.ite(c, a, b)

    def absconst(self, t, v): return z3.IntVal(v)

    def merge(self, s1, s2):
        """merge two states with disjoint path suffixes; None if impossible"""
        if s1.dead: return s2
        if s2.dead: return s1
        if s1.ghost.get("#split") != s2.ghost.get("#split"): return None
        n = 0
        while n < len(s1.pc) and n < len(s2.pc) and s1.pc[n] is s2.pc[n]: n += 1
        a1, a2 = s1.pc[n:], s2.pc[n:]
        f1 = z3.And(*a1) if len(a1) > 1 else a1[0] if a1 else z3.BoolVal(True)
        f2 = z3.And(*a2) if len(a2) > 1 else a2[0] if a2 else z3.BoolVal(True)
        # facts assumed after a safety obligation are consequences, not choices
        b1, b2 = [x for x in a1 if id(x) not in self.facts], [x for x in a2 if id(x) not in self.facts]
        c = (z3.And(*b1) if len(b1) > 1 else b1[0]) if b1 and b2 else f1
        out = State()
        out.pc = s1.pc[:n]
        if a1 and a2 and z3.is_true(z3.simplify(a1[0] == z3.Not(a2[0]))):
            c = a1[0]
            for x in a1[1:]: out.pc.append(z3.Implies(c, x))
            for x in a2[1:]: out.pc.append(z3.Implies(a2[0], x))
        elif b1 and b2:
            c2 = z3.And(*b2) if len(b2) > 1 else b2[0]
            out.pc.append(z3.Or(c, c2))
            for cc, aa in ((c, a1), (c2, a2)):
                for x in aa:
                    if id(x) in self.facts:
                        f = z3.Implies(cc, x); self.facts[id(f)] = f; out.pc.append(f)
        elif a1 and a2: out.pc.append(z3.Or(f1, f2))
        elif a1 or a2:
            # one path is a strict extension of the other: only sound if the
            # longer one only added assumptions (never happens for branches)
            out.pc.append(z3.Or(f1, f2))
        keys = s1.store.keys() & s2.store.keys()
        try:
            for k in keys:
                a, b = s1.store[k], s2.store[k]
                out.store[k] = a if a is b else self.ite_t(c, a, b, self.otype.get(k))
            for k in s1.store.keys() ^ s2.store.keys():   # objects of one branch only
                out.store[k] = s1.store[k] if k in s1.store else s2.store[k]
            for v in s1.env.keys() & s2.env.keys():
                (n1, l1), (n2, l2) = s1.env[v], s2.env[v]
                if l1 is l2 or self.veq(l1, l2): out.env[v] = (n1, l1)
            for k in s1.ghost.keys() & s2.ghost.keys():
                a, b = s1.ghost[k], s2.ghost[k]
                out.ghost[k] = a if (a is b or self.veq(a, b)) else self.ite_t(c, a, b, None)
        except (Unsupported, _NeedType):
            return None
        seen = set(); sc = []
        common = set(map(id, s1.schemas)) & set(map(id, s2.schemas))
        for x in s1.schemas:
            if id(x) in common: sc.append(x)
            else: sc.append(Schema(x.sorts, (lambda fn, c: lambda *a: _imp(c, fn(*a)))(x.fn, c), x.name, x.trig))
        for x in s2.schemas:
            if id(x) not in common: sc.append(Schema(x.sorts, (lambda fn, c: lambda *a: _imp(z3.Not(c), fn(*a)))(x.fn, c), x.name, x.trig))
        out.schemas = sc
        out.this, out.fn = s1.this, s1.fn
        return out

    @property
    def otype(self):
        if not hasattr(self, "_otype"): self._otype = {}
        return self._otype

    def merge_all(self, sts):
        sts = [s for s in sts if not s.dead]
        if not sts: return []
        out = [sts[0]]
        for s in sts[1:]:
            m = self.merge(out[-1], s)
            if m is None: out.append(s)
            else: out[-1] = m
        return out

    # ---------------------------------------------------------- feasibility
    def feasible(self, st, c):
        """False only if pc & c is certainly unsatisfiable"""
        c = self.simp(c)
        if c is True: return True
        if c is False: return False
        if not self.check_feasible: return True
        key = (len(st.pc), c.get_id())
        s = z3.Solver(); s.set("timeout", self.branch_prune_ms)
        s.add(*[p for p in st.pc]); s.add(c)
        return s.check() != z3.unsat


class _NeedType(Exception): pass

def _imp(c, f):
    if isinstance(f, (list, tuple)): return [_imp(c, x) for x in f]
    if f is True: return True
    if f is False: return z3.Not(c)
    return z3.Implies(c, f)
