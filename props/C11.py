"""C11: prime factor tables."""
from absgen import *
import tabs, C09, json, os, re
UNITS = ["period.cpp", "prim.cpp"]
LEVEL = "proof"
NOTE = "Every table prime_factors2_N_1 in the current source: both readers (isPrime(poly,n,table) and the AlgorithmPrimitivity constructor) executed symbolically on the extracted table deliver exactly the listed integers; each integer is prime (Lucas/Pratt certificates for q-1, checked on every run), they are distinct, and removing all of their powers from 2^N-1 leaves 1."
ASSUMPTIONS = ["NTL operator>> and string streams read decimal numbers"]
TRUSTED = ["exact integer arithmetic of Python for the certificate check", "Lucas' primality criterion"]
CERT = json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "pratt.json")))
EXPECT = [128, 160, 192, 224, 256, 288, 320, 352, 384, 416, 448, 480, 512, 544, 640, 800, 960]

_p = {}
def prime(q):
    """Lucas/Pratt: q prime iff some a has order q-1 modulo q"""
    if q in _p: return _p[q]
    if q < 1 << 20: r = q > 1 and all(q % d for d in range(2, int(q ** .5) + 1))
    else:
        f = CERT.get(str(q)); r = False
        if f:
            f = {int(k): v for k, v in f.items()}; m = 1
            for k, v in f.items(): m *= k ** v
            if m == q - 1 and all(prime(k) for k in f):
                r = any(pow(a, q - 1, q) == 1 and all(pow(a, (q - 1) // k, q) != 1 for k in f) for a in range(2, 200))
    _p[q] = r; return r

def composite(q):
    return q < 2 or pow(3, q - 1, q) != 1 and q != 3 or pow(2, q - 1, q) != 1 and q != 2

def table_rows(p, name):
    g = [x for x in p.globals.values() if x.get("n") == name]
    if not g: raise AnnotationMismatch("no table " + name)
    rows = []
    for a in g[0]["init"]["args"]:
        while a.get("k") == "cast": a = a["e"]
        if a["k"] == "str": rows.append(a["v"])
        else: break
    else: raise Unsupported("table %s has no terminator" % name)
    return rows

def table_task(n):
    name = "prime_factors2_%d_1" % n
    def run(rep):
        p = C09.PR(); rows = table_rows(p, name)
        tabs.read_isprime(rep, rows, name + ": "); tabs.read_ctor(rep, rows, name + ": ")
        e = AbsExec(p); st = State(); e.cur = name
        ob = lambda c, l: e.oblige(st, z3.BoolVal(bool(c)), "%s: %s" % (name, l), "post")
        ob(all(re.fullmatch(r"[1-9]\d*", r) for r in rows), "entries are decimal numbers")
        qs = [int(r) for r in rows if r.isdigit()]
        ob(len(set(qs)) == len(qs), "entries are distinct")
        for q in qs: ob(prime(q), "%d is prime" % q)
        m = (1 << n) - 1
        for q in qs: ob(m % q == 0, "%d divides 2^%d-1" % (q, n))
        for q in qs:
            while q > 1 and m % q == 0: m //= q
        ob(m == 1, "no prime divisor of 2^%d-1 is missing" % n)
        rep.take(e)
    return Task(name, run)

def tasks(tier):
    def complete(rep):
        p = C09.PR(); e = AbsExec(p); st = State(); e.cur = "tables"
        names = sorted(x["n"] for x in p.globals.values() if x.get("n", "").startswith("prime_factors"))
        e.oblige(st, z3.BoolVal(set(names) >= set("prime_factors2_%d_1" % n for n in EXPECT)), "the 17 documented tables exist", "post")
        rep.take(e)
    return [table_task(n) for n in EXPECT] + [Task("table list", complete)]
