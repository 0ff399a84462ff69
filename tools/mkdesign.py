#!/usr/bin/env python3
# Writes /verif/DESIGN.md: the text of tools/design.txt, with the per-property section generated from
# props/*.py, properties.jsonl, seeded/*/meta.json and (for counts and times) the last evidence files.
import json, os, sys, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V + "/cppvc", V + "/props"]
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {}
exec(open(V + "/tools/na.py").read())
seeds = {}
for s in sorted(os.listdir(V + "/seeded")):
    d = json.load(open(V + "/seeded/%s/meta.json" % s)); seeds.setdefault(d["property"], []).append((s, d))
out = []
for p in props:
    i = p["id"]; out.append("### %s %s\n" % (i, p.get("title", "")))
    if i in NA: out.append("Not applicable: %s.\n" % NA[i]); continue
    m = importlib.import_module(i); one = lambda t: " ".join(t.split())
    out.append("*Specified and proved.* %s\n" % one(getattr(m, "NOTE", "the statement in properties.jsonl, function by function, against definitions written in the annotation")))
    ev = V + "/evidence/%s.json" % i
    if os.path.exists(ev):
        c = json.load(open(ev)); k = c["coverage"]
        fn = k.get("functions_under_contract")
        out.append("*Size.* %s obligations%s; quick run about %d s on this machine.\n" % (k["obligations"], ", %s functions under contract" % (len(fn) if isinstance(fn, list) else fn) if fn else "", round(float(c["wall_s"]))))
    for lab, a in (("Assumed", "ASSUMPTIONS"), ("Trusted", "TRUSTED"), ("Bounded (not counted as proved)", "BOUNDED")):
        x = getattr(m, a, [])
        if x: out.append("*%s.* %s.\n" % (lab, "; ".join(one(y) for y in x)))
    if i in seeds: out.append("*Planted bugs caught.* " + "; ".join("`%s` (%s)" % (s, d["what_it_breaks"]) for s, d in seeds[i]) + ".\n")
t = open(V + "/tools/design.txt").read().replace("@@PROPS@@", "\n".join(out)).replace("@@FIX@@", "\n".join("- " + l[7:].strip() for l in open(V + "/known_findings.txt") if l.startswith("fixed:")))
open(V + "/DESIGN.md", "w").write(t)
print(len(t))
