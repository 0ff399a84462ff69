"""Runs the proof tasks of one property, reports, replays."""
import sys, os, time, json, traceback, multiprocessing as mp, subprocess, importlib, random, tempfile, shutil, signal
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE); sys.path.insert(0, os.path.join(VERIF, "props"))
import z3
import core, execu, discharge, frontend
REPO = frontend.REPO


class Task:
    """fn(report) -> list of Obl; report.functions etc. filled in by it"""
    def __init__(self, name, fn, units=(), weight=1, functions=()):
        self.name, self.fn, self.units, self.weight = name, fn, units, weight


class Report:
    def __init__(self):
        self.contracts, self.inlined, self.assumed, self.covers, self.bounded = set(), set(), set(), [], []
        self.obls = []
        self.under = set()
    def take(self, eng, *keys):
        """collect the obligations and bookkeeping of an engine"""
        self.obls += eng.obls; eng.obls = []
        self.contracts |= eng.used_contracts; self.inlined |= eng.inlined; self.assumed |= eng.assumed
        for k in keys: self.under.add(k)
    def cover(self, name, formulas):
        """vacuity guard: the precondition must be satisfiable"""
        s = z3.Solver(); s.set("timeout", 20000); s.add(*[f for f in formulas if core.is_z3(f)])
        r = s.check()
        self.covers.append((name, str(r)))


def _run(task, timeout):
    t0 = time.time()
    rep = Report()
    out = {"task": task.name, "error": None, "obls": [], "unsupported": None}
    try:
        task.fn(rep)
        for o in rep.obls:
            discharge.solve(o, timeout)
            if o.status == "failed" and getattr(o, "soft", False): o.status = "unknown"
            out["obls"].append({"name": o.name, "fn": o.fn, "kind": o.kind, "line": o.line, "status": o.status, "backend": o.backend, "time": round(o.time, 3),
                                "model": discharge.model_text(o) if o.status == "failed" else None,
                                "goal": str(o.goal)[:600] if o.status != "proved" else None})
    except (core.Unsupported, frontend.ExtractError) as e:
        out["unsupported"] = "%s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-1500:]
    except Exception as e:
        out["unsupported"] = "internal: %s: %s" % (type(e).__name__, e)
        out["trace"] = traceback.format_exc()[-3000:]
    out["under"] = sorted(rep.under); out["contracts"] = sorted(rep.contracts); out["inlined"] = sorted(rep.inlined)
    out["assumed"] = sorted(rep.assumed); out["covers"] = rep.covers; out["bounded"] = rep.bounded
    out["wall"] = round(time.time() - t0, 2)
    return out


def _child(task, timeout, conn, memgb=6):
    try:
        import resource
        resource.setrlimit(resource.RLIMIT_AS, (memgb << 30, memgb << 30))
    except Exception: pass
    try: conn.send(_run(task, timeout))
    except Exception as e:
        try: conn.send({"task": task.name, "unsupported": "internal: %r" % e, "obls": [], "under": [], "contracts": [], "inlined": [], "assumed": [], "covers": [], "bounded": [], "wall": 0, "error": None})
        except Exception: pass
    conn.close()


def run_tasks(tasks, timeout, deadline, jobs=8):
    res, pending, live = [], sorted(tasks, key=lambda t: -t.weight), []
    while pending or live:
        while pending and len(live) < jobs:
            t = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.Process(target=_child, args=(t, timeout, b, getattr(t, 'mem', 6))); p.start(); b.close()
            live.append((t, p, a, time.time()))
        nl = []
        for t, p, a, s in live:
            if a.poll(0.01):
                try: res.append(a.recv())
                except EOFError: res.append({"task": t.name, "unsupported": "worker died", "obls": [], "under": [], "contracts": [], "inlined": [], "assumed": [], "covers": [], "bounded": [], "wall": time.time() - s, "error": None})
                p.join()
            elif not p.is_alive() and not a.poll(0.05):
                res.append({"task": t.name, "unsupported": "worker died", "obls": [], "under": [], "contracts": [], "inlined": [], "assumed": [], "covers": [], "bounded": [], "wall": time.time() - s, "error": None})
            elif time.time() > deadline:
                p.kill(); p.join()
                res.append({"task": t.name, "unsupported": "task timeout", "obls": [], "under": [], "contracts": [], "inlined": [], "assumed": [], "covers": [], "bounded": [], "wall": time.time() - s, "error": None})
            else: nl.append((t, p, a, s))
        live = nl
        time.sleep(0.005)
    return res


def build_replay(src, work, extra=()):
    exe = os.path.join(work, "replay")
    libs = [os.path.join(REPO, "lib", x) for x in ("period.cpp", "AlgorithmPrimitivity.cpp")]
    cmd = ["g++", "-std=c++17", "-O1", "-g", "-w", "-I" + os.path.join(REPO, "include"), "-I" + REPO, "-I" + os.path.join(VERIF, "replay"), "-DREPLAY", src] + list(extra) + libs + ["-o", exe, "-lntl", "-lgmp", "-lcrypto", "-lpthread"]
    r = subprocess.run(cmd, capture_output=True, text=True)
    if r.returncode: return None, r.stderr[-2000:]
    return exe, ""


def replay(prop, seed, budget):
    """search for a concrete failing input with the real code (driver
    /verif/replay/<prop>.cpp, once per "// VARIANT:" line);
    returns (found, text)"""
    src = os.path.join(VERIF, "replay", prop + ".cpp")
    if not os.path.exists(src): return False, "no replay driver"
    flags, variants = [], []
    safety = prop == "C26"          # only undefined behaviour counts
    for line in open(src):
        if line.startswith("// FLAGS:"): flags += line.split(":", 1)[1].replace("$REPO", REPO).split()
        if line.startswith("// VARIANT:"): variants.append(line.split(":", 1)[1].replace("$REPO", REPO).split())
    variants = variants or [[]]
    work = tempfile.mkdtemp(prefix="cppvc_")
    def one(i):
        d = os.path.join(work, str(i)); os.mkdir(d)
        vg = "@valgrind" in variants[i]        # uninitialised reads: run under memcheck, without sanitizers
        exe, err = build_replay(src, d, [f for f in flags if not (vg and f.startswith("-f"))] + [f for f in variants[i] if f[0] != "@"])
        if exe is None: return None, "replay driver does not build (%s):\n%s" % (" ".join(variants[i]), err)
        try:
            r = subprocess.run((["valgrind", "-q", "--error-exitcode=99", "--leak-check=no", "--"] if vg else []) + [exe, str(seed), str(budget)], capture_output=True, text=True, errors="replace", timeout=budget * 3 + 30, cwd=d, preexec_fn=_limits,
                               env=dict(os.environ, UBSAN_OPTIONS="print_stacktrace=0:halt_on_error=1", ASAN_OPTIONS="detect_leaks=0"))
        except subprocess.TimeoutExpired:
            if safety: return False, "time limit (variant %s)" % " ".join(variants[i])
            return True, "FAIL the code under test does not terminate (variant %s)" % " ".join(variants[i])
        txt = ("variant %s\n" % " ".join(variants[i]) if variants[i] else "") + r.stdout[-6000:] + r.stderr[-3000:]
        if r.returncode == 0: return False, txt
        if safety and not (r.returncode == 99 or "runtime error" in r.stderr or "AddressSanitizer" in r.stderr or r.returncode in (-11, -8, -7, -4)): return False, txt
        if vg and r.returncode == 99: txt = "FAIL " + (r.stderr.strip().split("\n") or [""])[0] + "\n" + txt
        if safety and "AddressSanitizer" in r.stderr: txt = "FAIL " + [l for l in r.stderr.split("\n") if "AddressSanitizer" in l][0] + "\n" + txt
        if "runtime error" in r.stderr and "FAIL" not in txt: txt = "FAIL undefined behaviour: " + [l for l in r.stderr.split("\n") if "runtime error" in l][0] + "\n" + txt
        elif "FAIL" not in txt: txt = "FAIL the code under test ends with status %d\n" % r.returncode + txt
        return True, txt + "\nexit status %d" % r.returncode
    try:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(8) as ex: rs = list(ex.map(one, range(len(variants))))
        return any(f for f, _ in rs), "\n".join(t for f, t in sorted(rs, key=lambda x: not x[0]))
    finally: shutil.rmtree(work, ignore_errors=True)


def _limits():
    import resource
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    try: resource.setrlimit(resource.RLIMIT_FSIZE, (64 << 20, 64 << 20))
    except Exception: pass


def load_known(prop):
    f = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(f):
        for l in open(f):
            l = l.strip()
            if l.startswith("known: property=%s " % prop): out.append(l.split(" ", 2)[2])
    return out


def main(prop):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"): tier = sys.argv[2]
    if tier not in ("quick", "thorough"): tier = "quick"
    random.seed(seed)
    mod = importlib.import_module(prop)
    timeout = 20 if tier == "quick" else 90
    deadline = t0 + (420 if tier == "quick" else 3000)
    fatal = None; tasks = []
    try:
        units = sorted(set(mod.UNITS), key=str)
        frontend.plugin()
        from concurrent.futures import ThreadPoolExecutor
        uerr = {}
        def ld(u):
            try: frontend.load(*u) if isinstance(u, tuple) else frontend.load(u)
            except Exception as e: uerr[u] = str(e)
        with ThreadPoolExecutor(8) as ex: list(ex.map(ld, units))
        tasks = mod.tasks(tier)
        only = os.environ.get("CPPVC_TASK")
        if only: tasks = [t for t in tasks if only in t.name]
    except Exception as e:
        fatal = "%s: %s" % (type(e).__name__, e) + "\n" + traceback.format_exc()[-1500:]
    res = run_tasks(tasks, timeout, deadline) if not fatal else []
    obls = [dict(o, task=r["task"]) for r in res for o in r["obls"]]
    proved = [o for o in obls if o["status"] == "proved"]
    failed = [o for o in obls if o["status"] == "failed"]
    unknown = [o for o in obls if o["status"] == "unknown"]
    unsup = [r for r in res if r["unsupported"]]
    vac = [c for r in res for c in r["covers"] if c[1] == "unsat"]
    empty = [r["task"] for r in res if not r["unsupported"] and not r["obls"]]
    problems = bool(failed or unknown or unsup or fatal or vac or empty)
    verbose = os.environ.get("CPPVC_VERBOSE")
    if verbose:
        for r in res:
            if r["unsupported"] or r["wall"] > 5 or verbose == "2": print("task %-50s obls=%d wall=%ss %s" % (r["task"], len(r["obls"]), r["wall"], r["unsupported"] or ""))
            if r["unsupported"] and verbose == "2": print((r.get("trace") or "")[-700:])
        for o in failed + unknown: print(o["status"].upper(), o["task"], o["name"], "line", o["line"], o["kind"], "\n   goal:", o["goal"], "\n   ", (o["model"] or "")[:1500] if verbose == "2" else "")
        if verbose == "2":
            for o in sorted(obls, key=lambda o: -o["time"])[:6]:
                if o["time"] > 2: print("slow %.1fs %s %s line %s %s" % (o["time"], o["task"], o["name"], o["line"], o["backend"]))
        if fatal: print(fatal)
    violations = 0; replay_info = None
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    rpath = os.path.join(VERIF, "replays", prop + ".txt")
    standin = None; standin_ran = None
    rc = 0
    known = load_known(prop)
    bounded_fns = getattr(mod, "BOUNDED", [])       # functions no contract reaches: always searched
    if problems or (bounded_fns or tier == "thorough") and not os.environ.get("CPPVC_NOREPLAY") and not os.environ.get("CPPVC_TASK"):
        budget = (getattr(mod, "BUDGET", 25) if problems else getattr(mod, "BUDGET_OK", 8)) if tier == "quick" else 120
        found, txt = (False, "replay disabled") if os.environ.get("CPPVC_NOREPLAY") else replay(prop, seed, budget)
        if not problems:
            if found: problems = True
            else: standin_ran = "%s: seeded search with the real code, %d s (seed %d), no failing input" % ("; ".join(bounded_fns) if bounded_fns else "cross-check of all functions", budget, seed)
    if problems:
        lines = ["property %s: obligations not discharged on the current tree of %s" % (prop, REPO), ""]
        for o in failed: lines += ["FAILED obligation: %s (line %s, %s, task %s; back end %s)" % (o["name"], o["line"], o["kind"], o["task"], o["backend"]), "  goal: %s" % o["goal"], "  countermodel of the verifier:", o["model"] or "", ""]
        for o in unknown: lines += ["UNDECIDED obligation: %s (line %s, task %s)" % (o["name"], o["line"], o["task"])]
        for r in unsup: lines += ["NOT VERIFIED task %s: %s" % (r["task"], r["unsupported"])]
        if fatal: lines += ["NOT VERIFIED: " + fatal]
        for c in vac: lines += ["VACUOUS precondition: %s" % c[0]]
        for t in empty: lines += ["NO OBLIGATIONS from task %s" % t]
        lines += ["", "replay against the real code (driver /verif/replay/%s.cpp, seed %d): %s" % (prop, seed, "FAILING INPUT FOUND" if found else "no failing input found"), txt]
        open(rpath, "w").write("\n".join(str(x) for x in lines) + "\n")
        if found:
            violations = 1; rc = 1
            for o in failed[:5]: print("obligation failed: %s (line %s)" % (o["name"], o["line"]))
            print([l for l in txt.split("\n") if l.startswith("FAIL")][:1] or "")
            print("VIOLATION property=%s replay=%s" % (prop, rpath))
        elif failed:
            violations = 1; rc = 1
            for o in failed[:8]: print("obligation failed: %s (line %s)" % (o["name"], o["line"]))
            print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rpath))
        else:
            standin = "undecided by proof; bounded stand-in (replay driver, %ss budget, seed %d) found no violation" % (budget, seed)
            print("NOTE property=%s %s; see %s" % (prop, standin, rpath))
            for o in unknown[:5]: print("  undecided: %s (line %s)" % (o["name"], o["line"]))
            for r in unsup[:5]: print("  not verified: %s: %s" % (r["task"], r["unsupported"][:300]))
            if fatal: print("  not verified: " + fatal[:500])
            for c in vac: print("  vacuous: %s" % c[0])
            for t in empty: print("  no obligations: %s" % t)
    for k in known: print("KNOWN-FINDING: property=%s %s" % (prop, k))
    be = {}
    for o in proved: be[o["backend"]] = be.get(o["backend"], 0) + 1
    under = sorted(set(x for r in res for x in r["under"]))
    cov = {
        "obligations": len(obls), "discharged": len(proved),
        "checker_cmd": "python3-vt /verif/cppvc/check.py %s %s" % (prop, tier),
        "trusted_base": getattr(mod, "TRUSTED", []) + ["cppvc extraction (Clang 18 AST) and VC generation", "z3 %s, cvc5 1.1.2" % z3.get_version_string()],
        "functions_under_contract": under, "n_functions_under_contract": len(under),
        "functions_inlined_from_source": sorted(set(x for r in res for x in r["inlined"])),
        "contracts_used_at_calls": sorted(set(x for r in res for x in r["contracts"])),
        "assumed_contracts_on_dependencies": sorted(set(x for r in res for x in r["assumed"])),
        "by_back_end": be, "solver_seconds": round(sum(o["time"] for o in obls), 2),
        "by_kind": {k: sum(1 for o in obls if o["kind"] == k) for k in sorted(set(o["kind"] for o in obls))},
        "precondition_covers": [list(c) for r in res for c in r["covers"]],
        "tasks": [{"task": r["task"], "obligations": len(r["obls"]), "wall_s": r["wall"], "not_verified": r["unsupported"]} for r in res],
        "bounded": sorted(set(str(x) for r in res for x in r["bounded"])) + ([standin] if standin else []) + ([standin_ran] if standin_ran else []),
        "undecided": [o["name"] for o in unknown], "failed": [o["name"] for o in failed],
        "samples": [o["name"] for o in obls[:: max(1, len(obls) // 12)]][:14],
    }
    lem = getattr(mod, "LEAN", None)
    if lem: cov["lean_lemmas"] = lem
    level = getattr(mod, "LEVEL", "proof")
    if standin and level == "proof": level = "other"; cov["explanation"] = standin
    ev = {"property": prop, "tier": tier, "seed": seed, "level": level, "coverage": cov, "assumptions": getattr(mod, "ASSUMPTIONS", []), "wall_s": round(time.time() - t0, 2), "violations": violations}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    print("%s: %d obligations, %d discharged, %d functions under contract, %.1fs" % (prop, len(obls), len(proved), len(under), time.time() - t0))
    return rc
