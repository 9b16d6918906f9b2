#!/usr/bin/env python3
"""run.py check <ID> [quick|thorough]   decide a property on the current tree of /repo
   run.py replay <file>                  run one recorded input against the real code (exit 1: property violated)
   run.py debug <ID> <config> [tier]     explore one configuration in this process"""
import importlib, json, os, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
os.environ.setdefault("OMPI_MCA_ess_singleton_isolated", "1")
os.environ.setdefault("MPLBACKEND", "Agg")
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
os.environ.setdefault("OMP_NUM_THREADS", "1")
sys.dont_write_bytecode = True
EVID = os.path.join(HERE, "evidence")


def module(pid):
    return importlib.import_module("checks." + pid.lower())


def histories(cfgs, n, alone=(), other=False):
    """calculations that follow another one in the same process: the same configuration with other inputs, or the next configuration"""
    out = []
    if n:
        cheap = sorted(range(len(cfgs)), key=lambda i: (cfgs[i].get("weight", 1), i))[:max(n, len(cfgs) // 2)]
        for i in sorted(cheap)[::max(1, len(cheap) // n)][:n]:
            c = cfgs[i]
            kin = [x for x in cfgs[i + 1:] + cfgs[:i] if x["name"].split()[0] == c["name"].split()[0]] or [c]
            o = kin[0]
            if any(x in c["name"] for x in alone):
                continue
            for share, text in () if other else (("none", "again, other inputs"), (0, "again, some inputs changed"), (1, "again, the other inputs changed")):
                out.append(dict(c, name=c["name"] + " [%s]" % text, history=[c], share=share, weight=2 * c.get("weight", 1), deadline=60))
            out.append(dict(c, name=c["name"] + " [after: %s]" % o["name"], history=[o], share="all", weight=2 * c.get("weight", 1), deadline=60))
    return out


def replay_one(rec):
    """concrete run; returns list of failures"""
    import traceback
    from symx import harness, core
    mod = module(rec["property"])
    cfg = dict(rec["config"])
    X = harness.ConcX(rec["inputs"], cfg)
    if hasattr(mod, "TOL"):
        X.tol = mod.TOL
    try:
        X.run_all(mod.run, cfg)
    except (core.PathInfeasible, core.PathAbort):
        if not X.failures:
            return [], "input outside the assumptions"
    except Exception as e:
        X.failures.append(("unexpected exception %s: %s" % (type(e).__name__, e), traceback.format_exc()[-1500:]))
    return X.failures, None


def replay(path):
    rec = json.load(open(path))
    recs = rec if isinstance(rec, list) else [rec]
    out = []
    worst = 0
    for r in recs:
        try:
            f, note = replay_one(r)
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt):
                raise
            f, note = [], "replay failed: %r" % (e,)
        out.append({"failures": f[:5], "note": note})
        if f:
            worst = 1
            if not isinstance(rec, list):
                for lab, det in f[:3]:
                    print("reproduced: %s -- %s" % (lab, det))
    if isinstance(rec, list):
        json.dump(out, open(path + ".out", "w"))
    elif not worst:
        print("not reproduced%s" % (": " + out[0]["note"] if out[0]["note"] else ""))
    return worst


def variants(inp, seed, n=30):
    import random
    rng = random.Random("%d %s" % (seed, sorted(inp)))
    for k in range(n):
        out = {}
        for name, d in inp.items():
            if d[0] == "real" and rng.random() < (0.8 if k else 1):
                if len(d) > 3 and isinstance(d[2], (int, float)) and isinstance(d[3], (int, float)):
                    lo, hi = float(d[2]), float(d[3])
                else:
                    lo, hi = -3.0, 3.0
                mode = rng.randrange(4)
                if mode == 0 or hi <= lo:
                    v = rng.uniform(lo, hi)
                elif mode == 1:
                    v = rng.uniform(max(lo, -2), min(hi, 2)) if max(lo, -2) < min(hi, 2) else rng.uniform(lo, hi)
                elif mode == 2 and lo > 0:
                    v = lo * (hi / lo) ** rng.random()
                else:
                    v = max(lo, min(hi, rng.choice((-1, 1)) * 10 ** rng.uniform(-2.5, 2.5)))
                d = ["real", str(round(v, 6))] + list(d[2:])
            out[name] = d
        yield k, out


def sub_replay(recs, tag, limit=300):
    """replay in a fresh process with the real code; returns list of (failures, note)"""
    os.makedirs(EVID, exist_ok=True)
    p = os.path.join(EVID, ".replay-%s-%d.json" % (tag, os.getpid()))
    json.dump(recs, open(p, "w"))
    try:
        subprocess.run([sys.executable, os.path.join(HERE, "run.py"), "replay", p], stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, timeout=limit)
        return json.load(open(p + ".out"))
    except Exception as e:
        return [{"failures": [], "note": "replay process failed: %s" % e} for _ in recs]
    finally:
        for q in (p, p + ".out"):
            if os.path.exists(q):
                os.unlink(q)


def _work(a):
    pid, cfg, seed, tier = a
    from symx import explore
    import traceback
    try:
        return explore.explore(module(pid), cfg, seed, tier)
    except BaseException as e:
        return {"name": cfg["name"], "crash": traceback.format_exc(), "violations": [], "unsupported": [], "errors": [], "complete": False, "stats": None,
                "assumptions": [], "open_paths": 0, "wall": 0, "fallback": None}


def known(pid):
    """known findings: entries 'KNOWN property=<id> match=<substring of label>'"""
    p = os.path.join(HERE, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith("known: property=%s " % pid):
                out.append(line)
    return out


def check(pid, tier):
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = module(pid)
    import multiprocessing as mp
    cfgs = mod.configs(tier)
    cfgs += histories(cfgs, getattr(mod, "HISTORY", 0), getattr(mod, "HISTORY_SKIP", ()), getattr(mod, "HISTORY_OTHER", False))
    names = [c["name"] for c in cfgs]
    assert len(set(names)) == len(names), "duplicate config names"
    limit = 300 if tier == "quick" else 820
    for c in cfgs:
        c.setdefault("deadline", 90 if tier == "quick" else 400)
    cfgs.sort(key=lambda c: c.get("weight", 1))
    cheap = len(cfgs) // 3
    cfgs[cheap:] = cfgs[cheap:][::-1]  # the cheap third first, then the largest first
    import symx.npshim, symx.bits, symx.world, symx.comm, symx.harness, symx.explore  # noqa: preload before forking
    if getattr(mod, "PRELOAD", None):
        mod.PRELOAD()
    ctx = mp.get_context("fork")
    results = []
    pool = ctx.Pool(min(int(os.environ.get("SYMX_PROCS", "8")), len(cfgs)), maxtasksperchild=4)
    it = [pool.apply_async(_work, ((pid, c, seed, tier),)) for c in cfgs]
    late = []
    for c, r in zip(cfgs, it):
        try:
            results.append(r.get(timeout=max(1, t0 + limit - time.time())))
        except mp.TimeoutError:
            late.append(c["name"])
    pool.terminate()
    by = {c["name"]: c for c in cfgs}
    crash = [r for r in results if r.get("crash")]
    results = [r for r in results if not r.get("crash")]
    # replays: counterexamples, probes for unsupported paths, witnesses
    cand, probes, wits = [], [], []
    for r in results:
        for lab, inp, det in r["violations"][:4]:
            cand.append((r["name"], {"property": pid, "config": by[r["name"]], "inputs": inp, "label": lab, "detail": det[-1500:], "origin": "solver counterexample"}))
        for inp in r.get("probe", [])[:3]:
            probes.append((r["name"], {"property": pid, "config": by[r["name"]], "inputs": inp, "label": "path outside the encoding", "origin": "probe"}))
        for inp in r.get("witnesses", [])[:1]:
            wits.append((r["name"], {"property": pid, "config": by[r["name"]], "inputs": inp, "label": "witness", "origin": "path witness"}))
    wits = wits[:24]
    allr = cand + probes + wits
    outs = []
    if allr:
        outs = sub_replay([x[1] for x in allr], pid)
    viol, spurious, wok = [], [], 0
    for (name, rec), o in zip(allr, outs):
        if o["failures"]:
            rec["observed"] = o["failures"][:3]
            viol.append((name, rec))
        elif rec["origin"] == "solver counterexample":
            spurious.append((name, rec["label"], o["note"] or "real code satisfies the claim on the counterexample"))
        elif rec["origin"] == "path witness" and not o["note"]:
            wok += 1
    if spurious and not viol:
        # The solver refutes the claim but its model uses values of uninterpreted terms (exponentials, roots) that the real functions do not take:
        # look for real inputs near the model that show the failure.
        recs = [(x, v) for x, o in zip(allr, outs) if x[1]["origin"] == "solver counterexample" and not o["note"] for v in variants(x[1]["inputs"], seed)]
        recs = sorted(recs, key=lambda r: r[1][0])[:400]
        if recs:
            o2 = sub_replay([dict(x[1], inputs=v[1]) for x, v in recs], pid, 120)
            for ((name, rec), v), o in zip(recs, o2):
                f = [x for x in o["failures"] if x[0] == rec["label"]]
                if f:
                    rec = dict(rec, inputs=v[1], observed=f[:3], origin="real input near the solver counterexample")
                    viol.append((name, rec))
            spurious = [s for s in spurious if not any(n == s[0] for n, _ in viol)]
    rc = 0
    os.makedirs(EVID, exist_ok=True)
    seen = set()
    n = 0
    for name, rec in viol:
        key = (rec["observed"][0][0])
        if key in seen or n >= 5:
            continue
        seen.add(key)
        f = os.path.join(EVID, "%s-replay-%d.json" % (pid, n))
        n += 1
        json.dump(rec, open(f, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, f))
        print("  config %s: %s" % (name, rec["observed"][0][0]))
        print("  %s" % (rec["observed"][0][1][-600:],))
        rc = 1
    for k in range(n, 6):
        f = os.path.join(EVID, "%s-replay-%d.json" % (pid, k))
        if os.path.exists(f):
            os.unlink(f)
    for s in spurious:
        print("note: counterexample not confirmed by the real code: %s %s (%s)" % s)
    for c in crash:
        print("note: configuration not explored: %s\n%s" % (c["name"], c["crash"][-1200:]))
    for r in results:
        if not r["complete"]:
            print("note: configuration %s incomplete: %s" % (r["name"], r.get("budget") or (r["unsupported"] or r["errors"] or ["stopped"])[0]))
    for x in late:
        print("note: configuration %s did not finish in time" % x)
    for k in known(pid):
        print("KNOWN-FINDING: property=%s %s" % (pid, k.split(" ", 2)[2]))
    evidence(pid, tier, seed, mod, cfgs, results, crash, late, viol, spurious, wok, len(wits), time.time() - t0)
    tot = sum(r["stats"]["paths"] for r in results)
    print("%s: %d configurations (%d complete), %d paths, %d claims, %.1f s" % (
        pid, len(cfgs), sum(r["complete"] for r in results), tot, sum(r["stats"]["claims"] for r in results), time.time() - t0))
    if rc == 0 and not results:
        return 2
    return rc


def evidence(pid, tier, seed, mod, cfgs, results, crash, late, viol, spurious, wok, nw, wall):
    st = [r["stats"] for r in results]
    S = lambda k: sum(s[k] for s in st)
    funcs = sorted({f for s in st for f in s["functions"]})
    reached = {}
    for s in st:
        for k, v in s["reached"].items():
            reached[k] = reached.get(k, 0) + v
    conc = {}
    for s in st:
        for k, v in s["concretised_where"].items():
            conc[k] = conc.get(k, 0) + v
    inconc = {k: v for k, v in reached.items() if k.startswith("inconclusive")}
    exp = ("%s Bounds: %s Outside the bounds: %s" % (getattr(mod, "METHOD", ""), getattr(mod, "BOUNDS", ""), getattr(mod, "OUTSIDE", "")))
    ev = {
        "property": pid, "tier": tier, "seed": seed, "level": "other", "wall_s": round(wall, 2),
        "coverage": {
            "explanation": exp,
            "functions_encoded": funcs,
            "configurations": [{"name": r["name"], "complete": r["complete"], "paths": r["stats"]["paths"], "claims": r["stats"]["claims"],
                                "queries": r["stats"]["queries"], "wall_s": round(r["wall"], 2), "note": r.get("fallback") or r.get("budget")} for r in results],
            "configurations_not_finished": late + [c["name"] for c in crash],
            "paths": S("paths"), "infeasible_paths": S("infeasible"), "claims_discharged": S("claims"),
            "solver_queries_claims": S("queries"), "solver_queries_feasibility": S("feas_queries"), "solver_unknown": S("unknown"),
            "solver_time_s": round(S("solver_time"), 2),
            "coincidence_branches_cut": S("coinc_cut"),
            "concretised_values": conc, "inconclusive": inconc,
            "unsupported_paths": sum(len(r["unsupported"]) for r in results),
            "claims_by_label": {k: v for k, v in reached.items() if not k.startswith("reached: ")},
            "reachability_witnesses": {k[9:]: v for k, v in reached.items() if k.startswith("reached: ")},
            "witnesses_replayed_on_real_code": wok, "witnesses_selected": nw,
            "counterexamples_confirmed": len(viol), "counterexamples_not_confirmed": [list(s) for s in spurious],
            "assumptions": sorted({a for r in results for a in r["assumptions"]} | set(getattr(mod, "ASSUMPTIONS", []))),
        },
    }
    json.dump(ev, open(os.path.join(EVID, pid + ".json"), "w"), indent=1)


def debug(pid, name, tier="quick"):
    from symx import explore
    mod = module(pid)
    for c in mod.configs(tier):
        if c["name"] == name or name == "all":
            c.setdefault("deadline", 300)
            r = explore.explore(mod, c)
            s = r["stats"]
            print(c["name"], "complete" if r["complete"] else "INCOMPLETE", "paths", s["paths"], "claims", s["claims"], "q", s["queries"], "fq", s["feas_queries"],
                  "solver %.2f" % s["solver_time"], "wall %.2f" % r["wall"], "infeas", s["infeasible"], "unk", s["unknown"], "conc", s["concretised_where"], r.get("budget", ""), r["fallback"] or "")
            for u in r["unsupported"][:3]:
                print("  UNSUPPORTED", u)
            for l, i, d in r["violations"][:3]:
                print("  VIOL", l, i, d)
            if name != "all":
                print(json.dumps(s["reached"], indent=1))
                print(s["functions"])


def setup():
    """nothing to build: check that the interpreter, its libraries and the solver are there"""
    from symx.core import z3
    import numpy, scipy, sympy, bitarray, mpi4py, h5py  # noqa: F401
    s = z3.Solver()
    x = z3.Int("x")
    s.add(x > 1, x < 3)
    assert s.check() == z3.sat
    os.makedirs(EVID, exist_ok=True)
    print("ok: z3 %s" % z3.get_version_string())
    return 0


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "check":
        tier = a[2] if len(a) > 2 else os.environ.get("VERIF_TIER", "quick")
        sys.exit(check(a[1], tier))
    elif a[0] == "replay":
        sys.exit(replay(a[1]))
    elif a[0] == "setup":
        sys.exit(setup())
    elif a[0] == "debug":
        debug(*a[1:])
