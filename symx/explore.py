"""Explores one configuration of a property harness: all paths, all claims."""
import sys, time, threading, traceback, gc
from . import core, num, harness, world as worldmod
from .core import z3, Ctx, PathInfeasible, PathAbort, Unsupported, BudgetExceeded


def profiler(stats):
    repo = worldmod.REPO

    def prof(frame, event, arg):
        if event == "call":
            f = frame.f_code
            if f.co_filename.startswith(repo) and f.co_name[0] != "<":
                stats.functions.add(f.co_filename[len(repo) + 1:] + ":" + getattr(f, "co_qualname", f.co_name))
    return prof


def explore(mod, cfg, seed=1, tier="quick"):
    r = _explore(mod, cfg, seed)
    if cfg.get("transform") and (r["unsupported"] or r["errors"]) and not cfg.get("nomerge"):
        c2 = dict(cfg, nomerge=True)
        r2 = _explore(mod, c2, seed)
        r2["fallback"] = "explored without merging: %s" % (r["unsupported"] or r["errors"])[:1]
        return r2
    return r


def _explore(mod, cfg, seed):
    t0 = time.time()
    ctx = Ctx(max_coinc=cfg.get("max_coinc", 1), max_paths=cfg.get("max_paths", 200000), deadline=t0 + cfg.get("deadline", 120),
              timeout_ms=cfg.get("timeout_ms", 20000), seed=seed)
    ctx.exact_sqrt = cfg.get("exact_sqrt", False)
    ctx.free_coinc = cfg.get("free_coinc", False)
    ctx.check_div = cfg.get("check_div", False)
    ctx.check_sqrt = cfg.get("check_sqrt", False)
    core.set_ctx(ctx)
    worldmod.MERGE[0] = bool(cfg.get("transform")) and not cfg.get("nomerge")
    out = {"name": cfg["name"], "unsupported": [], "errors": [], "violations": [], "complete": False, "witness": None, "fallback": None}
    prof = profiler(ctx.stats)
    first = True
    nwit = 0
    gc.disable()
    try:
        while ctx.worklist:
            if ctx.stats.paths >= ctx.max_paths:
                raise BudgetExceeded("paths")
            prefix = ctx.worklist.pop()
            num.reset_atoms()
            ctx.begin(prefix)
            X = harness.SymX(ctx, cfg)
            ctx.stats.paths += 1
            if ctx.stats.paths % 50 == 0:
                gc.collect()
            if ctx.stats.paths <= 3:
                sys.setprofile(prof)
            try:
                X.run_all(mod.run, cfg)
                sys.setprofile(None)
                ctx.flush()
                if nwit < 3 and (nwit == 0 or ctx.stats.paths % 7 == 0):
                    g = ctx.any_inputs()
                    if g is not None:
                        nwit += 1
                        out.setdefault("witnesses", []).append(g)
            except PathInfeasible:
                sys.setprofile(None)
                ctx.stats.infeasible += 1
                ctx.flush()
            except PathAbort:
                sys.setprofile(None)
                ctx.stats.aborted += 1
                ctx.flush()
            except Unsupported as e:
                sys.setprofile(None)
                where = "".join(traceback.format_tb(e.__traceback__)[-4:])
                out["unsupported"].append("%s" % e + "\n" + where)
                ctx.flush()
                # a concrete execution near this path stands in for it
                if len(out.setdefault("probe", [])) < 5:
                    g = ctx.any_inputs()
                    if g is not None:
                        out["probe"].append(g)
                if len(out["unsupported"]) > 20:
                    break
            except z3.Z3Exception as e:
                sys.setprofile(None)
                out["unsupported"].append("solver: %s\n%s" % (e, "".join(traceback.format_tb(e.__traceback__)[-3:])))
            except Exception as e:
                sys.setprofile(None)
                ctx.flush()
                tb = traceback.format_exc()
                inp = ctx.any_inputs(8) if len(out["errors"]) < 10 else None
                if inp is not None:
                    out["errors"].append("%s: %s" % (type(e).__name__, e))
                    ctx.violations.append(core.Violation("unexpected exception %s" % type(e).__name__, inp, tb[-1500:]))
            finally:
                sys.setprofile(None)
            if len(ctx.violations) >= ctx.max_violations:
                break
        else:
            out["complete"] = not out["unsupported"]
    except BudgetExceeded as e:
        out["budget"] = str(e)
    finally:
        gc.enable()
    out["violations"] = [(v.label, v.inputs, str(v.detail)) for v in ctx.violations]
    out["stats"] = ctx.stats.as_dict()
    out["assumptions"] = sorted(ctx.assumption_notes)
    out["open_paths"] = len(ctx.worklist)
    out["wall"] = time.time() - t0
    return out
