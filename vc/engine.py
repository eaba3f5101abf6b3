"""Exploration of a contract: every path of the real code is evaluated and its obligations discharged."""
import os, sys, time, traceback, hashlib, random
import numpy as np
from . import sym, nparr, loader, path, session
from .sym import Unsupported, Infeasible, Budget
from .session import Sym, Conc, Skip

REG = {}
FINE = {k: dict(tol=(1e-11, 1e-8)) for k in "P01 P04 P09 P15 P20 P21".split()}
FINE.update({k: dict(tol=(1e-10, 1e-7)) for k in "P05 P16 P17 P18 P19 P22 P23 P27 P28 P29".split()})
DEFAULTS = FINE          # options of every contract of a property: well-conditioned results are compared more finely


class Contract:
    def __init__(self, prop, fn, name, covers, opts, doc=None):
        self.prop, self.fn, self.name, self.covers, self.opts, self.doc = prop, fn, name, covers, opts, doc


def contract(prop, covers=(), name=None, cases=None, **opts):
    """register a contract; opts: budget (s), timeout (ms), merge, conc (samples), sym (bool), bounded (text), stubs (bool), advisory (strengthens the claim when accepted, never an alarm), partial"""
    def deco(fn):
        base = name or fn.__name__
        for c in (cases or [None]):
            f = fn if c is None else (lambda S, c=c: fn(S, **c))
            nm = base if c is None else base + "(" + ",".join("%s=%s" % (k, _short(v)) for k, v in c.items()) + ")"
            REG.setdefault(prop, []).append(Contract(prop, f, nm, tuple(covers), dict(opts, **DEFAULTS.get(prop, {})), fn.__doc__))
        return fn
    return deco


def _short(v):
    return getattr(v, "__name__", None) or str(v)


def in_repo(tb):
    """was the innermost frame (ignoring the evaluator's own) in the repository?"""
    fr = traceback.extract_tb(tb)
    for f in reversed(fr):
        if "/vc/" in f.filename:
            continue
        if f.filename.startswith(loader.REPO):
            return True
        if "/site-packages/" in f.filename or "/lib/python" in f.filename:
            continue
        return False
    return False


def conc_run(c, seed, values=None, choices=None):
    """one concrete evaluation -> ('ok'|'skip'|'fail'|'error', details)"""
    rng = np.random.RandomState(seed % (2**32))
    np.random.seed(seed % (2**32))
    random.seed(seed)
    sym.set_ctx(None)
    tree = loader.Tree(False)
    S = Conc(tree, rng, values, choices, c.opts)
    try:
        with np.errstate(all="ignore"):
            c.fn(S)
    except Skip:
        if S.fail:
            return "fail", S, None
        return "skip", S, None
    except Exception as e:
        if S.fail:
            return "fail", S, None
        if in_repo(e.__traceback__) and not c.opts.get("stubs"):
            S.fail.append("no exception: %s: %s" % (type(e).__name__, e))
            return "fail", S, traceback.format_exc()
        return "error", S, traceback.format_exc()
    return ("fail" if S.fail else "ok"), S, None


def _confirm(c, models, choices, tries=3):
    for m in models:
        for k in range(tries):
            st, S, tb = conc_run(c, 1000 + k, m, choices)
            if st == "fail":
                return dict(values=m, choices=choices, seed=1000 + k, failed=S.fail[:8], used=_jsonable(S.used), traceback=tb)
    return None


def _jsonable(d):
    out = {}
    for k, v in d.items():
        try:
            out[k] = v if isinstance(v, (int, float, str, list)) else float(v)
        except Exception:
            out[k] = str(v)
    return out


def alive_models(ctx, cond=None, n=6):
    try:
        ok = ctx.alive.copy()
        if cond is not None and not isinstance(cond, bool):
            ok &= ~ctx.bsamp(cond)
        ks = np.nonzero(ok)[0][:n]
        return [ctx.sample_model(int(k)) for k in ks]
    except Exception:
        return []


def z3_path_model(ctx, ms=3000):
    import z3
    try:
        s = z3.Solver()
        s.set("timeout", ms)
        for f in ctx.facts:
            s.add(ctx.z(f))
        for f in ctx.def_facts(ctx.cone(list(ctx.facts))):
            s.add(f)
        if s.check() == z3.sat:
            return [ctx.model_values(s.model())]
    except Exception:
        pass
    return []


def merge_sym(a, b):
    """join the results of two parts of one exploration"""
    if a is None:
        return b
    r = dict(a)
    for k in ("paths", "infeasible", "witnessed", "solver_s", "checks", "secs", "nrefuted"):
        r[k] = a[k] + b[k]
    r["undecided"] = sorted(set(a["undecided"]) | set(b["undecided"]))[:20]
    r["violation"] = a["violation"] or b["violation"]
    r["complete"] = a["complete"] and b["complete"]
    ob = {k: dict(v, by=dict(v["by"])) for k, v in a["obligations"].items()}
    for k, v in b["obligations"].items():
        d = ob.setdefault(k, {"proved": 0, "open": 0, "by": {}, "secs": 0.0})
        for f in ("proved", "open", "secs"):
            d[f] += v[f]
        for be, n in v["by"].items():
            d["by"][be] = d["by"].get(be, 0) + n
    r["obligations"] = ob
    r["failed"] = sorted(set(a.get("failed", ())) | set(b.get("failed", ())))
    r["leftover"] = b.get("leftover")
    r["nfailing"] = a.get("nfailing", 0) + b.get("nfailing", 0)
    r["gave_up"] = a.get("gave_up") or b.get("gave_up")
    return r


def lost(prop, i):
    c = REG[prop][i]
    return dict(name=c.name, prop=prop, covers=list(c.covers), paths=0, infeasible=0, obligations={}, undecided=["worker stopped: time or memory"], violation=None,
                complete=False, witnessed=0, solver_s=0.0, checks=0, secs=0.0, bounded=c.opts.get("bounded"), cls="symbolic", nrefuted=0, leftover=None)


def vacuity(res):
    if not res["obligations"]:
        res["undecided"].append("no obligation was generated")
        res["complete"] = False
    elif not res["witnessed"]:
        res["undecided"].append("no witness for the assumptions (vacuity guard)")
        res["complete"] = False


def sym_run(c, seed=1, prefixes=None, slice=None, spent=0.0):
    o = c.opts
    t0 = time.time()
    budget = o.get("budget", 60) - spent
    deadline = t0 + budget
    res = dict(name=c.name, prop=c.prop, covers=list(c.covers), paths=0, infeasible=0, obligations={}, undecided=[], violation=None,
               complete=True, witnessed=0, solver_s=0.0, checks=0, bounded=o.get("bounded"), cls="symbolic", nrefuted=0, leftover=None)
    stack = list(prefixes) if prefixes else [[]]
    nrefuted = nfailing = 0
    while stack:
        if slice and time.time() - t0 > slice and len(stack) > 1 and time.time() < deadline:
            res["leftover"] = stack
            break
        if time.time() > deadline or res["paths"] > o.get("max_paths", 4000):
            res["complete"] = False
            res["undecided"].append("path exploration stopped after %d paths, %.0f s" % (res["paths"], time.time() - t0))
            break
        prefix = stack.pop()
        ctx = path.Ctx(prefix, seed=seed, merge=o.get("merge", False), check_ms=o.get("check_ms", 250), deadline=deadline)
        sym.set_ctx(ctx)
        S = None
        status = "ok"
        try:
            tree = loader.Tree(True)
            S = Sym(ctx, tree, o)
            c.fn(S)
        except Infeasible:
            status = "infeasible"
        except Unsupported as e:
            status = "unsupported: %s" % e
            if o.get("debug"):
                traceback.print_exc()
        except Budget as e:
            status = "budget: %s" % e
        except RecursionError as e:
            status = "unsupported: recursion"
        except Exception as e:
            status = "raised %s: %s" % (type(e).__name__, e)
            if o.get("debug"):
                traceback.print_exc()
            if res["violation"] is None and nrefuted < 6 and not o.get("advisory"):
                nrefuted += 1
                cf = _confirm(c, alive_models(ctx) or z3_path_model(ctx), list(ctx.choices), 2)
                if cf:
                    cf["obligation"] = status
                    res["violation"] = cf
        for i in range(len(prefix), len(ctx.trail)):
            if ctx.trail[i][1]:
                stack.append([t[0] for t in ctx.trail[:i]] + [not ctx.trail[i][0]])
        if o.get("debug", 0) > 2:
            print("PATH", status, "alive", int(ctx.alive.sum()), "solver %.1f" % ctx.solver_s)
            for f in ctx.facts:
                print("    fact", str(f)[:300])
        res["solver_s"] += ctx.solver_s
        res["checks"] += ctx.nchecks
        if status == "infeasible" and not (S and S.obl):
            res["infeasible"] += 1
            continue
        res["paths"] += 1
        if np.any(ctx.alive):
            res["witnessed"] += 1
        if status not in ("ok", "infeasible"):
            res["undecided"].append(status)
            res["complete"] = False
        if S and any(st != "proved" for _, st, *_ in S.obl) and not o.get("partial") and not o.get("advisory"):
            nfailing += 1
        for name, st, be, secs, model in (S.obl if S else []):
            d = res["obligations"].setdefault(name, {"proved": 0, "open": 0, "by": {}, "secs": 0.0})
            d["secs"] += secs
            if st == "proved":
                d["proved"] += 1
                d["by"][be] = d["by"].get(be, 0) + 1
                continue
            d["open"] += 1
            res["undecided"].append("%s: %s (%s)" % (name, st, be))
            res["failed"] = sorted(set(res.get("failed", ())) | {name})
            if o.get("debug"):
                print("OPEN", name, st, be, model, ctx.choices)
                if o["debug"] > 1:
                    for f in ctx.facts:
                        print("    fact", f)
            if res["violation"] is None and nrefuted < 12 and not o.get("advisory"):
                nrefuted += 1
                models = ([model] if model else []) + alive_models(ctx, None, 4)
                cf = _confirm(c, models, list(ctx.choices), 2)
                if cf:
                    cf["obligation"] = name
                    res["violation"] = cf
        if res["violation"] and not o.get("keep_going"):
            res["complete"] = False
            break
        if nfailing >= 6 and not o.get("keep_going"):  # a violation already: no need to see every path on which it shows
            res["complete"] = False
            res["undecided"].append("path exploration stopped after %d paths with failed obligations" % nfailing)
            res["gave_up"] = True
            break
        if len(res["undecided"]) > 60:
            res["undecided"] = res["undecided"][:60]
    # vacuity: at least one path with a concrete witness of its assumptions and at least one obligation
    if not res["witnessed"] and res["obligations"] and not res["leftover"]:
        if z3_path_model(ctx):
            res["witnessed"] = 1
    sym.set_ctx(None)
    res["nfailing"] = nfailing
    res["secs"] = time.time() - t0
    res["undecided"] = sorted(set(res["undecided"]))[:20]
    return res


def conc_check(c, seed, n, secs, more=0):
    """n runs, and up to `more` times as many while they take less than MORE_S"""
    t0 = time.time()
    res = dict(name=c.name, prop=c.prop, runs=0, skipped=0, evaluations=0, violation=None, errors=[], cls="concrete")
    k = 0
    while (res["runs"] < n and k < 40 * n and time.time() - t0 < secs) or (res["runs"] < more * n and k < 40 * more * n and time.time() - t0 < MORE_S):
        st, S, tb = conc_run(c, seed * 100003 + k)
        if st == "skip":
            res["skipped"] += 1
        elif st == "error":
            res["errors"].append(tb[-1500:])
            if len(res["errors"]) > 3:
                break
        else:
            res["runs"] += 1
            res["evaluations"] += sum(S.held.values())
            if st == "fail":
                res["violation"] = dict(values={}, choices=None, seed=seed * 100003 + k, failed=S.fail[:8], used=_jsonable(S.used),
                                        traceback=tb, obligation=S.fail[0], big=c.opts.get("big"))
                break
        k += 1
    res["secs"] = time.time() - t0
    return res


MORE_S = 2.5
BIG = [7, 10, 17, 33, 65, 101, 130, 260, 520, 1030]


def task(args):
    prop, idx, what, seed, tier, debug, prefixes, slice, spent = args
    import warnings
    warnings.filterwarnings("ignore")
    c = REG[prop][idx]
    if tier == "thorough":
        c.opts = dict(c.opts, budget=c.opts.get("budget", 60) * 3, timeout=c.opts.get("timeout", 4000) * 4)
    if debug:
        c.opts = dict(c.opts, debug=debug)
    try:
        if what == "sym":
            return sym_run(c, seed=seed, prefixes=prefixes, slice=slice, spent=spent)
        if what == "deep":
            # what the symbolic evaluation left open: search longer, and in large batches too
            c.opts = dict(c.opts, big=BIG)
            return conc_check(c, seed + 17, 400, slice)
        n = c.opts.get("conc", 60) * (10 if tier == "thorough" else 1)
        return conc_check(c, seed, n, c.opts.get("conc_s", 15) * (6 if tier == "thorough" else 1), 0 if tier == "thorough" else 6)
    except Exception:
        return dict(name=c.name, prop=prop, cls="symbolic" if what == "sym" else "concrete", crash=traceback.format_exc()[-2000:], violation=None,
                    obligations={}, undecided=["checker error"], paths=0, runs=0, secs=0.0, solver_s=0, errors=[], covers=list(c.covers),
                    evaluations=0, skipped=0, complete=False, witnessed=0, infeasible=0, checks=0, bounded=c.opts.get("bounded"))
