"""Verdicts, evidence and replay files."""
import os, sys, json, time, importlib, multiprocessing as mp
from . import engine

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
COMMON_TRUST = [
    "vc/ (the verification-condition generator: numpy stand-in, polynomial scalars, path exploration) written for this task",
    "CPython 3.12 executing the unmodified source text of /repo under the stand-ins",
    "z3 5.3 / cvc5 1.1.2 when an obligation is not closed by the generator's own exact normal forms",
]
COMMON_ASSUME = [
    "machine floats are treated as mathematical reals (float literals as their decimal value); rounding is out of scope",
    "numpy operations follow the contracts encoded in vc/nparr.py (cross-checked by running the same contracts on real numpy every run)",
    "one generic lane stands for every ray of a batch of any size; lane independence is itself checked by label propagation on every data movement",
]


def _pool(tasks, jobs, cap):
    """run tasks in killable worker processes; a symbolic task may return unexplored prefixes, which are handed to further workers"""
    out = [None] * len(tasks)
    work = [(i, t, None, 0.0) for i, t in enumerate(tasks)]      # (slot, task, prefixes, spent)
    pend = {i: 1 for i in range(len(tasks))}
    running = {}
    ctx = mp.get_context("fork")
    t_end = time.time() + cap
    n = 0
    while work or running:
        while work and len(running) < jobs:
            i, t, pre, spent = work.pop(0)
            r, w = ctx.Pipe(False)
            slice = (4.0 if pre is None else 6.0) if t[2] == "sym" else t[-1] - 15
            p = ctx.Process(target=_work, args=(t[:-1] + (pre, slice, spent), w))
            p.start()
            w.close()
            n += 1
            running[n] = (p, r, time.time(), i, t)
        for k in list(running):
            p, r, t0, i, t = running[k]
            done, res = False, None
            if r.poll(0):
                try:
                    res = r.recv()
                except EOFError:
                    res = None
                done = True
            elif not p.is_alive():
                done = True
            elif time.time() > t_end + (60 if t[2] == "conc" else 0) or time.time() - t0 > t[-1]:
                p.kill()
                done = True
            if not done:
                continue
            p.join()
            r.close()
            del running[k]
            if t[2] == "sym":
                if res is None:
                    res = engine.lost(t[0], t[1])
                if out[i] is not None or res.get("leftover"):
                    res = engine.merge_sym(out[i], res)
                left = res.pop("leftover", None)
                out[i] = res
                if left and not res["violation"] and not res.get("gave_up") and res.get("nfailing", 0) < 6 and time.time() < t_end:
                    m = min(len(left), jobs)
                    for q in range(m):
                        work.append((i, t, left[q::m], res["secs"]))
                elif left:
                    res["complete"] = False
            else:
                out[i] = res
            if res and res.get("violation"):
                t_end = min(t_end, time.time() + 20)  # the verdict is settled: finish up
            elif t[2] == "sym" and res and res.get("failed") and not judged_elsewhere(t[0], t[1]):
                t_end = min(t_end, time.time() + 150)  # an obligation has failed: what else fails matters less
        if time.time() > t_end:
            work = [x for x in work if x[1][2] == "conc"]
        time.sleep(0.01)
    for r in out:
        if r is not None and r["cls"] == "symbolic" and "crash" not in r:
            engine.vacuity(r)
    return out


def judged_elsewhere(prop, i): return engine.REG[prop][i].opts.get("partial") or engine.REG[prop][i].opts.get("advisory")


def _work(t, w):
    try:
        w.send(engine.task(t))
    finally:
        w.close()


def check(prop, tier, seed, only=None, what="both", debug=0, jobs=8, evidence=True):
    t0 = time.time()
    cs = engine.REG.get(prop, [])
    mod = importlib.import_module("props.%s" % prop.lower())
    tasks = []
    meta = []
    mult = 3 if tier == "thorough" else 1
    for i, c in enumerate(cs):
        if only and only not in c.name:
            continue
        if what in ("both", "sym") and c.opts.get("sym", True):
            tasks.append((prop, i, "sym", seed, tier, debug, c.opts.get("budget", 60) * mult + 40))
            meta.append((i, "sym"))
    for i, c in enumerate(cs):
        if only and only not in c.name:
            continue
        if what in ("both", "conc") and not c.opts.get("advisory") and c.opts.get("conc", 60) > 0:
            tasks.append((prop, i, "conc", seed, tier, debug, c.opts.get("conc_s", 15) * (6 if tier == "thorough" else 1) + 30))
            meta.append((i, "conc"))
    # concrete runs first, then the longest first
    order = sorted(range(len(tasks)), key=lambda k: (meta[k][1] == "sym", -tasks[k][-1]))
    rs = _pool([tasks[k] for k in order], jobs, 820 if tier == "thorough" else 420)
    out = [None] * len(tasks)
    for k, r in zip(order, rs):
        out[k] = r
    violations, findings = [], []
    syms, concs = [], []
    for k, (i, w) in enumerate(meta):
        r = out[k]
        if r is None:
            r = out[k] = dict(name=cs[i].name, prop=prop, cls="symbolic" if w == "sym" else "concrete", obligations={}, undecided=["stopped: time"], paths=0, runs=0,
                     secs=0.0, solver_s=0.0, violation=None, errors=[], covers=list(cs[i].covers), evaluations=0, skipped=0, complete=False, witnessed=0,
                     infeasible=0, checks=0, bounded=cs[i].opts.get("bounded"))
        (syms if w == "sym" else concs).append(r)
        if r.get("violation"):
            violations.append((i, r))
        if debug or os.environ.get("VC_VERBOSE"):
            print(fmt(r))
    # known findings
    for fid, fn in getattr(mod, "FINDINGS", {}).items():
        ent = [e for e in known() if e["id"] == fid and e["property"] == prop and e["status"] == "open"]
        try:
            broken = fn()
        except Exception as e:
            broken = True
        if broken and ent:
            findings.append(ent[0])
            print("KNOWN-FINDING: property=%s %s" % (prop, ent[0]["what"]))
        elif broken and not ent:
            rp = write_replay(prop, dict(contract=None, finding=fid, what="finding %s is not listed as known" % fid))
            print("VIOLATION property=%s replay=%s" % (prop, rp))
            violations.append((None, None))
    # what the symbolic evaluation left open is searched longer for a failing input
    settled = {i for i, r in violations}
    left = [(i, r) for (i, w), r in zip(meta, out) if w == "sym" and i not in settled and (not ok(r) or os.environ.get("VC_DEEP")) and not cs[i].opts.get("advisory") and cs[i].opts.get("conc", 60) > 0]
    secs = 3 if settled else 25 if len(left) <= jobs else max(8, 200 * jobs // len(left) // 8)
    deep = {}
    for (i, r), x in zip(left, _pool([(prop, i, "deep", seed, tier, debug, secs + 15) for i, r in left], jobs, max(20, min(300, t0 + (870 if tier == "thorough" else 620) - time.time())))):
        if x is None:
            continue
        deep[i] = x
        for y in concs:
            if y["name"] == x["name"]:
                y["runs"] += x["runs"]
                y["evaluations"] += x["evaluations"]
        if x.get("violation"):
            violations.append((i, x))
    seen = set()
    for i, r in violations:
        if i is None or i in seen:
            continue
        seen.add(i)
        v = r["violation"]
        rp = write_replay(prop, dict(contract=cs[i].name, obligation=v["obligation"], failed=v["failed"], values=v["values"], choices=v["choices"],
                                     seed=v["seed"], big=v.get("big"), inputs=v.get("used"), traceback=v.get("traceback"), found_by=r["cls"], covers=list(cs[i].covers),
                                     command="vc/py run.py %s --replay <this file>" % prop))
        print("  %s: obligation '%s' fails on the real code" % (cs[i].name, v["failed"][0] if v["failed"] else v["obligation"]))
        print("VIOLATION property=%s replay=%s" % (prop, rp))
    # an obligation the verifier did not accept and for which no failing input was found
    for (i, w), r in zip(meta, out):
        if w != "sym" or r is None or i in seen or not r.get("failed") or cs[i].opts.get("partial") or cs[i].opts.get("advisory"):
            continue
        rp = write_replay(prop, dict(contract=cs[i].name, obligation=r["failed"][0], failed=r["failed"], verifier_output=r["undecided"], values={},
                                     choices=None, seed=0, inputs=None, covers=list(cs[i].covers)))
        print("  %s: obligation '%s' is not accepted by the verifier: %s" % (cs[i].name, r["failed"][0], "; ".join(r["undecided"][:3])))
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, rp))
        violations.append((i, r))
        seen.add(i)
    nobl = sum(d["proved"] + d["open"] for r in syms for d in r["obligations"].values())
    ndis = sum(d["proved"] for r in syms for d in r["obligations"].values())
    extra = sum(1 for r in syms if not r["complete"])
    wall = time.time() - t0
    print("%s: %d contracts, %d/%d obligations discharged on %d paths, %d concrete evaluations, %.1f s%s" % (
        prop, len(syms), ndis, nobl, sum(r["paths"] for r in syms), sum(r["evaluations"] for r in concs), wall,
        "" if ndis == nobl and not extra else " (%d contracts not fully discharged: decided by the bounded concrete stand-in)" % sum(1 for r in syms if not ok(r))))
    if evidence:
        write_evidence(prop, tier, seed, cs, syms, concs, findings, len(violations), wall, mod)
    if not debug and not nobl and not sum(r["evaluations"] for r in concs):
        print("error: nothing was checked")
        for r in syms + concs:
            print(r.get("crash") or r.get("undecided"), r.get("errors"))
        return 3
    return 1 if violations else 0


def ok(r):
    return r["complete"] and r["witnessed"] and all(d["open"] == 0 for d in r["obligations"].values())


def fmt(r):
    if r["cls"] == "symbolic":
        s = "[sym ] %-60s %s paths %d (infeasible %d, witnessed %d) obl %d/%d %.1fs solver %.1fs" % (
            r["name"], "OK  " if ok(r) else "OPEN", r["paths"], r["infeasible"], r["witnessed"], sum(d["proved"] for d in r["obligations"].values()),
            sum(d["proved"] + d["open"] for d in r["obligations"].values()), r["secs"], r["solver_s"])
        for u in r["undecided"][:12]:
            s += "\n        open: " + u[:300]
    else:
        s = "[conc] %-60s runs %d skipped %d evaluations %d errors %d %.1fs" % (r["name"], r["runs"], r["skipped"], r["evaluations"], len(r["errors"]), r["secs"])
        for e in r["errors"][:2]:
            s += "\n" + e
    if r.get("crash"):
        s += "\n" + r["crash"]
    if r.get("violation"):
        s += "\n        VIOLATION %s" % json.dumps({k: v for k, v in r["violation"].items() if k != "values"}, default=str)[:1500]
    return s


def known():
    p = os.path.join(HERE, "known_findings.json")
    return json.load(open(p))["entries"] if os.path.exists(p) else []


def write_replay(prop, d):
    os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
    n = 0
    while True:
        rp = os.path.join(HERE, "replays", "%s-%d.json" % (prop, n))
        if not os.path.exists(rp):
            break
        n += 1
        if n > 50:
            break
    d["property"] = prop
    with open(rp, "w") as f:
        json.dump(d, f, indent=1, default=str)
    return rp


def replay(prop, path):
    d = json.load(open(path))
    for c in engine.REG[prop]:
        if c.name == d["contract"]:
            if "verifier_output" in d:
                print("failed obligations:", d["failed"], "\n", "\n".join(d["verifier_output"]))
            if d.get("big"):
                c.opts = dict(c.opts, big=d["big"])
            st, S, tb = engine.conc_run(c, d["seed"], d["values"], [tuple(x) for x in d["choices"]] if d["choices"] is not None else None)
            print("replay %s: %s" % (c.name, st))
            for f in S.fail:
                print("  failed obligation:", f)
            print("  inputs:", json.dumps(engine._jsonable(S.used)))
            if tb:
                print(tb)
            if st == "fail":
                print("VIOLATION property=%s replay=%s" % (prop, path))
                return 1
            return 0
    print("no contract named", d["contract"])
    return 2


def write_evidence(prop, tier, seed, cs, syms, concs, findings, nviol, wall, mod):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    level = getattr(mod, "LEVEL", "proof")
    full = [r for r in syms if ok(r) and not r["bounded"]]
    bnd = [r for r in syms if ok(r) and r["bounded"]]
    opn = [r for r in syms if not ok(r)]
    symnames = {r["name"] for r in syms}
    backends = {}
    for r in syms:
        for d in r["obligations"].values():
            for b, n in d["by"].items():
                backends[b] = backends.get(b, 0) + n

    def row(r):
        return dict(contract=r["name"], functions=r["covers"], paths=r["paths"], obligations={k: d["proved"] + d["open"] for k, d in r["obligations"].items()},
                    seconds=round(r["secs"], 2), solver_seconds=round(r["solver_s"], 2), **({"bound": r["bounded"]} if r["bounded"] else {}))
    proved_obl = sum(d["proved"] for r in full for d in r["obligations"].values())
    total_obl = sum(d["proved"] + d["open"] for r in syms if not r["bounded"] for d in r["obligations"].values())
    cov = dict(
        obligations=total_obl,
        discharged=sum(d["proved"] for r in syms if not r["bounded"] for d in r["obligations"].values()),
        checker_cmd="/verif/vc/py /verif/run.py %s --tier %s" % (prop, tier),
        trusted_base=COMMON_TRUST + list(getattr(mod, "TRUST", [])),
        back_ends=backends,
        solver_seconds=round(sum(r["solver_s"] for r in syms), 2),
        functions_under_contract=sorted({f for r in full for f in r["covers"]}),
        proved_contracts=[row(r) for r in full],
        bounded_contracts=[row(r) for r in bnd],
        bounded_obligations_discharged=sum(d["proved"] for r in bnd for d in r["obligations"].values()),
        undischarged_contracts=[dict(row(r), reasons=r["undecided"][:8]) for r in opn],
        concrete_only_contracts=[dict(contract=r["name"], runs=r["runs"]) for r in concs if r["name"] not in symnames],
        concrete_cross_check=dict(contracts=len(concs), runs=sum(r["runs"] for r in concs),
                                  rejected_by_precondition=sum(r["skipped"] for r in concs), harness_errors=sum(len(r["errors"]) for r in concs)),
        paths=sum(r["paths"] for r in syms),
        vacuity="every contract counted as proved generated obligations and has a path whose assumptions have a numeric witness",
        known_findings=[f["what"] for f in findings],
        evaluations=sum(r["evaluations"] for r in concs),
        explanation=getattr(mod, "EXPLAIN", "") or "see DESIGN.md",
    )
    ev = dict(property=prop, tier=tier if tier in ("quick", "thorough") else "quick", seed=seed, level=level, coverage=cov,
              assumptions=COMMON_ASSUME + list(getattr(mod, "ASSUME", [])), wall_s=round(wall, 2), violations=nviol)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
