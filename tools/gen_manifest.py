#!/usr/bin/env python3
"""Write MANIFEST.json: a check per property that has a props module."""
import json, os, ast, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
checks, na = [], []
NA = {}
for p in props:
    pid = p["id"]
    f = os.path.join(HERE, "props", pid.lower() + ".py")
    if not os.path.exists(f):
        na.append({"property": pid, "reason": NA.get(pid, "contracts for this property are still being written")})
        continue
    t = ast.parse(open(f).read())
    g = {}
    for n in t.body:
        if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id in ("LEVEL", "NOTE"):
            g[n.targets[0].id] = ast.literal_eval(n.value)
    checks.append({
        "property": pid,
        "quick_cmd": "vc/py run.py %s --tier quick" % pid,
        "thorough_cmd": "vc/py run.py %s --tier thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": "contract-based deductive verification of the real source (generated obligations, exact polynomial normal forms + z3/cvc5)",
        "level": g.get("LEVEL", "proof"),
        "level_note": ("Limits of this check: " + g["NOTE"] + ". " if "NOTE" in g else "") + ("Contracts on the real functions of /repo, for all inputs and batch sizes; floats are treated as real numbers, numpy by the contracts in "
                            "vc/nparr.py; obligations that stay open in a run are decided by running the same contract on the real code and are listed as such in the evidence."),
    })
d = {"version": 1, "setup_cmd": "chmod +x vc/py && vc/py run.py P29 --noev", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the checks execute its unmodified source text."}
json.dump(d, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
