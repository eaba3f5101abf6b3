#!/usr/bin/env python3
"""Fill DESIGN.md's generated parts (run with vc/py)."""
import os, sys, json, importlib, glob
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE); sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from vc import engine
t = open(os.path.join(HERE, "tools", "design.in.md")).read()
F = json.load(open(os.path.join(HERE, "known_findings.json")))["entries"]
t = t.replace("@FINDINGS@", "| commit | property | what failed |\n|---|---|---|\n" + "\n".join("| %s | %s | %s |" % (f["commit"], f["property"], f["what"].replace("|", "\\|")) for f in F))
R = os.path.join(HERE, "tools", "seed_results.json")
res = json.load(open(R)) if os.path.exists(R) else {}
rows = []
for d in sorted(glob.glob(os.path.join(HERE, "seeded", "*", "meta.json"))):
    m, n = json.load(open(d)), os.path.basename(os.path.dirname(d))
    rows.append("| %s | %s | %s | %s | %s |" % (n, m["property"], m["what_it_breaks"], m["needs"], res.get(n, "")))
t = t.replace("@SEEDS@", "| bug | check | what it breaks | needs | outcome |\n|---|---|---|---|---|\n" + "\n".join(rows))
X = os.path.join(HERE, "tools", "refactors.json")
t = t.replace("@REFACTORS@", "; ".join(json.load(open(X))) + "." if os.path.exists(X) else "(none recorded)")
out = []
for f in sorted(glob.glob(os.path.join(HERE, "props", "p[0-9][0-9].py"))):
    p = os.path.basename(f)[:-3].upper()
    m = importlib.import_module("props." + p.lower())
    seen = {}
    for c in engine.REG[p]:
        seen.setdefault(c.name.split("(")[0], []).append(c)
    out.append("\n**%s**" % p)
    cov = sorted({x for cs in seen.values() for c in cs for x in c.covers})
    out.append("\nfunctions: " + ", ".join("`%s`" % x.split(".", 1)[1] if x.startswith("pyrayt._") else "`%s`" % x.replace("tinygfx.g3d.", "") for x in cov) + "\n")
    for b, cs in seen.items():
        o, doc = cs[0].opts, (cs[0].doc or "").strip().split("\n")[0]
        k = "concrete, bounded" if o.get("sym") is False else "advisory induction" if o.get("advisory") else "bounded: %s" % o["bounded"] if o.get("bounded") else "proved"
        out.append("* `%s`%s (%s)%s" % (b, " ×%d" % len(cs) if len(cs) > 1 else "", k, ": " + doc if doc else ""))
t = t.replace("@CONTRACTS@", "\n".join(out))
open(os.path.join(HERE, "DESIGN.md"), "w").write(t)
