#!/usr/bin/env python3
"""run.py PROPERTY [--tier quick|thorough] [--replay FILE] [--only SUBSTR] [--debug]"""
import sys, os, json, time, importlib, argparse
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import warnings
warnings.filterwarnings("ignore")
from vc import engine, report


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--what", default="both")
    ap.add_argument("--debug", type=int, default=0)
    ap.add_argument("-j", type=int, default=8)
    ap.add_argument("--noev", action="store_true")
    a = ap.parse_args()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    importlib.import_module("props.%s" % a.prop.lower())
    if a.replay:
        return report.replay(a.prop, a.replay)
    return report.check(a.prop, a.tier, seed, only=a.only, what=a.what, debug=a.debug, jobs=a.j, evidence=not (a.only or a.noev or a.what != "both"))


if __name__ == "__main__":
    sys.exit(main())
