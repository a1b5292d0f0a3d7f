#!/usr/bin/env python3
"""check.py <property id> [--tier quick|thorough] [--case NAME] -- decide one property of /repo."""
import argparse
import importlib
import os
import sys

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONDONTWRITEBYTECODE", "1")
for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(v, "1")
VT = "/opt/veriftools/pyvenv/bin/python"
if sys.version_info < (3, 12) or not importlib.util.find_spec("numpy"):
    if sys.executable != VT and os.path.exists(VT):
        os.execv(VT, [VT] + sys.argv)
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--list", action="store_true")
    a = ap.parse_args()
    from checks import REGISTRY
    from fvsa import harness

    m = importlib.import_module("checks." + REGISTRY[a.prop])
    cases = m.cases(a.tier)
    if a.list:
        print("\n".join(n for n, _, _ in cases))
        return 0
    if a.case:
        cases = [x for x in cases if a.case in x[0]]
    return harness.run(a.prop, m.TITLE, cases, a.tier, m.TECHNIQUE, m.EXPLANATION, getattr(m, "ASSUMPTIONS", []))


if __name__ == "__main__":
    sys.exit(main())
