#!/usr/bin/env python3-vt
"""check.py PROPERTY [--tier quick|thorough]: decides one property by static analysis of /repo's current sources."""
import argparse, importlib, os, sys
os.environ.setdefault("OPENBLAS_NUM_THREADS", "8")
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
WHERE = {"P01": "ntt", "P02": "ntt", "P03": "ntt", "P04": "ntt", "P05": "prod", "P06": "prod", "P07": "prod", "P08": "prod", "P09": "tab", "P13": "tab", "P14": "tab", "P10": "util", "P11": "util", "P12": "mem", "P20": "mem", "P23": "mem", "P16": "itv", "P18": "itv", "P19": "itv", "P25": "itv", "P15": "gen", "P17": "bounds", "P24": "bounds"}


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property", nargs="?")
    ap.add_argument("--setup", action="store_true", help="build the analyser and stop")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
    a = ap.parse_args()
    if a.setup:
        from va import front
        print(front.engine_path()); return 0
    m = importlib.import_module("va.checks_" + WHERE[a.property])
    from va.front import FrontError
    try:
        rc = getattr(m, a.property.lower())(a.tier)
    except FrontError as x:
        print("ERROR: the sources could not be prepared: %s" % x); rc = 3
    sys.stdout.flush()
    return rc


if __name__ == "__main__":
    sys.exit(main())
