#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--seed N]"""
import argparse, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import build, run
from registry import REGISTRY
a = argparse.ArgumentParser()
a.add_argument("property")
a.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
a.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
o = a.parse_args()
try:
    sys.exit(run.main(o.property, REGISTRY, o.tier, o.seed))
except build.BuildError as e:
    print("could not build the harness:\n" + str(e))
    sys.exit(2)
except run.CheckError as e:
    print("check could not be carried out:\n" + str(e))
    sys.exit(2)
