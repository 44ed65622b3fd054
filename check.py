#!/opt/venv/bin/python
"""check.py C01 [--tier quick|thorough] [--seed N]     run one property's check
   check.py --replay FILE                              re-run a saved failing case"""
import argparse
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
for p in (os.path.join(HERE, "vendor"), HERE):
    if p not in sys.path:
        sys.path.insert(0, p)
sys.dont_write_bytecode = True
for k, v in dict(JAX_PLATFORMS="cpu", MPLBACKEND="Agg", TF_CPP_MIN_LOG_LEVEL="3").items():
    os.environ.setdefault(k, v)
if "/repo/src" not in sys.path:
    sys.path.insert(1, "/repo/src")

from harness import core

ap = argparse.ArgumentParser()
ap.add_argument("prop", nargs="?")
ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
ap.add_argument("--replay")
ap.add_argument("--worker", nargs=2)
ap.add_argument("--shard", type=int, default=0)
ap.add_argument("--out")
a = ap.parse_args()
if a.worker:
    sys.exit(core.worker(a.worker[0], a.worker[1], a.seed, a.tier, a.shard, a.out))
if a.replay:
    sys.exit(core.replay(a.replay))
sys.exit(core.check(a.prop, a.tier, a.seed))
