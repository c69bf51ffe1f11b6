import argparse, os, sys
from .driver import run
ap = argparse.ArgumentParser()
ap.add_argument("pid"); ap.add_argument("tier", nargs="?", default=os.environ.get("VERIF_TIER", "quick"))
ap.add_argument("--replay"); ap.add_argument("--workers", type=int)
a = ap.parse_args()
sys.exit(run(a.pid, a.tier, int(os.environ.get("VERIF_SEED", "1")), replay=a.replay, nworkers=a.workers))
