#!/opt/venv/bin/python
"""check.py ID [--replay FILE]: explore one property.  VERIF_TIER=quick|thorough, VERIF_SEED=n."""
import os
import sys

VERIF = os.path.dirname(os.path.abspath(__file__))
os.environ.setdefault("MPLBACKEND", "Agg")
_mpl = "/opt/pyrayt/mplconfig"
os.environ.setdefault("MPLCONFIGDIR", _mpl if os.path.isdir(_mpl) else "/tmp/verif-mplconfig")
for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")
sys.dont_write_bytecode = True
REPO = os.environ.get("VERIF_REPO", "/repo")
sys.path.insert(0, VERIF)
sys.path.insert(0, REPO)

import warnings

warnings.simplefilter("ignore")
import argparse
import importlib
import json


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("id")
    ap.add_argument("--replay")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    a = ap.parse_args()
    import numpy as np
    np.seterr(all="ignore")
    import pyrayt
    assert os.path.abspath(pyrayt.__file__).startswith(os.path.abspath(REPO) + os.sep), pyrayt.__file__
    from mc import core
    mod = importlib.import_module("checks." + a.id.lower())
    replay, tier = None, a.tier
    if a.replay:
        r = json.load(open(a.replay))
        replay, tier = r["key"], r["tier"]
    maxv = int(os.environ.get("VERIF_MAXV", "2"))
    shards = 1 if a.replay else min(getattr(mod, "SHARDS", 8), int(os.environ.get("VERIF_SHARDS", "8")))

    def explore(shard):
        ctx = core.Ctx(a.id, tier, int(os.environ.get("VERIF_SEED", "1")), mod.LEVEL, mod.RULE, replay, maxv, shard)
        ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        try:
            mod.run(ctx)
        except core.Stop:
            pass
        return ctx

    if shards == 1:
        ctx = explore((0, 1))
    else:
        ctx = core.Ctx(a.id, tier, int(os.environ.get("VERIF_SEED", "1")), mod.LEVEL, mod.RULE, replay, maxv)
        ctx.assumptions = list(getattr(mod, "ASSUMPTIONS", []))
        for r in core.in_processes(lambda i: explore((i, shards)).result(), shards):
            ctx.merge(r)
    ctx.report()
    ctx.write_evidence()
    print(f"{a.id} {tier}: states={ctx.states} transitions={ctx.transitions} evaluations={ctx.evaluations} "
          f"nontrivial={ctx.nontrivial} ambiguous={ctx.ambiguous} violations={len(ctx.violations)}")
    print("outcomes:", dict(ctx.outcomes.most_common(12)))
    sys.exit(1 if ctx.violations else 0)


if __name__ == "__main__":
    main()
