"""python tools/rt.py C12 [seed] - run the bounded contracts of one property"""
import importlib, os, pathlib, sys
sys.path.insert(0, str(pathlib.Path(__file__).resolve().parent.parent))
from dv.rt import MODULES, one, run
# python -m dv.rt C12 [seed]
p = sys.argv[1]
if len(sys.argv) > 2:
    importlib.import_module(MODULES[p])
    sd = int(sys.argv[2])
    print(one((p, sd % 1000, sd)))
else:
    r = run(p, int(os.environ.get("VERIF_SEED", "1")), os.environ.get("VERIF_TIER", "quick"))
    print({k: v for k, v in r.items() if k in ("evaluations", "distinct")}, r["extra"]["per_contract"], "skipped", r["extra"]["skipped_inputs"], r["extra"]["bounded_wall_s"])
    for v in r["violations"][:8]:
        print("VIOL", v["seed"], v["case"], v["what"][:500])
    for h in r["extra"]["harness_errors"]:
        print("HARNESS", r["extra"]["n_harness_errors"], h["seed"], h["case"], h["what"])
