"""
Check driver:  python -m dv.run C01 [C02 ...]

1. deductive part: every contract registered for the property is verified
   against the code objects compiled from /repo on this run (dv.verify);
2. bounded part: the same contracts evaluated on generated networks with the
   real libraries.  It confirms refuted obligations, stands in for functions the
   verifier cannot interpret, and cross-checks the verifier's library model.

Verdict: exit 1 with VIOLATION if a contract is violated on a concrete input or
an obligation is refuted; exit 0 otherwise.
"""
from __future__ import annotations

import importlib
import json
import os
import pathlib
import sys
import time

ROOT = pathlib.Path(__file__).resolve().parent.parent
os.environ.setdefault("OMP_NUM_THREADS", "1")
os.environ.setdefault("PYTHONHASHSEED", "0")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
if TIER not in ("quick", "thorough"):
    TIER = "quick"


def known_findings(prop):
    f = ROOT / "known-findings.json"
    if not f.exists():
        return []
    return [k for k in json.loads(f.read_text()) if k.get("property") == prop and k.get("status") == "known"]


def main(prop):
    t0 = time.time()
    from dv.registry import PROPS
    P = PROPS[prop]
    sym = {"obligations": [], "functions": [], "undecided": [], "assumptions": [], "wall": 0.0}
    if P.get("deductive"):
        from dv import verify
        sym = verify.run(prop, P["deductive"], TIER)
    bounded = None
    if P.get("bounded"):
        mod = importlib.import_module(P["bounded"])
        refuted = [o for o in sym["obligations"] if o["status"] == "refuted"]
        bounded = mod.run(prop, SEED, TIER, bool(refuted))
    return report(prop, P, sym, bounded, t0)


def report(prop, P, sym, bounded, t0):
    obs = sym["obligations"]
    proved = [o for o in obs if o["status"] == "proved"]
    refuted = [o for o in obs if o["status"] == "refuted"]
    unknown = [o for o in obs if o["status"] == "unknown"]
    viol = list(bounded["violations"]) if bounded else []
    known = known_findings(prop)
    new, seen = [], set()
    for v in viol:
        k = next((k for k in known if k["match"] in v["what"]), None)
        if k is None:
            new.append(v)
        elif k["match"] not in seen:
            seen.add(k["match"])
            print(f"KNOWN-FINDING: property={prop} {k['what']}")
    cov = {}
    level = P["level"]
    if P.get("deductive"):
        cov.update(obligations=len(obs), discharged=len(proved), undischarged_unknown=len(unknown),
                   refuted=len(refuted), checker_cmd=f"python -m dv.run {prop}  (z3 {sym.get('z3', '')})",
                   solver_seconds=round(sym.get("solver_s", 0), 2), solver_queries=sym.get("queries", 0),
                   simplifier_discharged=sum(1 for o in obs if o.get("detail") == "simplifier"),
                   paths_explored=sym.get("paths", 0),
                   functions_under_contract=sym["functions"], undecided_functions=sym["undecided"],
                   trusted_base=P.get("trusted", []) + TRUST)
    if bounded:
        cov.update(evaluations=bounded["evaluations"], distinct_nontrivial=bounded["distinct"], rule=bounded["rule"],
                   samples=bounded["samples"], bounded_note="bounded evaluation of contracts on concrete inputs; not counted as proved")
        for k, v in bounded.get("extra", {}).items():
            cov[k] = v
    ev = dict(property=prop, tier=TIER, seed=SEED, level=level, coverage=cov,
              assumptions=sym["assumptions"] + P.get("assumptions", []), wall_s=round(time.time() - t0, 2),
              violations=len(new) + len(refuted))
    (ROOT / "evidence").mkdir(exist_ok=True)
    (ROOT / "evidence" / f"{prop}.json").write_text(json.dumps(ev, indent=1, default=str))
    if new or refuted:
        rp = ROOT / "evidence" / f"replay-{prop}.json"
        rp.write_text(json.dumps(dict(property=prop, seed=SEED, concrete_violations=new[:10],
                                      refuted_obligations=refuted[:20], undecided=sym["undecided"]), indent=1, default=str))
        for v in new[:3]:
            print("  " + v["what"][:600])
        for o in refuted[:3]:
            print(f"  refuted obligation {o['function']}: {o['name']}  {o.get('detail', '')[:300]}")
        tail = "" if new else " no-failing-input-found"
        print(f"VIOLATION property={prop} replay={rp}{tail}")
        return 1
    msg = f"{prop}: held"
    if P.get("deductive"):
        msg += f"; {len(proved)}/{len(obs)} obligations discharged over {len(sym['functions'])} functions"
        if sym["undecided"]:
            msg += f"; undecided: {[u['function'] for u in sym['undecided']]}"
    if bounded:
        msg += f"; bounded: {bounded['evaluations']} evaluations"
    print(msg + f"; {time.time() - t0:.1f}s")
    return 0


TRUST = [
    "CPython's execution of the loaded code objects",
    "dv/core.py, dv/arr.py, dv/world.py: the axiomatised labelled-array semantics of pandas, xarray and linopy operations (cross-checked against the real libraries by the bounded part on every run)",
    "z3",
    "machine floating point treated as exact real arithmetic",
]

if __name__ == "__main__":
    rc = 0
    for p in sys.argv[1:]:
        rc |= main(p)
    sys.stdout.flush()
    os._exit(rc)
