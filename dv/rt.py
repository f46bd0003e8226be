"""
Run-time contracts (bounded stand-in): each property module registers contract
functions `case(g, C)` that build inputs with the generator `g`, call the real
functions of /repo and evaluate their postconditions through `C`.  Nothing here
counts as proof; the evidence says "bounded".
"""
from __future__ import annotations

import importlib
import io
import contextlib
import os
import sys
import time
import traceback
import warnings

warnings.filterwarnings("ignore")
import logging

logging.disable(logging.CRITICAL)

import numpy as np
import pandas as pd


class Stop(Exception):
    pass


class Check:
    """collects evaluations of postconditions"""

    def __init__(self):
        self.n, self.bad = 0, []
        self.note = None

    def fail(self, what):
        self.bad.append(what)
        if len(self.bad) >= 6:
            raise Stop

    def ok(self, what, cond, detail=""):
        self.n += 1
        if not bool(cond):
            self.fail(f"{what} {detail}"[:700])
            return False
        return True

    def same(self, what, got, want):
        self.n += 1
        try:
            eq = got == want
            eq = bool(eq)
        except Exception:
            eq = False
        if not eq:
            self.fail(f"{what}: got {str(got)[:250]}, contract demands {str(want)[:250]}")

    def close(self, what, got, want, tol=1e-6, rel=1e-6):
        """scalars or arrays; NaN matches NaN"""
        self.n += 1
        try:
            a, b = np.asarray(got, dtype=complex), np.asarray(want, dtype=complex)
        except Exception:
            return self.fail(f"{what}: got {str(got)[:250]}, contract demands {str(want)[:250]}")
        if a.shape != b.shape:
            return self.fail(f"{what}: shape {a.shape} instead of {b.shape}")
        with np.errstate(all="ignore"):
            fin = np.isfinite(a) & np.isfinite(b)
            ok = np.where(fin, np.abs(a - b) <= tol + rel * np.abs(b), (a == b) | (np.isnan(a) & np.isnan(b)))
        if not ok.all():
            k = tuple(int(x) for x in np.argwhere(~ok)[0]) if ok.shape else ()
            self.fail(f"{what}: at {k} got {a[k]:.6g}, contract demands {b[k]:.6g}".replace("+0j", ""))

    def frame(self, what, got, want, tol=1e-9, rel=1e-9):
        """labelled frames/series: same labels in the same order, same values"""
        self.n += 1
        if not isinstance(got, type(want)):
            return self.fail(f"{what}: got a {type(got).__name__}")
        if not got.index.equals(want.index):
            return self.fail(f"{what}: rows {list(got.index)[:12]} instead of {list(want.index)[:12]}")
        if isinstance(want, pd.DataFrame) and list(got.columns) != list(want.columns):
            return self.fail(f"{what}: columns {list(got.columns)[:12]} instead of {list(want.columns)[:12]}")
        try:
            self.close(what, got.values.astype(float), want.values.astype(float), tol, rel)
        except (TypeError, ValueError):
            if not (got.astype(object).where(got.notna(), None).values == want.astype(object).where(want.notna(), None).values).all():
                self.fail(f"{what}: values differ")


CASES = {}          # property -> list of (name, function, weight)


def contract(prop, name=None):
    def deco(fn):
        CASES.setdefault(prop, []).append((name or fn.__name__, fn))
        return fn
    return deco


MODULES = {"C10": "dv.rt_core", "C11": "dv.rt_core", "C16": "dv.rt_core", "C17": "dv.rt_core", "C18": "dv.rt_core",
           "C12": "dv.rt_pf", "C13": "dv.rt_pf", "C14": "dv.rt_pf", "C15": "dv.rt_pf",
           "C09": "dv.rt_solve", "C19": "dv.rt_solve", "C21": "dv.rt_solve", "C22": "dv.rt_solve", "C23": "dv.rt_solve",
           "C24": "dv.rt_solve", "C20": "dv.rt_cluster"}
COUNT = {"C09": 96, "C19": 160, "C21": 56, "C22": 120, "C23": 56, "C24": 120, "C17": 48, "C20": 320, "C12": 160}


def one(job):
    prop, idx, seed = job
    os.environ["OMP_NUM_THREADS"] = "1"
    importlib.import_module(MODULES[prop])
    from dv.gen import G
    cases = CASES[prop]
    name, fn = cases[idx % len(cases)]
    C = Check()
    np.random.seed(seed % 2**31)
    buf = io.StringIO()
    try:
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            fn(G(seed), C)
    except Stop:
        pass
    except Exception as e:
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if "/pypsa/" in f.filename]
        if not own:
            return seed, name, "harness", [traceback.format_exc()[-900:]], C.n, C.note
        w = own[-1]
        C.bad.append(f"{name}: {type(e).__name__}: {str(e)[:200]} raised by {w.name} ({os.path.basename(w.filename)}:{w.lineno}) on a valid input")
    if C.bad:
        return seed, name, "bad", C.bad, C.n, C.note
    return seed, name, "ok", [], C.n, C.note


def run(prop, seed, tier, hint=False):
    from dv.pool import pmap
    importlib.import_module(MODULES[prop])
    k = COUNT.get(prop, 200)
    count, budget = (k, 150) if tier == "quick" else (k * 12, 500)
    if hint:
        count, budget = count * 3, budget * 2
    t0 = time.time()
    n_eval, comps, viol, harness, samples, skipped = 0, 0, [], [], [], 0
    distinct, per = set(), {}
    jobs = [(prop, i, 100000 * seed + 1000 * int(prop[1:]) + i) for i in range(count)]
    for sd, name, st, bad, n, note in pmap(one, jobs, budget):
        n_eval += 1
        comps += n
        if st == "harness":
            harness.append(dict(seed=sd, case=name, what=bad[0]))
        elif st == "bad":
            for b in bad[:4]:
                viol.append(dict(seed=sd, case=name, what=b, input=note))
        elif n == 0:
            skipped += 1
        if n:
            distinct.add(sd)
            per[name] = per.get(name, 0) + n
            if len(samples) < 2:
                samples.append(dict(seed=sd, case=name, comparisons=n, input=note))
        if len({v["seed"] for v in viol}) >= 3:
            break
    if not comps and not viol:
        viol.append(dict(seed=None, case="-", what="no postcondition could be evaluated", input=harness[:1]))
    return dict(evaluations=n_eval, distinct=len(distinct), violations=viol, samples=samples,
                rule=f"seeded random inputs for the contracts {[c for c, _ in CASES[prop]]}; non-trivial: at least one postcondition evaluated; distinct by seed",
                extra=dict(postconditions_evaluated=comps, per_contract=per, skipped_inputs=skipped,
                           harness_errors=harness[:3], n_harness_errors=len(harness), bounded_wall_s=round(time.time() - t0, 1)))
