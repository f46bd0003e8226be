"""
Bounded part of the checks C01-C08: the contracts of dv/specs/opt.py evaluated
on the models that /repo's code builds for generated networks.  Never counted as
proof; it is the replay search for refuted obligations and the stand-in for
functions outside the verifier's reach.
"""
from __future__ import annotations

import os
import sys
import time
import traceback

# functions whose exceptions are attributed to a property
OWNERS = {
    "C01": ["define_nodal_balance_constraints", "get_strongly_meshed_buses"],
    "C02": ["define_operational_constraints_for_non_extendables", "define_operational_constraints_for_extendables",
            "define_nominal_constraints_for_extendables", "define_fixed_nominal_constraints", "define_fixed_operation_constraints",
            "define_modular_constraints", "define_operational_variables", "define_nominal_variables", "define_modular_variables",
            "define_spillage_variables", "define_total_supply_constraints", "get_bounds_pu"],
    "C03": ["define_operational_constraints_for_committables", "define_status_variables", "define_start_up_variables",
            "define_shut_down_variables"],
    "C04": ["define_ramp_limit_constraints"],
    "C05": ["define_storage_unit_constraints", "define_store_constraints"],
    "C06": ["define_kirchhoff_voltage_constraints", "define_loss_constraints", "define_loss_variables",
            "determine_network_topology", "find_cycles"],
    "C07": ["define_objective"],
    "C08": ["define_primary_energy_limit", "define_operational_limit", "define_transmission_volume_expansion_limit",
            "define_transmission_expansion_cost_limit", "define_tech_capacity_expansion_limit",
            "define_nominal_constraints_per_bus_carrier", "define_growth_limit"],
}
# feature forcing so that each property meets enough non-trivial cases
PROFILES = {
    "C01": [{}, {"multiport": True, "losses": 2}, {"meshed": True}, {"multi": True}, {"multiport": True, "extrabus": True},
            {"only": ("links", "loads"), "multiport": True}, {"only": ("generators", "storage", "loads"), "multi": True}],
    "C02": [{}, {"multi": True}, {"extendable": True}, {"losses": 2}, {}, {"only": ("storage",)}, {"only": ("generators", "links")},
            {"only": ("generators", "links"), "multi": True, "committable": True}],
    "C03": [{"committable": True, "extendable": False}, {"committable": True, "linearized": True, "extendable": False},
            {"committable": True, "subset": True, "multi": False, "extendable": False}, {"committable": True},
            {"only": ("generators", "links"), "committable": True, "extendable": False},
            {"only": ("generators", "links"), "committable": True, "extendable": False, "multi": True},
            {"only": ("generators", "links"), "committable": True, "subset": True, "multi": False},
            {"only": ("generators", "links"), "committable": True, "linearized": True, "multi": False}],
    "C04": [{"ramp": True}, {"ramp": True, "subset": True, "multi": False}, {"ramp": True, "committable": True, "extendable": False},
            {"ramp": True, "committable": True, "subset": True, "multi": False}, {"ramp": True, "multi": True},
            {"only": ("generators", "links"), "ramp": True}, {"only": ("generators", "links"), "ramp": True, "committable": True, "multi": False},
            {"only": ("generators", "links"), "ramp": True, "multi": True, "committable": False}],
    "C05": [{}, {"multi": True}, {"multi": True, "weights": True}, {"subset": True, "multi": False},
            {"only": ("storage",), "multi": True}, {"only": ("storage",), "multi": False}, {"only": ("storage",), "multi": True, "weights": True},
            {"only": ("generators",)}],
    "C06": [{"losses": 2}, {"losses": 3, "multi": True}, {"losses": 1}, {"multi": True}, {"losses": 0},
            {"only": ("branches",), "losses": 0}, {"only": ("branches",), "losses": 2}, {"only": ("branches",), "multi": True}],
    "C07": [{}, {"multi": True}, {"committable": True, "extendable": False}, {"extendable": True, "multi": True},
            {"only": ("generators", "links"), "committable": True}, {"only": ("storage", "branches"), "multi": True},
            {"only": ("storage", "links")}],
    "C08": [{"glc": True}, {"glc": True, "multi": True}, {"glc": True, "multi": True, "extendable": True},
            {"glc": True, "extendable": True}, {"only": ("generators", "storage"), "glc": True, "multi": True, "extendable": True},
            {"only": ("branches", "links"), "glc": True, "extendable": True}, {"only": ("generators", "storage"), "glc": True}],
}


def one(job):
    prop, seed, force = job
    os.environ["OMP_NUM_THREADS"] = "1"
    from dv import gen, optcheck
    try:
        n, sns, kw, m, S = gen.build(seed, **force)
    except Exception as e:
        fr = traceback.extract_tb(e.__traceback__)
        names = [f.name for f in fr if "pypsa" in f.filename]
        if not names:
            return seed, force, "harness", [traceback.format_exc()[-800:]], 0, None
        own = [p for p, fs in OWNERS.items() if any(f in fs for f in names)]
        where = [f for f in fr if "pypsa" in f.filename][-1]
        msg = f"building the model raised {type(e).__name__}: {str(e)[:200]} in {where.name} ({os.path.basename(where.filename)}:{where.lineno})"
        return seed, force, "raise:" + (",".join(own) or "?"), [msg], 0, None
    try:
        bad = optcheck.check(S, prop)
    except Exception:
        return seed, force, "harness", [traceback.format_exc()[-1200:]], 0, None
    shape = tuple(len(n.static(c)) for c in ("Generator", "Line", "Transformer", "Link", "Store", "StorageUnit", "Bus"))
    return seed, force, "ok" if not bad else "bad", bad, getattr(S, "ncmp", 0), (shape, len(sns), kw["multi_investment_periods"])


def jobs(prop, seed, count):
    prof = PROFILES[prop]
    return [(prop, 100000 * seed + 1000 * int(prop[1:]) + i, prof[i % len(prof)]) for i in range(count)]


def describe(seed, force):
    from dv import gen
    n, sns, kw = gen.make(seed, **force)
    out = {"snapshots": [str(s) for s in sns], "create_model": {k: str(v) for k, v in kw.items()}}
    for c in n.iterate_components():
        d = c.static
        out[c.name] = {x: {k: str(v) for k, v in d.loc[x].items() if str(v) != str(n.components[c.name].defaults.default.get(k))} for x in d.index}
        dy = {k: {x: [float(z) for z in v[x]] for x in v} for k, v in c.dynamic.items() if not v.empty}
        if dy:
            out[c.name + "_t"] = dy
    return out


def run(prop, seed, tier, hint=False):
    """evaluate; `hint`: an obligation was refuted, search longer for a concrete input"""
    from dv.pool import pmap
    count = 160 if tier == "quick" else 1200
    budget = 150 if tier == "quick" else 500
    if hint:
        count, budget = count * 3, budget * 2
    t0 = time.time()
    n_eval, shapes, viol, harness, other, samples = 0, set(), [], [], [], []
    for sd, force, st, bad, ncmp, shape in pmap(one, jobs(prop, seed, count), budget):
        n_eval += 1
        if st == "harness":
            harness.append(dict(seed=sd, what=bad[0]))
        elif st.startswith("raise:"):
            owners = st[6:].split(",")
            if prop in owners or "?" in owners:
                viol.append(dict(seed=sd, force=force, what=bad[0]))
            else:
                other.append(sd)
        elif st == "bad":
            for b in bad[:4]:
                viol.append(dict(seed=sd, force=force, what=b))
        if st in ("ok", "bad") and ncmp:
            shapes.add((sd, shape))
            if len(samples) < 2:
                samples.append(dict(seed=sd, force=force, comparisons=ncmp))
        if len({v["seed"] for v in viol}) >= 3:
            break
    if samples:
        samples[0]["network"] = describe(samples[0]["seed"], samples[0]["force"])
    for v in viol[:2]:
        try:
            v["network"] = describe(v["seed"], v["force"])
        except Exception:
            pass
    if len(other) > 0.5 * max(1, n_eval) and not viol:
        viol.append(dict(seed=other[0], what="building the optimisation model fails for most generated networks"))
    return dict(evaluations=n_eval, distinct=len(shapes), violations=viol, samples=samples,
                rule=f"random networks (dv/gen.py) with profiles {PROFILES[prop]}; non-trivial: at least one constraint row, "
                     "variable or objective term of this property was compared; distinct by seed and component counts",
                extra=dict(harness_errors=harness[:3], n_harness_errors=len(harness), failed_elsewhere=len(other),
                           bounded_wall_s=round(time.time() - t0, 1)))
