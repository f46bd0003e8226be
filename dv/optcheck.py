"""Contracts of the model builders evaluated on a concrete network (see concrete.py)."""
from __future__ import annotations

import itertools
import math

import numpy as np
import pandas as pd

from dv.concrete import CS, Lin, check_con, check_objective, check_var
from dv.specs import opt as SP


class Glc:
    def __init__(self, row):
        self.period = None if row.investment_period != row.investment_period else int(row.investment_period)
        self.constant = float(row.constant)
        self.carrier_attribute = row.carrier_attribute
        self.sense = row.sense
        b = row.get("bus")
        self.bus = None if b is None else str(b)


def glc_specs(S):
    out = []
    for name, row in S.n.global_constraints.iterrows():
        g = Glc(row)
        if row.type == "primary_energy":
            out += SP.primary_energy(S, name, g)
        elif row.type == "operational_limit":
            out += SP.operational_limit(S, name, g)
        elif row.type == "transmission_volume_expansion_limit":
            out += SP.transmission_limit(S, name, g, False)
        elif row.type == "transmission_expansion_cost_limit":
            out += SP.transmission_limit(S, name, g, True)
        elif row.type == "tech_capacity_expansion_limit":
            out += SP.tech_capacity(S, name, g)
    for col in [c for c in S.n.buses.columns if c.startswith(("nom_min_", "nom_max_"))]:
        rem = col[8:]
        per = None
        if rem not in S.n.carriers.index:
            if not S.multi_index:
                continue
            rem, p = rem.rsplit("_", 1)
            per = int(p)
            if rem not in S.n.carriers.index or per not in S.P:
                continue
        out += SP.per_bus_carrier(S, col, ">=" if col.startswith("nom_min_") else "<=", rem, per)
    if S.multi:
        out += SP.growth_limit(S)
    return out


def specs(S, which):
    out, vs = [], []
    n = S.n
    if which == "C02":
        for c, a in SP.DISPATCH:
            out += SP.dispatch_fix(S, c, a) + SP.dispatch_ext(S, c, a) + SP.operation_fixed(S, c, a)
            vs += SP.var_operational(S, c, a)
        vs += SP.var_operational(S, "Store", "p") + SP.var_spill(S)
        for c in SP.NOM:
            out += SP.nominal_ext(S, c) + SP.nominal_fixed(S, c) + SP.modular(S, c)
            vs += SP.var_nominal(S, c) + SP.var_modular(S, c)
        out += SP.energy_sums(S)
    elif which == "C01":
        if getattr(S, "thr", None) is not None:
            cnt = {}
            for c in n.iterate_components():
                for col in [k for k in c.static.columns if "bus" in k]:
                    for b in c.static[col]:
                        cnt[b] = cnt.get(b, 0) + 1
            big = {b for b, k in cnt.items() if k > S.thr and b != ""}
            rest = [b for b in S.C("Bus") if b not in big]
            if big and rest:
                out += SP.nodal_balance(S, lambda b: b not in big) + SP.nodal_balance(S, lambda b: b in big, "-meshed")
                return out, vs
        out += SP.nodal_balance(S)
    elif which == "C03":
        for c in ("Generator", "Link"):
            out += SP.unit_commitment(S, c)
            vs += SP.var_uc(S, c)
    elif which == "C04":
        for c in ("Generator", "Link"):
            out += SP.ramp_limits(S, c)
    elif which == "C05":
        out += SP.storage_balance(S) + SP.store_balance(S)
    elif which == "C06":
        if S.losses:
            for c in SP.PASSIVE:
                out += SP.losses(S, c)
                vs += SP.var_loss(S, c)
    elif which == "C08":
        out += glc_specs(S)
    return out, vs


def check(S, which):
    bad = []
    if which == "C07":
        return check_objective(S)
    cons, vs = specs(S, which)
    for sp in cons:
        bad += check_con(S, sp)
    for sp in vs:
        bad += check_var(S, sp)
    if which == "C06":
        bad += check_kvl(S)
    return bad


# ---------------------------------------------------------------- KVL
def check_kvl(S):
    """
    For every snapshot the KVL rows must be linear combinations of  sum_k C_kc x_k s_k
    over cycles and span the whole cycle space of the active branches
    (row space of the constraint equals { sum_k z_k x_k s_k : z in ker(incidence) }).
    """
    import networkx as nx
    from dv.concrete import actual_constraints

    n, bad = S.n, []
    comps = [c for c in SP.PASSIVE if len(n.static(c))]
    rows_by_t = {t: [] for t in S.T}
    if "Kirchhoff-Voltage-Law" in S.m.constraints:
        have, dims = actual_constraints(S, "Kirchhoff-Voltage-Law")
        ti = dims.index("snapshot")
        for k, (d, sg, rhs) in have.items():
            if sg not in ("=", "=="):
                bad.append(f"KVL sign {sg}")
            if abs(rhs) > 1e-9:
                bad.append(f"KVL right-hand side {rhs}")
            rows_by_t[k[ti]].append({v: c for v, c in d.items() if abs(c) > 1e-9})
    for t in S.T:
        br = [(c, x) for c in comps for x in S.C(c) if S.active(c, t, x)]
        # carrier of a sub-network decides between reactance and resistance
        rows = [r for r in rows_by_t[t] if r]
        buses = {}
        g = nx.Graph()
        for c, x in br:
            g.add_edge(S.lab(c, "bus0", x), S.lab(c, "bus1", x))
        col = {}
        for j, (c, x) in enumerate(br):
            lab = S._labels.get(f"{c}-s", {}).get((t, x), -1)
            col[lab] = j
        nodes = {b: i for i, b in enumerate(g.nodes)}
        A = np.zeros((len(nodes), len(br)))
        wgt = np.zeros(len(br))
        for j, (c, x) in enumerate(br):
            b0, b1 = S.lab(c, "bus0", x), S.lab(c, "bus1", x)
            A[nodes[b0], j] += 1
            A[nodes[b1], j] -= 1
            s = n.static(c)
            imp = impedance(n, c, x, "x" if n.buses.at[b0, "carrier"] == "AC" else "r")
            wgt[j] = imp
        if not br:
            if rows:
                bad.append(f"KVL rows at snapshot {t} although no branch is active")
            continue
        S.ncmp = getattr(S, "ncmp", 0) + len(br)
        # kernel of A, weighted
        u, sv, vt = np.linalg.svd(A)
        rank = int((sv > 1e-9).sum())
        ker = vt[rank:]
        want = ker * wgt
        M = np.zeros((len(rows), len(br)))
        foreign = False
        for i, r in enumerate(rows):
            for v, co in r.items():
                if v not in col:
                    bad.append(f"KVL row at snapshot {t} uses {S.varname.get(v)} which is not an active branch flow")
                    foreign = True
                    continue
                M[i, col[v]] += co
        if foreign:
            continue
        rw = np.linalg.matrix_rank(want, tol=1e-9 * max(1, np.abs(want).max(initial=1))) if len(want) else 0
        scaled = M / (np.abs(M).max(axis=1, keepdims=True) + 1e-300) if len(M) else M
        wsc = want / (np.abs(want).max(axis=1, keepdims=True) + 1e-300) if len(want) else want
        rm = np.linalg.matrix_rank(scaled, tol=1e-7) if len(M) else 0
        rb = np.linalg.matrix_rank(np.vstack([scaled, wsc]), tol=1e-7) if len(M) + len(want) else 0
        if not (rm == len(want) == rb):
            bad.append(f"KVL at snapshot {t}: {rm} independent rows, cycle space dimension {len(want)}, joint rank {rb}")
    return bad


def impedance(n, c, x, kind):
    """effective per-unit series reactance / resistance, from first principles"""
    s = n.static(c)
    if c == "Line":
        ty = s.at[x, "type"]
        v = n.buses.at[s.at[x, "bus0"], "v_nom"]
        if ty:
            lt = n.line_types.loc[ty]
            val = float(lt[f"{kind}_per_length"]) * float(s.at[x, "length"]) / float(s.at[x, "num_parallel"])
        else:
            val = float(s.at[x, kind])
        return val / v**2
    ty = s.at[x, "type"]
    if ty:
        raise NotImplementedError
    return float(s.at[x, kind]) / float(s.at[x, "s_nom"]) * float(s.at[x, "tap_ratio"])
