"""Run-time contracts on solved networks: results (C09), statistics (C19), rolling horizon (C21),
security constraints (C22), alternatives (C23), iterative expansion (C24)."""
from __future__ import annotations

import numpy as np
import pandas as pd
import pypsa

from dv.gen import make
from dv.rt import contract
from dv.rt_core import facts, alive

SOLVE = dict(solver_name="highs", solver_options=dict(log_to_console=False, output_flag=False, threads=1), io_api="direct")
NOM = {"Generator": "p_nom", "Link": "p_nom", "Line": "s_nom", "Transformer": "s_nom", "Store": "e_nom", "StorageUnit": "p_nom"}
TOL = dict(tol=1e-5, rel=1e-5)


def solve(n, sns=None, **kw):
    try:
        return n.optimize(snapshots=sns, **kw, **SOLVE)[0]
    except ValueError as e:
        if "not attached" in str(e) or "load" in str(e).lower() or "empty LHS" in str(e):
            return "rejected"
        raise


def linear(n, lp=True):
    """HiGHS' quadratic solver is not reliable enough to be part of an oracle; without modules the model is an LP"""
    for c in ("Generator", "Link", "StorageUnit", "Store"):
        if "marginal_cost_quadratic" in n.static(c):
            n.static(c)["marginal_cost_quadratic"] = 0.0
        n.dynamic(c).marginal_cost_quadratic = pd.DataFrame(index=n.snapshots)
    if lp:
        for c, a in NOM.items():
            if a + "_mod" in n.static(c):
                n.static(c)[a + "_mod"] = 0.0


def slack(n):
    """a generator which sheds load and one which takes up surplus at every bus"""
    bs = list(n.buses.index)
    n.add("Generator", [f"shed {b}" for b in bs], bus=bs, p_nom=1e4, marginal_cost=500.0)
    n.add("Generator", [f"dump {b}" for b in bs], bus=bs, p_nom=1e4, sign=-1.0)


def dense(n, c, attr, i, t):
    d = n.dynamic(c)
    return d[attr].at[t, i] if attr in d and i in d[attr].columns else n.static(c).at[i, attr]


def ports(n):
    return [c[3:] for c in n.links.columns if c.startswith("bus") and c[3:].isdigit()]


# ------------------------------------------------------------------ C09

def primal(m, name, n, c):
    """{(asset, snapshot): value} of one variable of the solved model, masked entries left out"""
    if name not in m.variables:
        return {}
    v = m.variables[name]
    sol, lab = v.solution, v.labels
    dim = [d for d in sol.dims if d not in ("snapshot", "period", "timestep")][0]
    out = {}
    df, lf = sol.transpose("snapshot", dim).to_pandas(), lab.transpose("snapshot", dim).to_pandas()
    for i in df.columns:
        for t in df.index:
            if lf.at[t, i] != -1:
                out[i, t] = float(df.at[t, i])
    return out


@contract("C09")
def results_of_random_networks(g, C):
    lp = g.coin(0.6)
    force = dict(glc=g.coin(0.25))
    if lp:
        force.update(committable=False)
    n, sns, kw = make(int(g.r.integers(1, 2**31)), **force)
    kw.pop("meshed_threshold", None)
    linear(n, lp)
    if g.coin(0.85):
        slack(n)
    if g.coin(0.5):     # earlier results for all snapshots
        for c in ("Generator", "Link", "Store", "Load"):
            names = list(n.static(c).index)
            if names:
                for a in {"Generator": ["p"], "Link": ["p0", "p1"], "Store": ["e", "p"], "Load": ["p"]}[c]:
                    n.dynamic(c)[a] = pd.DataFrame({x: [g.num(0, 9) for _ in n.snapshots] for x in names}, index=n.snapshots)
    before = facts(n)
    if solve(n, sns, **kw) != "ok":
        return
    m, multi = n.model, kw["multi_investment_periods"]
    rest = n.snapshots.difference(sns)
    C.note = dict(snapshots=len(sns), **kw)

    def active(c, i, t):
        return alive(n.static(c).loc[i], t[0] if multi and c != "Load" else None)

    def want(c, attr, sol, f=lambda x, i, t: x):
        """series c.attr equals f(primal) where there is a variable, zero where there is none"""
        got = n.dynamic(c)[attr]
        for i in n.static(c).index:
            for t in sns:
                w = f(sol[i, t], i, t) if (i, t) in sol else 0.0
                C.close(f"{c}.{attr}[{i}] at {t}", got.at[t, i] if i in got else np.nan, w, **TOL)

    zero = lambda c: {(i, t): 0.0 for i in n.static(c).index for t in sns}
    if len(n.generators):
        want("Generator", "p", primal(m, "Generator-p", n, "Generator"))
        if "Generator-status" in m.variables:
            s = primal(m, "Generator-status", n, "Generator")
            for (i, t), x in s.items():
                C.close(f"status[{i}] at {t}", n.generators_t.status.at[t, i], x, **TOL)
    if len(n.stores):
        want("Store", "p", primal(m, "Store-p", n, "Store"))
        want("Store", "e", primal(m, "Store-e", n, "Store"))
    if len(n.storage_units):
        d, s = primal(m, "StorageUnit-p_dispatch", n, ""), primal(m, "StorageUnit-p_store", n, "")
        want("StorageUnit", "p", {k: d[k] - s[k] for k in d})
        want("StorageUnit", "state_of_charge", primal(m, "StorageUnit-state_of_charge", n, ""))
    for c in ("Line", "Transformer"):
        if len(n.static(c)):
            f, l = primal(m, f"{c}-s", n, c), primal(m, f"{c}-loss", n, c)
            want(c, "p0", f, lambda x, i, t: x + l.get((i, t), 0) / 2)
            want(c, "p1", f, lambda x, i, t: -x + l.get((i, t), 0) / 2)
    if len(n.links):
        f = primal(m, "Link-p", n, "Link")
        want("Link", "p0", f)
        for k in ports(n)[1:]:
            e = "efficiency" if k == "1" else f"efficiency{k}"
            want("Link", f"p{k}", f, lambda x, i, t: 0.0 if n.links.at[i, f"bus{k}"] == "" else -x * dense(n, "Link", e, i, t))
    # capacities
    for c, a in NOM.items():
        st = n.static(c)
        for i in st.index:
            if st.at[i, a + "_extendable"]:
                if f"{c}-{a}" in m.variables:
                    v = m.variables[f"{c}-{a}"]
                    if i in v.indexes[f"{c}-ext"] and int(v.labels.sel({f"{c}-ext": i})) != -1:
                        C.close(f"{c}.{a}_opt[{i}]", st.at[i, a + "_opt"], float(v.solution.sel({f"{c}-ext": i})), **TOL)
            else:
                C.close(f"{c}.{a}_opt[{i}] of a fixed asset", st.at[i, a + "_opt"], st.at[i, a], **TOL)
    # snapshots which were not optimised keep their values
    for c in ("Generator", "Link", "Store", "Load", "Line", "Transformer"):
        for a, old in before["dynamic"][c].items():
            new = n.dynamic(c).get(a)
            if a in ("status",) or new is None or not new.shape[1]:
                continue
            for i in old.columns:
                C.close(f"{c}.{a}[{i}] outside the optimised snapshots", new.loc[rest, i].values.astype(float), old.loc[rest, i].fillna(0 if a in ("p", "e", "p0", "p1") else np.nan).values.astype(float), 0, 0)
            if a in ("p", "p0", "p1", "e") and not old.shape[1]:
                C.ok(f"{c}.{a} is zero outside the optimised snapshots", (new.loc[rest] == 0).all(axis=None))
    # bus injections
    lk = ports(n)
    for t in sns:
        for b in n.buses.index:
            inj = sum(n.dynamic(c)["p"].at[t, i] * n.static(c).at[i, "sign"] for c in ("Generator", "Store", "StorageUnit") for i in n.static(c).index[n.static(c).bus == b])
            inj += sum(n.loads.at[i, "sign"] * dense(n, "Load", "p_set", i, t) for i in n.loads.index[(n.loads.bus == b) & n.loads.active])
            inj -= sum(n.links_t[f"p{k}"].at[t, i] for k in lk for i in n.links.index[n.links[f"bus{k}"] == b])
            C.close(f"injection at {b} {t}", n.buses_t.p.at[t, b], inj, **TOL)
            flow = sum(n.dynamic(c)[f"p{k}"].at[t, i] for c in ("Line", "Transformer") for k in "01" for i in n.static(c).index[n.static(c)[f"bus{k}"] == b])
            C.close(f"injection at {b} {t} leaves over the passive branches", n.buses_t.p.at[t, b], flow, tol=1e-4, rel=1e-5)
    C.close("objective", n.objective, float(m.objective.value), **TOL)
    # prices
    if any("dual" in con for _, con in m.constraints.items()):
        for name in ("Bus-nodal_balance", "Bus-meshed-nodal_balance"):
            if name not in m.constraints:
                continue
            con = m.constraints[name]
            dim = [d for d in con.dual.dims if d not in ("snapshot", "period", "timestep", "_term")][0]
            du, la = con.dual.transpose("snapshot", dim).to_pandas(), con.labels.transpose("snapshot", dim).to_pandas()
            for b in du.columns:
                for t in sns:
                    if la.at[t, b] == -1:
                        continue
                    w = n.snapshot_weightings.objective[t] * (n.investment_period_weightings.objective[t[0]] if multi else 1.0)
                    C.close(f"price at {b} {t}", n.buses_t.marginal_price.at[t, b] * w, du.at[t, b], **TOL)
        for i in n.global_constraints.index:
            if f"GlobalConstraint-{i}" in m.constraints:
                C.close(f"price of global constraint {i}", n.global_constraints.at[i, "mu"], float(m.constraints[f"GlobalConstraint-{i}"].dual), **TOL)


@contract("C09")
def prices_are_marginal_costs(g, C):
    """raising the load at one bus and snapshot by a small amount raises the objective by weight times price"""
    n, sns, kw = make(int(g.r.integers(1, 2**31)), glc=False, committable=False, losses=0)
    kw.pop("meshed_threshold", None)
    linear(n)
    slack(n)
    bus, t = g.pick([b for b in n.buses.index if b != "lonely"]), sns[int(g.r.integers(len(sns)))]
    n.add("Load", "probe", bus=bus, p_set=pd.Series(1.0, n.snapshots))
    objs = []
    prices = []
    for eps in (-1e-3, 0.0, 1e-3):
        x = n.copy()
        x.loads_t.p_set.loc[t, "probe"] = 1.0 + eps
        if solve(x, sns, **kw) != "ok":
            return
        objs.append(x.objective)
        prices.append(x.buses_t.marginal_price.at[t, bus])
    w = n.snapshot_weightings.objective[t] * (n.investment_period_weightings.objective[t[0]] if kw["multi_investment_periods"] else 1.0)
    lo, hi = (objs[1] - objs[0]) / 1e-3, (objs[2] - objs[1]) / 1e-3
    s = 1e-2 + 1e-4 * abs(objs[1])
    C.ok(f"price at {bus} {t}", min(lo, hi) - s <= w * prices[1] <= max(lo, hi) + s, f"{w * prices[1]} outside marginal costs [{lo}, {hi}]")


# ------------------------------------------------------------------ C21

class Record:
    """n.optimize that records every call before it is passed on"""

    def __init__(self, n, look):
        self.n, self.look, self.calls = n, look, []
        self.real = n.optimize

    def __enter__(self):
        from pypsa.optimization.optimize import OptimizationAccessor
        self.cls = OptimizationAccessor
        self.orig = OptimizationAccessor.__call__
        rec = self

        def call(acc, *a, **k):
            rec.calls.append(rec.look(acc.n if hasattr(acc, "n") else rec.n, a, k))
            out = rec.orig(acc, *a, **k)
            rec.calls[-1]["out"] = out
            return out
        OptimizationAccessor.__call__ = call
        return self

    def __exit__(self, *exc):
        self.cls.__call__ = self.orig


@contract("C21")
def rolling_equals_manual_windows(g, C):
    n, _, kw = make(int(g.r.integers(1, 2**31)), glc=False, multi=False, T=int(g.r.integers(4, 9)))
    kw = {k: v for k, v in kw.items() if k in ("transmission_losses", "linearized_unit_commitment")}
    linear(n, False)
    for c, a in NOM.items():        # one capacity for all windows
        n.static(c)[a + "_extendable"] = False
        n.static(c)[a + "_set"] = np.nan
        if a + "_mod" in n.static(c):
            n.static(c)[a + "_mod"] = 0.0
    slack(n)
    if not len(n.stores):
        n.add("Store", "sto", bus=n.buses.index[0], e_nom=9.0, e_initial=g.num(0, 9), standing_loss=0.1, marginal_cost=g.num(-1, 1))
    if not len(n.storage_units):
        n.add("StorageUnit", "su", bus=n.buses.index[0], p_nom=4.0, max_hours=3, state_of_charge_initial=g.num(0, 12), inflow=g.num(0, 2), marginal_cost=g.num(-1, 1))
    L = len(n.snapshots)
    sub = n.snapshots[: int(g.r.integers(max(2, L - 2), L + 1))] if g.coin(0.4) else n.snapshots
    q = np.random.default_rng(g.seed + 10**6)
    later = int(q.integers(1, 3))
    if q.random() < 0.4 and len(sub) - later >= 2 and not any(n.static(c).committable.any() for c in ("Generator", "Link")):
        sub = sub[later:]           # requested snapshots need not begin with the first
    h = int(g.r.integers(2, len(sub) + 3))
    o = int(g.r.integers(0, h))
    if len(sub) / (h - o) > 5:
        o = max(0, h - 2)
    C.note = dict(snapshots=len(sub), horizon=h, overlap=o, **kw)
    roll, hand = n.copy(), n.copy()
    look = lambda x, a, k: dict(sns=list(a[0] if a else k["snapshots"]), e=x.stores.e_initial.copy(), soc=x.storage_units.state_of_charge_initial.copy(),
                                pe=x.stores_t.e.copy(), psoc=x.storage_units_t.state_of_charge.copy())
    with Record(roll, look) as rec:
        roll.optimize.optimize_with_rolling_horizon(snapshots=None if sub is n.snapshots and g.coin() else sub, horizon=h, overlap=o, **kw, **SOLVE)
    starts = list(range(0, len(sub), h - o))
    C.same("windows", [c["sns"] for c in rec.calls], [list(sub[s:s + h]) for s in starts])
    C.same("every requested snapshot is optimised", sorted({t for c in rec.calls for t in c["sns"]}), sorted(sub))
    ok = True
    for k, (s, c) in enumerate(zip(starts, rec.calls)):
        if not ok:
            break
        e0, s0 = (n.stores.e_initial, n.storage_units.state_of_charge_initial) if k == 0 else (c["pe"].loc[sub[s - 1]], c["psoc"].loc[sub[s - 1]])
        C.close(f"window {k} starts from the stored energy", c["e"].reindex(n.stores.index).values, e0.reindex(n.stores.index).values.astype(float), 1e-9, 1e-9)
        C.close(f"window {k} starts from the stored state of charge", c["soc"].reindex(n.storage_units.index).values, s0.reindex(n.storage_units.index).values.astype(float), 1e-9, 1e-9)
        ok = c["out"][0] == "ok"
    if not all(c["out"][0] == "ok" for c in rec.calls) or len(rec.calls) != len(starts):
        return
    for k, s in enumerate(starts):
        if k:
            for i in hand.stores.index:
                hand.stores.at[i, "e_initial"] = hand.stores_t.e.at[sub[s - 1], i]
            for i in hand.storage_units.index:
                hand.storage_units.at[i, "state_of_charge_initial"] = hand.storage_units_t.state_of_charge.at[sub[s - 1], i]
        if solve(hand, sub[s:s + h], **kw) != "ok":
            return
    C.close("objective of the last window", roll.objective, hand.objective, 1e-4, 1e-5)
    for c in ("Generator", "Link", "Store", "StorageUnit", "Line", "Transformer"):
        for a, v in hand.dynamic(c).items():
            if v.size and a in ("p", "p0", "p1", "e", "state_of_charge", "status"):
                C.close(f"{c}.{a}", roll.dynamic(c)[a].reindex(columns=v.columns).values.astype(float), v.values.astype(float), 1e-4, 1e-4)


@contract("C21")
def rolling_rejects_overlap_not_below_horizon(g, C):
    n, _, _ = make(int(g.r.integers(1, 2**31)), glc=False, multi=False)
    h = int(g.r.integers(1, 4))
    f = facts(n)
    try:
        n.optimize.optimize_with_rolling_horizon(horizon=h, overlap=h + int(g.r.integers(0, 3)), **SOLVE)
        C.fail("overlap >= horizon is accepted")
    except ValueError:
        C.ok("rejected", True)
    for c in f["static"]:
        C.ok("rejected without effect", n.static(c).equals(f["static"][c]))


# ------------------------------------------------------------------ C22

def meshed(g, losses=False):
    """a network whose passive branches form rings with chords; every bus can shed and dump"""
    import pypsa
    n = pypsa.Network()
    T = int(g.r.integers(1, 4))
    n.set_snapshots(pd.date_range("2020", periods=T, freq="h") if g.coin() else range(T))
    k = 0
    rings = []
    for r in range(int(g.r.integers(1, 3))):
        B = [f"n{r}{j}" for j in range(int(g.r.integers(3, 5)))]
        n.add("Bus", B, v_nom=g.pick([110.0, 380.0]), carrier="AC")
        rings.append(B)
        pairs = list(zip(B, B[1:] + B[:1]))
        for _ in range(int(g.r.integers(0, 3))):
            a, b = [B[int(j)] for j in g.r.permutation(len(B))[:2]]
            pairs.append((a, b))
        pairs = [pairs[int(j)] for j in g.r.permutation(len(pairs))]
        for a, b in pairs:
            k += 1
            if g.coin():
                a, b = b, a
            if g.coin(0.3):
                n.add("Transformer", f"t{k}", bus0=a, bus1=b, x=g.num(0.05, 0.3), s_nom=g.num(20, 60), tap_ratio=g.pick([1.0, 1.0, 1.05, 0.9]),
                      s_max_pu=g.pick([1.0, 0.8]), s_nom_extendable=g.coin(0.2), s_nom_max=100.0, capital_cost=g.num(1, 9))
            else:
                n.add("Line", f"l{k}", bus0=a, bus1=b, x=g.num(5, 30), r=0.1, s_nom=g.num(20, 60), s_nom_extendable=g.coin(0.3), s_nom_max=100.0, capital_cost=g.num(1, 9))
                if g.coin(0.2):
                    n.lines_t.s_max_pu[f"l{k}"] = [g.num(0.5, 1.2) for _ in n.snapshots]
        if g.coin(0.4):     # a radial branch, never an outage
            n.add("Bus", f"x{r}", v_nom=n.buses.at[B[0], "v_nom"], carrier="AC")
            n.add("Line", f"radial{r}", bus0=B[0], bus1=f"x{r}", x=10.0, s_nom=30.0)
    for b in n.buses.index:
        if g.coin(0.7):
            n.add("Load", f"d {b}", bus=b, p_set=[g.num(5, 40) for _ in n.snapshots])
        if g.coin(0.6):
            n.add("Generator", f"g {b}", bus=b, p_nom=g.num(20, 90), marginal_cost=g.num(1, 60))
    slack(n)
    return n


def row_table(m, skip=()):
    """every row of the model: ({variable label: coefficient}, sign, right-hand side)"""
    rows = []
    for name, con in m.constraints.items():
        if name in skip:
            continue
        lab = con.labels.values.reshape(-1)
        vs = con.vars.transpose(..., "_term").values.reshape(len(lab), -1)
        cs = con.coeffs.transpose(..., "_term").values.reshape(len(lab), -1)
        dims = con.labels.dims
        sg = con.sign.transpose(*dims).values.reshape(-1)
        rh = con.rhs.transpose(*dims).values.reshape(-1)
        for i, l in enumerate(lab):
            if l == -1:
                continue
            d = {}
            for v, c in zip(vs[i], cs[i]):
                if v != -1 and c == c:
                    d[int(v)] = d.get(int(v), 0.0) + float(c)
            rows.append(({v: c for v, c in d.items() if abs(c) > 1e-9}, str(sg[i]), float(rh[i])))
    return rows


def has_row(rows, want):
    d, s, r = want
    if s == "=":
        s = "=="
    for e, t, q in rows:
        if set(e) == set(d) and t.replace("==", "=") == s.replace("==", "=") and abs(q - r) < 1e-6 * (1 + abs(r)) and all(abs(e[k] - d[k]) < 1e-6 * (1 + abs(d[k])) for k in d):
            return True
    return False


def reactances(n):
    """per-unit reactances as the linear power flow uses them"""
    out = {}
    for i, l in n.lines.iterrows():
        if l.active:
            out["Line", i] = (l.bus0, l.bus1, l.x / n.buses.at[l.bus0, "v_nom"] ** 2)
    for i, t in n.transformers.iterrows():
        if t.active:
            out["Transformer", i] = (t.bus0, t.bus1, t.x / t.s_nom * t.tap_ratio)
    return out


def dc_flows(n, br, inj):
    """linear flows of the branches br for bus injections (plain Laplacian solve)"""
    bs = list(n.buses.index)
    ix = {b: j for j, b in enumerate(bs)}
    L = np.zeros((len(bs), len(bs)))
    for a, b, x in br.values():
        i, j = ix[a], ix[b]
        L[i, i] += 1 / x
        L[j, j] += 1 / x
        L[i, j] -= 1 / x
        L[j, i] -= 1 / x
    th = np.linalg.pinv(L) @ inj.reindex(bs).values
    return {k: (th[ix[a]] - th[ix[b]]) / x for k, (a, b, x) in br.items()}


def component_of(br, buses):
    part = {b: {b} for b in buses}
    for a, b, _ in br.values():
        if part[a] is not part[b]:
            u = part[a] | part[b]
            for z in u:
                part[z] = u
    return part


def outage_factor(n, br, o, a):
    """flow shifted to a per unit of flow on o when o fails"""
    inj = pd.Series(0.0, n.buses.index)
    f, t, _ = br[o]
    inj[f] += 1.0
    inj[t] -= 1.0
    rest = {k: v for k, v in br.items() if k != o}
    return dc_flows(n, rest, inj)[a]


@contract("C22")
def security_rows_and_dispatch(g, C):
    n = meshed(g)
    if g.coin(0.25):
        c = "Line" if len(n.lines) else "Transformer"
        cand = [k for k in n.static(c).index if not k.startswith("radial")]
        n.static(c).loc[g.pick(cand), "active"] = False
    br = reactances(n)

    def bridge(o):
        rest = {k: v for k, v in br.items() if k != o}
        return component_of(rest, n.buses.index)[br[o][0]] is not component_of(br, n.buses.index)[br[o][0]] and br[o][1] not in component_of(rest, n.buses.index)[br[o][0]]
    cand = [k for k in br if not bridge(k)]
    if not cand:
        return
    style = g.pick(["none", "lines", "multi"])
    if style == "none" and len(cand) == len(n.passive_branches()):
        outs, arg = cand, None
    elif style == "lines" and any(c == "Line" for c, _ in cand):
        outs = [k for k in cand if k[0] == "Line" and g.coin(0.6)] or [next(k for k in cand if k[0] == "Line")]
        arg = [k[1] for k in outs]
        if g.coin():
            arg = pd.Index(arg)
    else:
        outs = [k for k in cand if g.coin(0.5)] or cand[:1]
        arg = pd.MultiIndex.from_tuples(outs)
    base = n.copy()
    base.optimize.create_model()
    status = n.optimize.optimize_security_constrained(branch_outages=arg, **SOLVE)[0]
    m = n.model
    C.note = dict(branches=[str(k) for k in br], outages=[str(k) for k in outs])
    old, rows = row_table(base.model), row_table(m)
    # the original rows are untouched
    new = row_table(m, skip=set(base.model.constraints))
    C.same("original rows kept", len(rows) - len(new), len(old))
    for r in old[:: max(1, len(old) // 40)]:
        C.ok("original row kept", has_row(rows, r), str(r))
    part = component_of(br, n.buses.index)
    # security rows
    count = 0
    for o in outs:
        for a in br:
            if part[br[a][0]] is not part[br[o][0]]:
                continue
            f = -1.0 if a == o else outage_factor(n, br, o, a)
            for t in n.snapshots:
                flow = int(m.variables[f"{a[0]}-s"].labels.sel({"snapshot": t, a[0]: a[1]}))
                out = int(m.variables[f"{o[0]}-s"].labels.sel({"snapshot": t, o[0]: o[1]}))
                pu = dense(n, a[0], "s_max_pu", a[1], t)
                st = n.static(a[0]).loc[a[1]]
                d = {flow: 1.0}
                d[out] = d.get(out, 0.0) + f
                d = {k: v for k, v in d.items() if abs(v) > 1e-9}
                for sg, s in (("<=", 1.0), (">=", -1.0)):
                    if st.s_nom_extendable:
                        cap = int(m.variables[f"{a[0]}-s_nom"].labels.sel({f"{a[0]}-ext": a[1]}))
                        want = ({**d, cap: -s * pu}, sg, 0.0)
                    else:
                        want = (d, sg, s * pu * st.s_nom)
                    if a == o:
                        continue        # the failed branch itself is not limited by the property
                    count += 1
                    C.ok(f"row for outage {o} and branch {a} at {t} ({sg})", has_row(new, want), f"wanted {want}")
    C.ok("no other rows", count <= len(new) <= count + 2 * len(outs) * len(n.snapshots), f"{len(new)} rows instead of {count}")
    if status != "ok":
        return
    # dispatch stays within ratings after every outage, by an independent power flow without the branch
    for t in n.snapshots:
        inj = n.buses_t.p.loc[t]
        for o in outs:
            rest = {k: v for k, v in br.items() if k != o}
            for a, x in dc_flows(n, rest, inj).items():
                lim = dense(n, a[0], "s_max_pu", a[1], t) * n.static(a[0]).at[a[1], "s_nom_opt"]
                C.ok(f"flow on {a} after outage of {o} at {t}", abs(x) <= lim + 1e-3 + 1e-4 * lim, f"{x} exceeds {lim}")


# ------------------------------------------------------------------ C23

def block_rows(con):
    class One:
        constraints = {"c": con}
    return row_table(One)


def same_block(a, b):
    a, b = block_rows(a), block_rows(b)
    return len(a) == len(b) and all(x[0].keys() == y[0].keys() and x[1] == y[1] and (x[2] == y[2] or x[2] != x[2] and y[2] != y[2]) and all(abs(x[0][k] - y[0][k]) <= 1e-9 * (1 + abs(y[0][k])) for k in y[0]) for x, y in zip(a, b))


def terms(expr):
    """{variable label: coefficient} of a linear expression, constant dropped"""
    expr = getattr(expr, "expression", expr)
    d = {}
    for v, c in zip(np.asarray(expr.vars).reshape(-1), np.asarray(expr.coeffs).reshape(-1)):
        if v != -1 and c == c:
            d[int(v)] = d.get(int(v), 0.0) + float(c)
    return {k: c for k, c in d.items() if abs(c) > 1e-12}


def value(m, d):
    sol = {}
    for _, v in m.variables.items():
        sol.update({int(l): float(x) for l, x in zip(np.asarray(v.labels).reshape(-1), np.asarray(v.solution).reshape(-1)) if l != -1})
    return sum(c * sol[k] for k, c in d.items())


@contract("C23")
def alternatives(g, C):
    multi = g.coin(0.25)
    n, _, kw = make(int(g.r.integers(1, 2**31)), glc=False, committable=False, multi=multi)
    linear(n)
    multi = bool(kw["multi_investment_periods"])
    slack(n)
    n.add("Generator", "ext", bus=n.buses.index[0], p_nom_extendable=True, capital_cost=g.num(5, 30), marginal_cost=g.num(0, 5), p_nom_max=200.0, p_nom=g.pick([0.0, 7.0]))
    n.add("Generator", "ext2", bus=n.buses.index[-1], p_nom_extendable=True, capital_cost=g.num(5, 30), marginal_cost=g.num(0, 9), p_nom_max=200.0)
    mk = dict(multi_investment_periods=multi)
    base = n.copy()     # a solved network holds the solver's model and cannot be copied
    if solve(n, None, **mk) != "ok":
        return
    m0 = n.model
    base.optimize.create_model(multi_investment_periods=multi)
    cost = terms(base.model.objective)
    eps = g.pick([0.0, 0.05, 0.3, 0.05])
    sense = g.pick(["min", "max", 1, -1, "minimize", "maximise"])
    sg = 1 if sense in ("min", 1, "minimize") else -1
    weights, want = None, {}
    lab = lambda var, **sel: int(base.model.variables[var].labels.sel(**sel))
    ext = list(n.generators.index[n.generators.p_nom_extendable])
    style = g.pick(["default", "nominal", "series", "frame", "partial"])
    if style == "default":
        want = {lab("Generator-p_nom", **{"Generator-ext": i}): 1.0 for i in ext}
    if style in ("nominal", "partial"):
        w = {i: g.num(-3, 3) for i in (ext if style == "nominal" else ["ext"])}
        weights = {"Generator": {"p_nom": w if g.coin() else pd.Series(w)}}
        want = {lab("Generator-p_nom", **{"Generator-ext": i}): x for i, x in w.items()}
    if style == "series":
        w = pd.Series({i: g.num(-3, 3) for i in n.generators.index})
        if g.coin():
            w = w.iloc[::-1]
        weights = {"Generator": {"p": w, "p_nom": pd.Series({i: 1.0 for i in ext})}}
        want = {lab("Generator-p", **{"Generator": i, "snapshot": t}): w[i] for i in n.generators.index for t in n.snapshots}
        want.update({lab("Generator-p_nom", **{"Generator-ext": i}): 1.0 for i in ext})
    if style == "frame":
        w = pd.DataFrame({i: [g.num(-3, 3) for _ in n.snapshots] for i in n.generators.index}, index=n.snapshots)
        weights = {"Generator": {"p": w}}
        want = {lab("Generator-p", **{"Generator": i, "snapshot": t}): w.at[t, i] for i in n.generators.index for t in n.snapshots}
    want = {k: sg * x for k, x in want.items() if k != -1 and abs(x) > 1e-12}
    C.note = dict(style=style, slack=eps, sense=sense, multi=multi)
    C.note["first"] = float(m0.objective.value)
    status, cond = n.optimize.optimize_mga(weights=weights, sense=sense, slack=eps, **mk, **SOLVE)
    m = n.model
    got = terms(m.objective)
    C.ok("objective is the weighted combination", set(got) == set(want) and all(abs(got[k] - want[k]) < 1e-9 * (1 + abs(want[k])) for k in want) and m.objective.sense == "min", f"{got} instead of {want}")
    C.same("variables", list(m.variables), list(base.model.variables))
    C.same("constraints", sorted(m.constraints), sorted([*base.model.constraints, "budget"]))
    for name, con in base.model.constraints.items():
        C.ok(f"constraint {name} unchanged", name in m.constraints and same_block(m.constraints[name], con))
    for name, v in base.model.variables.items():
        C.ok(f"bounds of {name} unchanged", np.array_equal(np.asarray(v.lower), np.asarray(m.variables[name].lower), equal_nan=True) and np.array_equal(np.asarray(v.upper), np.asarray(m.variables[name].upper), equal_nan=True))
    # budget: cost terms <= bound, where the bound is (1 + slack) * optimal cost
    rows = [r for r in row_table(m, skip=set(base.model.constraints))]
    C.same("one budget row", len(rows), 1)
    d, s, rhs = rows[0]
    C.ok("budget limits the cost", set(d) == set(cost) and all(abs(d[k] - cost[k]) < 1e-6 * (1 + abs(cost[k])) for k in cost) and s in ("<=",), f"{d} {s} instead of {cost}")
    # total cost = objective of the model + cost of every asset at its given capacity
    given, w8 = 0.0, n.investment_period_weightings.objective if multi else None
    for c, a in NOM.items():
        for i, r in n.static(c).iterrows():
            f = r.capital_cost * r[a]
            given += sum(f * w8[p] for p in n.investment_periods if alive(r, p)) if multi else f * alive(r, None)
    total = value(m0, cost) + given
    C.close("budget bound", rhs, (1 + eps) * total - given, 1e-3, 1e-5)
    if status == "ok":
        now = value(m, cost) + given
        C.ok("alternative within the budget", now <= (1 + eps) * total + 1e-3 + 1e-5 * abs(total), f"{now} > (1+{eps})*{total}")
        if eps * total > 1e-3:
            a, b = value(m, want), value(m0, want)
            C.ok("alternative at least as good as the optimum it starts from", a <= b + 1e-3 + 1e-5 * abs(b), f"{a} > {b}")


# ------------------------------------------------------------------ C24

def discretised(opt, mx, unit, thr, frac):
    """documented rounding of an expanded capacity"""
    whole, part = opt // unit, opt % unit
    block = (whole + (part >= thr * unit)) * unit
    if mx % unit == 0 or mx - opt >= unit:
        return block
    if frac and part / (mx % unit) >= thr:
        return mx
    return mx if mx < unit else whole * unit


def rounding_points(g, C):
    """the rounding function itself, on exactly representable numbers including the boundary cases"""
    from pypsa.optimization.abstract import discretized_capacity as f
    for _ in range(60):
        unit, thr, frac = float(g.pick([1, 2, 8, 0.5])), float(g.pick([0.125, 0.25, 0.5, 1.0])), g.coin()
        mx = unit * int(g.r.integers(0, 25)) / 8
        if g.coin(0.2):
            mx = float("inf")
        opt = unit * int(g.r.integers(0, 25)) / 8
        if opt > mx:
            continue
        got, want = f(opt, mx, unit, thr, frac), discretised(opt, mx, unit, thr, frac)
        C.ok("rounded capacity", got == want, f"discretized_capacity({opt}, {mx}, {unit}, {thr}, {frac}) = {got}, expected {want}")


@contract("C24")
def iterative_expansion(g, C):
    from dv.gen import G
    rounding_points(G(g.seed), C)
    n = pypsa.Network()
    T = int(g.r.integers(1, 4))
    n.set_snapshots(range(T))
    B = [f"b{j}" for j in range(int(g.r.integers(3, 5)))]
    n.add("Bus", B, v_nom=380.0, carrier="AC")
    D = ["d0", "d1", "d2"]
    dc = g.coin(0.4)
    if dc:
        n.add("Bus", D, v_nom=320.0, carrier="DC")
        n.add("Link", "conv", bus0=B[0], bus1=D[0], p_nom=80.0, p_min_pu=-1.0)
        n.add("Link", "conv2", bus0=B[-1], bus1=D[1], p_nom=80.0, p_min_pu=-1.0)
    typ = "Al/St 240/40 4-bundle 380.0"
    rings = [("l", B)] + ([("m", D)] if dc else [])
    mod = g.coin(0.15)
    for p, R in rings:
        for j, (a, b) in enumerate(zip(R, R[1:] + R[:1])):
            e = g.coin(0.75)
            d = dict(bus0=a, bus1=b, s_nom=g.num(10, 40), s_nom_extendable=e, capital_cost=g.num(0.5, 3), s_nom_max=g.pick([90.0, 100.0, 150.0]), length=g.num(5, 50))
            d["s_nom_min"] = g.pick([0.5, 1.0]) * d["s_nom"]
            if p == "l" and g.coin(0.35):
                n.add("Line", f"{p}{j}", type=typ, num_parallel=g.pick([1.0, 2.0]), **d)
            else:
                n.add("Line", f"{p}{j}", x=g.num(5, 30), r=g.num(0.5, 3), **d)
    for k in range(int(g.r.integers(0, 3))):
        n.add("Link", f"k{k}", bus0=B[k % len(B)], bus1=B[(k + 1) % len(B)], carrier=g.pick(["DC", "DC", "H2"]), p_nom=g.num(0, 9), p_nom_extendable=g.coin(0.8), p_nom_max=g.pick([40.0, 35.0]),
              capital_cost=g.num(0.5, 4), efficiency=0.97, p_min_pu=-1.0 if g.coin() else 0.0)
    for b in B:
        n.add("Load", f"load {b}", bus=b, p_set=[g.num(5, 60) for _ in range(T)])
    n.add("Generator", "cheap", bus=B[0], p_nom=300.0, marginal_cost=1.0)
    slack(n)
    if g.coin(0.3):     # an earlier optimisation leaves results behind
        solve(n)
        n.model = None
        n.lines["s_nom_opt"] = [g.num(5, 80) for _ in n.lines.index]
    if len(n.lines[n.lines.s_nom_extendable]) == 0:
        n.lines.loc[n.lines.index[0], "s_nom_extendable"] = True
    look = lambda x, a, k: dict(lines=x.lines.copy(), links=x.links.copy())
    opts = dict(max_iterations=int(g.r.integers(1, 4)), msq_threshold=g.pick([0.05, 0.001]), min_iterations=int(g.r.integers(1, 3)), track_iterations=g.coin(0.3))
    if g.coin(0.35):
        opts.update(line_unit_size=g.pick([10.0, 15.0]), line_threshold=g.pick([0.3, 0.6]), fractional_last_unit_size=g.coin())
    if g.coin(0.35):
        opts.update(link_unit_size={"DC": 10.0, **({"H2": 7.0} if g.coin() else {})}, link_threshold={"DC": g.pick([0.3, 0.5])})
    C.note = {k: str(v) for k, v in opts.items()}
    st0, lk0 = n.lines.copy(), n.links.copy()
    ext = list(n.lines.index[n.lines.s_nom_extendable])
    fixl = [i for i in n.links.index if n.links.at[i, "p_nom_extendable"] and n.links.at[i, "carrier"] in ({"DC"} | set(opts.get("link_unit_size", {})))]
    base = lambda i: np.sqrt(3) * n.line_types.at[typ, "i_nom"] * n.buses.at[st0.at[i, "bus0"], "v_nom"]
    with Record(n, look) as rec:
        try:
            status = n.optimize.optimize_transmission_expansion_iteratively(**opts, **SOLVE)[0]
        except RuntimeError:
            return
    calls = rec.calls
    C.ok("number of iterations", 2 <= len(calls) <= opts["max_iterations"] + 1, f"{len(calls)}")
    opt = [c["lines"].s_nom_opt for c in calls[1:]] + [n.lines.s_nom_opt]      # optimal capacities after each call
    lopt = [c["links"].p_nom_opt for c in calls[1:]]
    for k, c in enumerate(calls):
        cap = st0.s_nom if k == 0 else opt[k - 1]
        last = k == len(calls) - 1
        for i in st0.index:
            r, w = c["lines"].loc[i], st0.loc[i]
            ratio = cap[i] / w.s_nom if i in ext else 1.0
            what = f"call {k + 1} of {len(calls)}, line {i}"
            if w.type:
                if i in ext:
                    C.close(f"{what}: parallel circuits", r.num_parallel, cap[i] / base(i), 1e-6, 1e-6)
                else:
                    C.close(f"{what}: parallel circuits of a fixed line", r.num_parallel, w.num_parallel)
            else:
                ac = n.buses.at[w.bus0, "carrier"] == "AC"
                C.close(f"{what}: {'reactance' if ac else 'resistance'}", r.x if ac else r.r, (w.x if ac else w.r) / ratio if ratio else np.inf, 1e-9, 1e-6)
                C.close(f"{what}: other impedance", r.r if ac else r.x, w.r if ac else w.x)
            if not last:
                C.same(f"{what}: extendable", bool(r.s_nom_extendable), bool(w.s_nom_extendable))
                C.close(f"{what}: capacity", r.s_nom, w.s_nom)
            else:
                C.ok(f"{what}: fixed in the final dispatch", not r.s_nom_extendable)
                want = w.s_nom if i not in ext else discretised(cap[i], w.s_nom_max, opts["line_unit_size"], opts["line_threshold"], opts["fractional_last_unit_size"]) if "line_unit_size" in opts else cap[i]
                C.close(f"{what}: final capacity", r.s_nom, want, 1e-6, 1e-6)
        for i in lk0.index:
            r, w = c["links"].loc[i], lk0.loc[i]
            what = f"call {k + 1} of {len(calls)}, link {i}"
            if last and i in fixl:
                C.ok(f"{what}: fixed in the final dispatch", not r.p_nom_extendable)
                cap_i = lopt[k - 1][i]
                u = opts.get("link_unit_size", {}).get(w.carrier)
                want = discretised(cap_i, w.p_nom_max, u, opts["link_threshold"].get(w.carrier, 0.3), opts.get("fractional_last_unit_size", False)) if u else cap_i
                C.close(f"{what}: final capacity", r.p_nom, want, 1e-6, 1e-6)
            else:
                C.same(f"{what}: extendable", bool(r.p_nom_extendable), bool(w.p_nom_extendable))
                C.close(f"{what}: capacity", r.p_nom, w.p_nom)
    for i in st0.index:
        C.same(f"line {i} extendable as before", bool(n.lines.at[i, "s_nom_extendable"]), bool(st0.at[i, "s_nom_extendable"]))
        C.close(f"line {i} capacity as before", n.lines.at[i, "s_nom"], st0.at[i, "s_nom"])
    for i in lk0.index:
        C.same(f"link {i} extendable as before", bool(n.links.at[i, "p_nom_extendable"]), bool(lk0.at[i, "p_nom_extendable"]))
        C.close(f"link {i} capacity as before", n.links.at[i, "p_nom"], lk0.at[i, "p_nom"])
    if status == "ok":
        for c, a in (("Line", "s_nom"), ("Link", "p_nom")):
            src = calls[-1]["lines" if c == "Line" else "links"]
            for i in (ext if c == "Line" else fixl):
                C.close(f"{c} {i}: reported capacity is the dispatched one", n.static(c).at[i, a + "_opt"], src.at[i, a], 1e-6, 1e-6)
                C.ok(f"{c} {i} dispatched within it", (n.dynamic(c).p0[i].abs() <= src.at[i, a] + 1e-4).all())


# ------------------------------------------------------------------ C19

BR = ("Line", "Link", "Transformer")


def with_results(g):
    """a network whose result series and optimal capacities are filled with arbitrary values, zero where inactive"""
    n, _, kw = make(int(g.r.integers(1, 2**31)), glc=False)
    multi = isinstance(n.snapshots, pd.MultiIndex)
    n._multi_invest = int(multi)
    if g.coin(0.4):
        n.carriers["nice_name"] = [g.pick(["", f"Nice {c}"]) for c in n.carriers.index]
    if g.coin(0.3):
        n.snapshot_weightings["generators"] = n.snapshot_weightings.objective
        n.snapshot_weightings["stores"] = n.snapshot_weightings.objective
    T = len(n.snapshots)
    series = {"Generator": ["p"], "Load": ["p"], "Store": ["p", "e"], "StorageUnit": ["p_dispatch", "p_store", "state_of_charge", "spill"],
              "Line": ["p0", "p1"], "Transformer": ["p0", "p1"], "Link": [f"p{k}" for k in ports(n)]}
    for c, attrs in series.items():
        st = n.static(c)
        if not len(st):
            continue
        on = pd.DataFrame({i: [alive(st.loc[i], t[0] if multi and c != "Load" else None) for t in n.snapshots] for i in st.index}, index=n.snapshots).astype(float)
        for a in attrs:
            lo = 0 if a in ("p_dispatch", "p_store", "spill", "state_of_charge", "e") else -9
            df = pd.DataFrame(np.round(g.r.uniform(lo, 20, (T, len(st))), 3), n.snapshots, st.index) * on
            if c == "Link" and a not in ("p0", "p1"):
                df.loc[:, st.index[st["bus" + a[1:]] == ""]] = 0.0
            n.dynamic(c)[a] = df
        if c == "StorageUnit":
            n.dynamic(c).p = n.dynamic(c).p_dispatch - n.dynamic(c).p_store
        if c in ("Generator", "Link"):
            for a in ("status", "start_up", "shut_down"):
                com = st.index[st.committable]
                if len(com):
                    n.dynamic(c)[a] = pd.DataFrame(g.r.integers(0, 2, (T, len(com))).astype(float), n.snapshots, com) * on[com]
        if c in NOM:
            st[NOM[c]] = [0.0 if r[NOM[c] + "_extendable"] and g.coin(0.3) else r[NOM[c]] for _, r in st.iterrows()]
            st[NOM[c] + "_opt"] = [g.pick([r[NOM[c]], r[NOM[c]] + g.num(0, 9), g.num(0, 5)]) if r[NOM[c] + "_extendable"] else r[NOM[c]] for _, r in st.iterrows()]
    n.buses_t.marginal_price = pd.DataFrame(np.round(g.r.uniform(-5, 80, (T, len(n.buses))), 3), n.snapshots, n.buses.index)
    return n, multi


def oracle_rows(n, multi, stat, comps, agg, at_port):
    """[(class, asset, port, {column: value})] of one statistic, straight from its definition"""
    out = []
    sns = n.snapshots
    cols = list(n.investment_periods) if multi else [None]
    W = n.snapshot_weightings

    def weight(c):
        return W.generators if c == "Generator" else W.stores if c in ("Store", "StorageUnit") else W.objective

    def over_time(c, f, w):
        """aggregate the series f(t)"""
        if agg is False:
            return {t: f(t) for t in sns}
        d = {}
        for p in cols:
            ts = [t for t in sns if p is None or t[0] == p]
            tot = sum(w[t] for t in ts)
            d[p] = sum(f(t) * w[t] for t in ts) / (tot if agg == "mean" else 1.0)
        return d

    for c in comps:
        st = n.static(c)
        ps = [x[3:] for x in st.columns if x.startswith("bus") and (x == "bus" or x[3:].isdigit())]
        ps = ps if at_port else ps[:1]
        for i in st.index:
            r = st.loc[i]
            sign = -1.0 if c in BR else r.get("sign", 1.0)
            live = [p for p in cols if alive(r, p if c != "Load" else None)]
            for k in ps:
                if k not in ("", "0", "1") and r["bus" + k] == "":
                    continue
                power = (lambda t: sign * n.dynamic(c)["p" + k].at[t, i])
                if stat in ("capex", "installed_capex"):
                    v = {p: r.capital_cost * r[NOM[c] + ("_opt" if stat == "capex" else "")] for p in live} if c in NOM else {}
                elif stat in ("optimal_capacity", "installed_capacity"):
                    e = 1.0 if k in ("", "0") else r.get("efficiency" if k == "1" else "efficiency" + k, 1.0)
                    e = 1.0 if e != e else e
                    v = {p: r[NOM[c] + ("_opt" if stat == "optimal_capacity" else "")] * (e if k != "0" or not at_port else -1.0) for p in live} if c in NOM else {}
                elif stat in ("supply", "withdrawal", "energy_balance"):
                    f = {"supply": lambda t: max(power(t), 0), "withdrawal": lambda t: max(-power(t), 0), "energy_balance": power}[stat]
                    v = over_time(c, f, weight(c))
                elif stat == "revenue":
                    v = over_time(c, lambda t: power(t) * n.buses_t.marginal_price.at[t, r["bus" + k]], weight(c))
                elif stat == "curtailment":
                    if c not in ("Generator", "StorageUnit"):
                        continue
                    f = lambda t: max(dense(n, c, "p_max_pu", i, t) * r.p_nom_opt * alive(r, t[0] if multi else None) - n.dynamic(c).p.at[t, i], 0)
                    v = over_time(c, f, weight(c))
                elif stat == "operation":
                    if c not in NOM:
                        continue
                    src = n.dynamic(c)["p0" if c in BR else "e" if c == "Store" else "p"]
                    v = over_time(c, lambda t: abs(src.at[t, i]), weight(c))
                elif stat == "opex":
                    def f(t):
                        d = n.dynamic(c)
                        x = 0.0
                        if c in ("Generator", "Link", "Store", "StorageUnit"):
                            q = {"Generator": "p", "Link": "p0", "Store": "p", "StorageUnit": "p_dispatch"}[c]
                            x += dense(n, c, "marginal_cost", i, t) * d[q].at[t, i] + dense(n, c, "marginal_cost_quadratic", i, t) * d[q].at[t, i] ** 2
                        if c == "Store":
                            x += dense(n, c, "marginal_cost_storage", i, t) * d["e"].at[t, i]
                        if c == "StorageUnit":
                            x += dense(n, c, "marginal_cost_storage", i, t) * d["state_of_charge"].at[t, i] + dense(n, c, "spill_cost", i, t) * d["spill"].at[t, i]
                        if c in ("Generator", "Link") and r.committable:
                            x += dense(n, c, "stand_by_cost", i, t) * d["status"].at[t, i]
                            if agg is not False:
                                x += (r.start_up_cost * d["start_up"].at[t, i] + r.shut_down_cost * d["shut_down"].at[t, i]) / W.objective[t]
                        return x
                    if agg is False and c in ("Generator", "Link") and r.committable:
                        continue
                    v = over_time(c, f, W.objective)
                if v and not multi and stat not in ("capex",) and agg is not False and not live:
                    v = {}
                out.append((c, i, k, v))
    return out


def collect(n, rows, groupby, nice):
    """sum the rows of each group; {(key): {column: value}}"""
    def carrier(name):
        name = "" if name is None or name != name else name
        if nice:
            nn = n.carriers.nice_name.get(name, "") if name in n.carriers.index else ""
            return nn if nn != "" else (name if name != "" else "-")
        return name
    out = {}
    for c, i, k, v in rows:
        r = n.static(c).loc[i]
        key = [c]
        for gb in [i] if groupby is False else [groupby] if isinstance(groupby, str) else groupby:
            if groupby is False:
                key.append(i)
            elif gb == "carrier":
                key.append(carrier(r.get("carrier", "")))
            elif gb == "bus_carrier":
                key.append(carrier(n.buses.carrier.get(r["bus" + k], "")))
            elif gb == "bus":
                key.append(r["bus" + k])
        d = out.setdefault(tuple(key), {})
        for x, y in v.items():
            d[x] = d.get(x, 0.0) + y
    return out


def compare(C, what, got, want, nan_is=0.0):
    """statistics output against {key: {column: value}}; dropped entries count as zero"""
    if isinstance(got, pd.Series):
        have = {k if isinstance(k, tuple) else (k,): {None: v} for k, v in got.items()}
    else:
        have = {k if isinstance(k, tuple) else (k,): dict(r.items()) for k, r in got.iterrows()}
    for k in sorted({*have, *want}, key=str):
        a, b = have.get(k, {}), want.get(k, {})
        for x in {*a, *b}:
            p, q = a.get(x, nan_is), b.get(x, nan_is)
            p = nan_is if pd.isna(p) else p
            q = nan_is if pd.isna(q) or np.isinf(q) and False else q
            if np.isinf(p) and np.isinf(q):
                continue
            C.close(f"{what} {k}{'' if x is None else f' {x}'}", p, q, 1e-5, 1e-6)


@contract("C19")
def statistics_are_the_defined_sums(g, C):
    n, multi = with_results(g)
    S = n.statistics
    allc = [c for c in ("Generator", "Load", "Store", "StorageUnit", "Line", "Transformer", "Link") if len(n.static(c))]
    nice = g.coin(0.7)
    kw = dict(round=10, nice_names=nice)
    C.note = dict(multi=multi, classes=allc)

    def pick_group():
        return g.pick([False, "carrier", "carrier", ["carrier", "bus_carrier"], "bus", "bus_carrier"])

    def rows(stat, comps, agg="sum", at_port=False):
        return oracle_rows(n, multi, stat, comps, agg, at_port)
    for stat in ("capex", "installed_capex", "optimal_capacity", "installed_capacity", "supply", "withdrawal", "energy_balance", "revenue", "curtailment", "opex"):
        comps = allc if g.coin(0.7) else [c for c in allc if g.coin()] or allc[:1]
        if stat in ("capex", "installed_capex", "optimal_capacity", "installed_capacity"):
            comps = [c for c in comps if c in NOM] or [c for c in allc if c in NOM][:1]
        gb = pick_group()
        args = dict(kw, comps=comps, groupby=gb)
        agg, at = "sum", stat in ("supply", "withdrawal", "energy_balance", "revenue")
        if stat in ("supply", "withdrawal", "energy_balance", "revenue", "curtailment", "opex") and g.coin(0.4):
            agg = g.pick(["mean", False])
            args["aggregate_time"] = agg
        if stat in ("supply", "withdrawal", "energy_balance", "revenue") and g.coin(0.3):
            at = g.coin()
            args["at_port"] = at
        rr = rows(stat, comps, agg, at)
        if stat == "opex" and agg != "sum":     # costs per event have no defined average
            skip = {c for c in ("Generator", "Link") if c in comps and n.static(c).committable.any()}
            if skip:
                continue
        if g.coin(0.3) and stat in ("supply", "withdrawal", "energy_balance", "revenue", "capex", "opex", "curtailment"):
            bc = g.pick(list(n.buses.carrier.unique()))
            args["bus_carrier"] = bc if g.coin() else [bc]
            rr = [x for x in rr if n.buses.carrier.get(n.static(x[0]).at[x[1], "bus" + x[2]], "") == bc]
        if g.coin(0.2):
            ca = g.pick(list(n.carriers.index))
            if g.coin() and all("carrier" not in n.static(c) or ca in set(n.static(c).carrier) for c in comps):
                args["carrier"] = ca
            else:
                args["carrier"] = [ca]
            rr = [x for x in rr if "carrier" not in n.static(x[0]) or n.static(x[0]).at[x[1], "carrier"] == ca]
        what = f"{stat}({', '.join(f'{k}={v}' for k, v in args.items() if k != 'round')})"
        compare(C, what, getattr(S, stat)(**args), collect(n, rr, gb, nice))
    # derived statistics
    gb = pick_group()
    nomc = [c for c in allc if c in NOM]
    d = dict(kw, groupby=gb, comps=nomc)

    def combine(a, b, f):
        return {k: {x: f(a.get(k, {}).get(x, 0.0), b.get(k, {}).get(x, 0.0)) for x in {*a.get(k, {}), *b.get(k, {})}} for k in {*a, *b}}
    opt, ins = (collect(n, rows(s, nomc), gb, nice) for s in ("optimal_capacity", "installed_capacity"))
    compare(C, f"expanded_capacity(groupby={gb})", S.expanded_capacity(**d), combine(opt, ins, lambda a, b: a - b if abs(a) > abs(b) else 0.0))
    cap, inc = (collect(n, rows(s, nomc), gb, nice) for s in ("capex", "installed_capex"))
    compare(C, f"expanded_capex(groupby={gb})", S.expanded_capex(**d), combine(cap, inc, lambda a, b: a - b))
    opx = collect(n, rows("opex", nomc), gb, nice)
    compare(C, f"system_cost(groupby={gb})", S.system_cost(**d), combine(cap, opx, lambda a, b: a + b))
    ope = collect(n, rows("operation", nomc, "mean"), gb, nice)
    compare(C, f"capacity_factor(groupby={gb})", S.capacity_factor(**d), {k: {x: (y / opt[k][x] if opt.get(k, {}).get(x) else 0.0) for x, y in v.items() if opt.get(k, {}).get(x)} for k, v in ope.items()})
    d["comps"] = allc
    sup, wit, bal, rev = (collect(n, rows(s, allc, "sum", True), gb, nice) for s in ("supply", "withdrawal", "energy_balance", "revenue"))
    compare(C, "supply - withdrawal = balance", S.supply(**d).sub(S.withdrawal(**d), fill_value=0), bal)
    rm, sm = (collect(n, rows(s, allc, "mean", True), gb, nice) for s in ("revenue", "supply"))
    mv = {k: {x: y / sm[k][x] for x, y in v.items() if abs(sm[k].get(x, 0)) > 1e-9 and abs(y) > 1e-9} for k, v in rm.items()}
    compare(C, f"market_value(groupby={gb})", S.market_value(**d), mv)


@contract("C19")
def solved_networks_balance(g, C):
    n, sns, kw = make(int(g.r.integers(1, 2**31)), glc=False, committable=False)
    kw.pop("meshed_threshold", None)
    linear(n)
    slack(n)
    n.snapshot_weightings["generators"] = n.snapshot_weightings.objective
    n.snapshot_weightings["stores"] = n.snapshot_weightings.objective
    multi = kw["multi_investment_periods"]
    if kw["transmission_losses"]:
        kw["transmission_losses"] = 0
    if multi != isinstance(n.snapshots, pd.MultiIndex):
        return
    if solve(n, None, **kw) != "ok":
        return
    C.note = kw
    S = n.statistics
    args = dict(round=10, nice_names=False)
    bal = S.energy_balance(**args, groupby=["carrier", "bus_carrier"])
    tot = bal.groupby(level="bus_carrier").sum()
    vol = S.supply(**args, groupby=["carrier", "bus_carrier"]).groupby(level="bus_carrier").sum()
    for b in tot.index:
        C.close(f"energy balance of bus carrier {b}", tot.loc[b], tot.loc[b] * 0, 1e-3 + 1e-6 * float(np.max(vol.loc[b])) if b in vol.index else 1e-3, 0)
    if not multi:       # cost accounting agrees with the objective
        given = sum(r.capital_cost * r[a] * alive(r, None) for c, a in NOM.items() for _, r in n.static(c).iterrows())
        C.close("system cost", S.system_cost(**args).sum(), n.objective + given, 1e-3, 1e-5)
    else:
        w = n.investment_period_weightings.objective
        given = sum(r.capital_cost * r[a] * alive(r, p) * w[p] for c, a in NOM.items() for _, r in n.static(c).iterrows() for p in n.investment_periods)
        C.close("system cost", (S.system_cost(**args).sum() * w).sum(), n.objective + given, 1e-3, 1e-5)
