"""Run-time contracts of the spatial clustering (C20)."""
from __future__ import annotations

import numpy as np
import pandas as pd
import pypsa

from dv.gen import make
from dv.rt import contract
from dv.rt_core import facts, same_facts

ONE = ("Generator", "Load", "StorageUnit", "Store", "ShuntImpedance")
NOM = {"Generator": "p_nom", "StorageUnit": "p_nom", "Store": "e_nom"}


def dense(n, c, attr, i):
    d = n.dynamic(c)
    if attr in d and i in d[attr].columns:
        return d[attr][i].values.astype(float)
    return np.full(len(n.snapshots), float(n.static(c).at[i, attr]))


def place(n, g):
    n.buses["x"] = [g.num(-10, 30) for _ in n.buses.index]
    n.buses["y"] = [g.num(35, 65) for _ in n.buses.index]


def busmap(n, g, k=None):
    """buses of the same carrier are merged at random; labels in an order unlike the one of the buses"""
    out, labels = {}, [str(x) for x in g.r.permutation(40)]
    if g.coin(0.3):
        labels = [f"c{x}" for x in labels]
    for car in n.buses.carrier.unique():
        bs = list(n.buses.index[n.buses.carrier == car])
        own = [labels.pop() for _ in range(k or int(g.r.integers(1, len(bs) + 1)))]
        for b in bs:
            out[b] = g.pick(own)
    s = pd.Series(out)
    return s.loc[[s.index[i] for i in g.r.permutation(len(s))]] if g.coin() else s.reindex(n.buses.index)


def km(a, b):
    """great-circle distance (law of cosines on the sphere)"""
    (x0, y0), (x1, y1) = np.deg2rad(a), np.deg2rad(b)
    c = np.sin(y0) * np.sin(y1) + np.cos(y0) * np.cos(y1) * np.cos(x0 - x1)
    return 6371.0 * np.arccos(min(1.0, max(-1.0, c)))


def run(n, bm, g, **kw):
    if g.coin():
        return n.cluster.get_clustering_from_busmap(bm, **kw)
    return pypsa.clustering.spatial.get_clustering_from_busmap(n, bm, **kw)


def check_frame(C, n, m, with_time):
    if with_time:
        C.ok("snapshots", m.snapshots.equals(n.snapshots))
        C.close("snapshot weightings", m.snapshot_weightings[["objective", "stores", "generators"]].values, n.snapshot_weightings[["objective", "stores", "generators"]].values)
        C.same("investment periods", list(m.investment_periods), list(n.investment_periods))
        if len(n.investment_periods):
            C.close("period weightings", m.investment_period_weightings[["objective", "years"]].values.astype(float), n.investment_period_weightings[["objective", "years"]].values.astype(float))
    C.same("carriers", list(m.carriers.index), list(n.carriers.index))
    C.close("emissions of the carriers", m.carriers.co2_emissions.values, n.carriers.co2_emissions.values)
    C.same("global constraints", m.global_constraints.drop(columns="mu").fillna(-1).astype(str).to_dict(), n.global_constraints.drop(columns="mu").fillna(-1).astype(str).to_dict())


def check_buses(C, n, m, bm):
    C.same("one bus per cluster", sorted(m.buses.index), sorted(set(bm)))
    for k in set(bm):
        own = [b for b in n.buses.index if bm[b] == k]
        C.close(f"position of cluster {k}", [m.buses.at[k, "x"], m.buses.at[k, "y"]], [np.mean(n.buses.x[own]), np.mean(n.buses.y[own])])
        C.close(f"voltage of cluster {k}", m.buses.at[k, "v_nom"], max(n.buses.v_nom[own]))
        C.same(f"carrier of cluster {k}", m.buses.at[k, "carrier"], n.buses.at[own[0], "carrier"])


def unused(st, i, col):
    """efficiency of a port the link does not have"""
    return col.startswith("efficiency") and col[10:].isdigit() and not (isinstance(st.at[i, "bus" + col[10:]], str) and st.at[i, "bus" + col[10:]])


def check_same_assets(C, n, m, c, names, bm, with_time, skip=()):
    """assets carried over one by one: bus mapped, all else as before"""
    st, ms = n.static(c), m.static(c)
    outs = {a for a, r in n.components[c]["attrs"].iterrows() if str(r.status).startswith("Output")}
    for i in names:
        for col in st.columns:
            if col in skip or col in outs or col in ("bus", "sub_network", "control"):
                continue
            if col.startswith("bus") and col[3:].isdigit():
                v = st.at[i, col]
                want = bm[v] if v in bm.index else v
                C.same(f"{c} {i}: {col} is the cluster of {v}", ms.at[i, col], want)
                continue
            if unused(st, i, col):
                continue
            a, b = ms.at[i, col] if col in ms else None, st.at[i, col]
            C.ok(f"{c} {i}: {col} as before", a == b or (pd.isna(a) and pd.isna(b)), f"{a} instead of {b}")
        if "bus" in st.columns:
            C.same(f"{c} {i}: attached to the cluster of its bus", ms.at[i, "bus"], bm[st.at[i, "bus"]])
        if with_time:
            for a, r in n.components[c]["attrs"].iterrows():
                if a in n.dynamic(c) and r.static and a in st.columns and st[a].dtype.kind in "fib" and a not in skip and not unused(st, i, a):
                    C.close(f"{c} {i}: profile {a}", dense(m, c, a, i), dense(n, c, a, i))


def check_lines(C, n, m, bm, linemap, factor, with_time):
    st = n.lines
    want = {}
    for l in st.index:
        k0, k1 = bm[st.at[l, "bus0"]], bm[st.at[l, "bus1"]]
        if k0 != k1:
            want.setdefault(tuple(sorted((k0, k1))), []).append(l)
    got = {}
    for l in m.lines.index:
        key = tuple(sorted((m.lines.at[l, "bus0"], m.lines.at[l, "bus1"])))
        C.ok("one line between two clusters", key not in got, str(key))
        got[key] = l
    if not C.ok("exactly the lines which join clusters", set(got) == set(want), f"{sorted(got)} instead of {sorted(want)}"):
        return
    C.same("the line map covers the lines which join clusters", sorted(linemap.index), sorted(x for v in want.values() for x in v))
    for key, ls in want.items():
        L = got[key]
        for l in ls:
            C.same(f"line map of {l}", linemap[l], L)
        s = st.loc[ls]
        C.close(f"capacity between {key}", m.lines.at[L, "s_nom"], s.s_nom.sum())
        C.close(f"minimal capacity between {key}", m.lines.at[L, "s_nom_min"], s.s_nom_min.sum())
        C.close(f"maximal capacity between {key}", m.lines.at[L, "s_nom_max"], s.s_nom_max.values.sum())
        C.same(f"expandable between {key}", bool(m.lines.at[L, "s_nom_extendable"]), bool(s.s_nom_extendable.any()))
        C.close(f"parallel lines between {key}", m.lines.at[L, "num_parallel"], s.num_parallel.sum())
        length = factor * km(*[m.buses.loc[k, ["x", "y"]].astype(float).values for k in key])
        C.close(f"length between {key}", m.lines.at[L, "length"], length, tol=1e-4, rel=1e-5)
        v = max(m.buses.v_nom[list(key)])
        lf = np.array([length / s.at[l, "length"] if s.at[l, "length"] > 0 else length for l in ls])
        vf = np.array([(n.buses.at[s.at[l, "bus0"], "v_nom"] / v) ** 2 for l in ls])
        w = s.s_nom.values / s.s_nom.sum() if s.s_nom.sum() > 0 else np.full(len(ls), 1 / len(ls))
        if length > 1e-3:
            C.close(f"reactance between {key}", m.lines.at[L, "x"], 1 / sum(vf / (lf * s.x.values)), rel=1e-4)
            C.close(f"resistance between {key}", m.lines.at[L, "r"], 1 / sum(vf / (lf * s.r.values)), rel=1e-4)
            C.close(f"susceptance between {key}", m.lines.at[L, "b"], sum(vf * lf * s.b.values), rel=1e-4)
            C.close(f"cost of capacity between {key}", m.lines.at[L, "capital_cost"], sum(s.capital_cost.values * lf * w), rel=1e-4)
        if with_time:
            C.close(f"usable capacity between {key}", dense(m, "Line", "s_max_pu", L), sum(dense(n, "Line", "s_max_pu", l) * x for l, x in zip(ls, w)))
        else:
            C.close(f"usable capacity between {key}", m.lines.at[L, "s_max_pu"], sum(s.s_max_pu.values * w))
    C.ok("profiles only of existing lines", all(set(v.columns) <= set(m.lines.index) for v in m.lines_t.values()))


def check_links(C, n, m, bm, scale, factor, with_time):
    st = n.links
    keep = [k for k in st.index if bm[st.at[k, "bus0"]] != bm[st.at[k, "bus1"]]]
    if not C.ok("exactly the links which join clusters", sorted(m.links.index) == sorted(keep), f"{list(m.links.index)} instead of {keep}"):
        return
    check_same_assets(C, n, m, "Link", keep, bm, with_time, skip=("length", "capital_cost"))
    for k in keep:
        old, cost = st.at[k, "length"], st.at[k, "capital_cost"]
        new = factor * km(*[m.buses.loc[m.links.at[k, b], ["x", "y"]].astype(float).values for b in ("bus0", "bus1")]) if old > 0 else 0
        C.close(f"length of link {k}", m.links.at[k, "length"], new, tol=1e-4, rel=1e-5)
        C.close(f"capital cost of link {k}", m.links.at[k, "capital_cost"], cost * new / old if scale and old > 0 else cost, tol=1e-4, rel=1e-4)
    C.ok("profiles only of existing links", all(set(v.columns) <= set(m.links.index) for v in m.links_t.values()))


def tidy_lines(n, g):
    """attributes of lines without an aggregation rule agree"""
    n.lines["active"] = True
    n.lines["s_nom_mod"] = 0.0
    n.lines["carrier"] = "AC"
    n.lines = n.lines.drop(columns=["s_nom_set"], errors="ignore")
    n.lines["num_parallel"] = [g.pick([0.0, 1.0, 2.0, 1.5]) for _ in n.lines.index]
    n.lines["b"] = [g.num(0, 0.01, 4) for _ in n.lines.index]
    n.lines["capital_cost"] = [g.num(0, 50) for _ in n.lines.index]
    if len(n.lines) and g.coin(0.2):
        n.lines.loc[n.lines.index[0], "length"] = 0.0
    if len(n.lines) and g.coin(0.2):
        n.lines.loc[n.lines.index[0], "s_nom"] = 0.0


def opts(g, n):
    kw = {}
    if g.coin():
        kw["line_length_factor"] = g.pick([1.0, 1.25, 1.4])
    if g.coin(0.4):
        kw["scale_link_capital_costs"] = g.coin()
    if g.coin(0.25):
        kw["with_time"] = False
    return kw


@contract("C20")
def clustering_attaches_every_asset(g, C):
    n = make(g.seed)[0]
    C.note = dict(seed=g.seed)
    place(n, g)
    tidy_lines(n, g)
    n.buses = n.buses.drop(columns=[c for c in n.buses.columns if c.startswith("nom_m")])
    bm = busmap(n, g)
    kw = opts(g, n)
    f = facts(n)
    R = run(n, bm, g, **kw)
    m, t = R.n, kw.get("with_time", True)
    same_facts(C, "clustering leaves the network alone", facts(n), f)
    check_frame(C, n, m, t)
    check_buses(C, n, m, bm)
    for c in ONE:
        if C.ok(f"every {c} is kept", sorted(m.static(c).index) == sorted(n.static(c).index), f"{list(m.static(c).index)}"):
            check_same_assets(C, n, m, c, n.static(c).index, bm, t)
            C.ok(f"profiles only of existing {c}s", all(set(v.columns) <= set(m.static(c).index) for v in m.dynamic(c).values()))
    check_lines(C, n, m, bm, R.linemap, kw.get("line_length_factor", 1.0), t)
    check_links(C, n, m, bm, kw.get("scale_link_capital_costs", True), kw.get("line_length_factor", 1.0), t)
    # the result is a network of its own
    if len(m.global_constraints):
        m.global_constraints.iloc[0, m.global_constraints.columns.get_loc("constant")] = -1.0
    for c in m.all_components:
        for v in m.dynamic(c).values():
            if v.size:
                v.iloc[:, :] = -3.0
    same_facts(C, "changing the clustered network leaves the original alone", facts(n), f)


def plants(g):
    """networks whose assets may be merged: attributes without an aggregation rule agree"""
    n = pypsa.Network()
    nT = int(g.r.integers(2, 5))
    if g.coin(0.2):
        n.snapshots = pd.MultiIndex.from_product([[2020, 2030], pd.date_range("2020-01-01", periods=nT, freq="h")], names=["period", "timestep"])
        n.investment_periods = [2020, 2030]
    else:
        n.set_snapshots(pd.date_range("2020-01-01", periods=nT, freq="h"))
    T = n.snapshots
    nb = int(g.r.integers(3, 9))
    n.add("Bus", [f"b{i}" for i in g.r.permutation(nb)], v_nom=380.0)
    n.buses["v_nom"] = [g.pick([380.0, 220.0]) for _ in n.buses.index]
    bs = list(n.buses.index)
    place(n, g)
    for k in ("wind", "gas", "solar"):
        n.add("Carrier", k, co2_emissions=g.num(0, 1))

    def series(c, attr, lo, hi, p=0.5):
        names = [x for x in n.static(c).index if g.coin(p)]
        names = [names[i] for i in g.r.permutation(len(names))]
        if names:
            n.dynamic(c)[attr] = pd.DataFrame({x: [g.num(lo, hi) for _ in T] for x in names}, index=T)

    cap = lambda: g.pick([g.num(1, 100)] * 4 + [0.0])
    ng = int(g.r.integers(2, 10))
    for i in g.r.permutation(ng):
        n.add("Generator", f"g{i}", bus=g.pick(bs), carrier=g.pick(["wind", "gas", "solar"]), p_nom=cap(), p_nom_min=g.pick([0, g.num(0, 5)]),
              p_nom_max=g.pick([np.inf, g.num(100, 300), g.num(100, 300)]), marginal_cost=g.num(0, 40), capital_cost=g.num(0, 90), efficiency=g.num(0.2, 1),
              p_max_pu=g.num(0.5, 1), p_min_pu=g.pick([0.0, g.num(0, 0.3)]), weight=g.pick([1.0, g.num(0, 4)]), p_nom_extendable=True,
              build_year=g.pick([0, 2020]), lifetime=g.pick([np.inf, 20.0]))
    series("Generator", "p_max_pu", 0, 1)
    series("Generator", "marginal_cost", 0, 40, 0.3)
    series("Generator", "efficiency", 0.2, 1, 0.3)
    if g.coin(0.3):
        series("Generator", "p_set", 0, 9, 1.0)
    for i in g.r.permutation(int(g.r.integers(1, 9))):
        n.add("Load", f"d{i}", bus=g.pick(bs), carrier=g.pick(["", "wind"]), p_set=g.num(0, 50), q_set=g.num(0, 9))
    series("Load", "p_set", 0, 60)
    series("Load", "q_set", 0, 6, 0.2)
    for i in g.r.permutation(int(g.r.integers(0, 6))):
        n.add("StorageUnit", f"s{i}", bus=g.pick(bs), carrier=g.pick(["gas", "wind"]), p_nom=cap(), p_nom_max=g.pick([np.inf, g.num(100, 300)]),
              max_hours=g.num(1, 8), capital_cost=g.num(0, 90), marginal_cost=g.num(0, 3), inflow=g.pick([0.0, g.num(0, 5)]), p_max_pu=g.num(0.5, 1))
    if len(n.storage_units):
        series("StorageUnit", "inflow", 0, 8)
        series("StorageUnit", "p_max_pu", 0, 1, 0.3)
    for i in g.r.permutation(int(g.r.integers(0, 6))):
        n.add("Store", f"e{i}", bus=g.pick(bs), carrier=g.pick(["gas", "solar"]), e_nom=cap(), e_nom_min=g.pick([0, g.num(0, 5)]),
              e_nom_max=g.pick([np.inf, g.num(100, 300)]), capital_cost=g.num(0, 90), marginal_cost=g.num(0, 3))
    for i in g.r.permutation(int(g.r.integers(0, 8))):
        b0, b1 = [bs[k] for k in g.r.permutation(nb)[:2]]
        n.add("Line", f"l{i}", bus0=b0, bus1=b1, x=g.num(0.1, 0.9), r=g.num(0.01, 0.2), length=g.num(1, 300), s_nom=cap(), s_nom_min=g.num(0, 3))
    if len(n.lines):
        tidy_lines(n, g)
        series("Line", "s_max_pu", 0.3, 1, 0.4)
    for i in g.r.permutation(int(g.r.integers(0, 5))):
        b = [bs[k] for k in g.r.permutation(nb)]
        kw = dict(bus2=b[2], efficiency2=g.num(0.1, 0.5)) if g.coin(0.4) else {}
        n.add("Link", f"k{i}", bus0=b[0], bus1=b[1], p_nom=cap(), length=g.pick([0, g.num(1, 300)]), capital_cost=g.num(1, 50), carrier="DC", **kw)
    if len(n.links):
        series("Link", "p_max_pu", 0.3, 1, 0.6)
        series("Link", "efficiency", 0.3, 1, 0.4)
    return n


def share(n, c, names):
    w = n.static(c).loc[names, NOM[c]].values
    return w / w.sum() if w.sum() > 0 else np.full(len(names), 1 / len(names))


def check_merged(C, n, m, c, bm, with_time, part=None):
    st, ms = n.static(c), m.static(c)
    merged = st.index if part is None else part
    groups = {}
    for i in merged:
        groups.setdefault((bm[st.at[i, "bus"]], st.at[i, "carrier"]), []).append(i)
    rest = [i for i in st.index if i not in set(merged)]
    names = {k: " ".join(x for x in k).strip() for k in groups}
    if not C.ok(f"one {c} per cluster and carrier", sorted(ms.index) == sorted(list(names.values()) + rest), f"{sorted(ms.index)} instead of {sorted(list(names.values()) + rest)}"):
        return
    check_same_assets(C, n, m, c, rest, bm, with_time)
    C.ok(f"profiles only of existing {c}s", all(set(v.columns) <= set(ms.index) for v in m.dynamic(c).values()))
    for k, own in groups.items():
        i = names[k]
        C.same(f"{c} {i}: bus and carrier", (ms.at[i, "bus"], ms.at[i, "carrier"]), k)
        val = (lambda a, x: dense(n, c, a, x)) if with_time else (lambda a, x: float(st.at[x, a]))
        new = (lambda a: dense(m, c, a, i)) if with_time else (lambda a: float(ms.at[i, a]))
        for a in ("p_set", "q_set", "inflow"):
            if a in st.columns:
                C.close(f"{c} {i}: {a} adds up", new(a), sum(val(a, x) for x in own))
        if c not in NOM:
            continue
        nom, w = NOM[c], share(n, c, own)
        for a in (nom, nom + "_min", nom + "_max"):
            C.close(f"{c} {i}: {a} adds up", ms.at[i, a], sum(float(st.at[x, a]) for x in own))
        if c == "Generator":
            C.close(f"{c} {i}: weights add up", ms.at[i, "weight"], st.weight[own].sum())
        for a in ("p_max_pu", "p_min_pu", "marginal_cost", "efficiency", "capital_cost", "max_hours"):
            if a not in st.columns:
                continue
            if a in n.dynamic(c):
                C.close(f"{c} {i}: {a} is weighted by capacity", new(a), sum(val(a, x) * y for x, y in zip(own, w)))
            else:
                C.close(f"{c} {i}: {a} is weighted by capacity", ms.at[i, a], sum(float(st.at[x, a]) * y for x, y in zip(own, w)))
        if "p_max_pu" in st.columns and st.loc[own, nom].sum() > 0:
            C.close(f"{c} {i}: dispatch potential", ms.at[i, nom] * new("p_max_pu"), sum(st.at[x, nom] * val("p_max_pu", x) for x in own))


@contract("C20")
def aggregation_preserves_totals(g, C):
    n = plants(g)
    C.note = dict(seed=g.seed)
    bm = busmap(n, g)
    kw = opts(g, n)
    t = kw.get("with_time", True)
    comps = [c for c in ("Generator", "Load", "StorageUnit", "Store") if g.coin(0.6)]
    part = None
    if "Generator" in comps and g.coin():
        comps.remove("Generator")
        kw["aggregate_generators_weighted"] = True
        part = n.generators.index
        if g.coin():
            cs = [k for k in ("wind", "gas", "solar") if g.coin()]
            kw["aggregate_generators_carriers"] = cs
            part = n.generators.index[n.generators.carrier.isin(cs)]
            if g.coin(0.3):
                bb = [b for b in n.buses.index if g.coin(0.4)]
                kw["aggregate_generators_buses"] = bb
                part = n.generators.index[n.generators.carrier.isin(cs) | n.generators.bus.isin(bb)]
    kw["aggregate_one_ports"] = {c: {} for c in comps}
    f = facts(n)
    R = run(n, bm, g, **kw)
    m = R.n
    same_facts(C, "clustering leaves the network alone", facts(n), f)
    check_frame(C, n, m, t)
    check_buses(C, n, m, bm)
    for c in ("Generator", "Load", "StorageUnit", "Store"):
        if c in comps or c == "Generator" and part is not None:
            check_merged(C, n, m, c, bm, t, part if c == "Generator" else None)
        elif C.ok(f"every {c} is kept", sorted(m.static(c).index) == sorted(n.static(c).index), f"{list(m.static(c).index)}"):
            check_same_assets(C, n, m, c, n.static(c).index, bm, t)
    check_lines(C, n, m, bm, R.linemap, kw.get("line_length_factor", 1.0), t)
    check_links(C, n, m, bm, kw.get("scale_link_capital_costs", True), kw.get("line_length_factor", 1.0), t)
