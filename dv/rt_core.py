"""Run-time contracts: activity, dense views, network structure and I/O (C10, C11, C16, C17, C18)."""
from __future__ import annotations

import os
import shutil
import tempfile

import numpy as np
import pandas as pd
import pypsa

from dv.rt import contract

ASSETS = ["Generator", "Load", "StorageUnit", "Store", "Link", "Line", "Transformer"]
NOM = {"Generator": "p", "Line": "s", "Transformer": "s", "Link": "p", "Store": "e", "StorageUnit": "p"}
PERIODS = [2020, 2030, 2040]


def assets(g, multi=None, pre=""):
    """a small network with a few assets of each class (lifetimes, flags, series)"""
    n = pypsa.Network()
    multi = g.coin() if multi is None else multi
    T = int(g.r.integers(2, 5))
    if multi:
        ps = PERIODS[: g.pick([1, 2, 3])]
        n.snapshots = pd.MultiIndex.from_product([ps, pd.date_range("2020-01-01", periods=T, freq="h")], names=["period", "timestep"])
        n.investment_periods = ps
    else:
        n.set_snapshots(g.pick([pd.date_range("2021-01-01", periods=T, freq="h"), pd.Index(range(T)), pd.Index([f"t{i}" for i in range(T)])]))
    nb = int(g.r.integers(2, 5))
    b_ = g.pick(["b", "b", "b", "", "0"])
    for i in range(nb):
        n.add("Bus", f"{pre}{b_}{i}", v_nom=g.pick([1.0, 20.0]), x=g.num(0, 9), y=g.num(0, 9))
    bus = lambda: f"{pre}{b_}{g.r.integers(nb)}"
    for c in ASSETS:
        for k in g.r.permutation(int(g.r.integers(0, 5))):
            kw = dict(active=not g.coin(0.25))
            if c not in ("Load",):
                kw.update(build_year=g.pick([0, 2015, 2020, 2025, 2030, 2035, 2040, 2045]), lifetime=g.pick([np.inf, 5, 10, 15, 20, 0]))
            if c in ("Link", "Line", "Transformer"):
                kw.update(bus0=bus(), bus1=bus())
            else:
                kw.update(bus=bus())
            if c in NOM:
                nom = NOM[c] + "_nom"
                kw[nom] = g.num(1, 99)
                ser = lambda lo, hi: (pd.Series([g.num(lo, hi) for _ in n.snapshots], n.snapshots) if g.coin(0.4) else g.num(lo, hi))
                kw[NOM[c] + "_max_pu"] = ser(0.1, 1)
                if c in ("Generator", "Link", "Store", "StorageUnit"):
                    kw[NOM[c] + "_min_pu"] = ser(-1, 0)
                if c == "StorageUnit":
                    kw["max_hours"] = g.num(1, 9)
            else:
                kw["p_set"] = pd.Series([g.num(0, 9) for _ in n.snapshots], n.snapshots) if g.coin() else g.num(0, 9)
            n.add(c, f"{pre}{c[:2]}{k}", **kw)
    return n


def subset(g, idx, p=0.3, empty=False):
    """None, or a non-empty sub-selection in random order"""
    if g.coin(p) or not len(idx):
        return None
    k = int(g.r.integers(0 if empty else 1, len(idx) + 1))
    return idx[g.r.permutation(len(idx))[:k]]


# ------------------------------------------------------------------ C10

def alive(row, period):
    """documented activity of one asset"""
    if not bool(row.get("active", True)):
        return False
    if period is None or "build_year" not in row.index:
        return True
    ps = [period] if np.isscalar(period) else list(period)
    return any(row["build_year"] <= p and p < row["build_year"] + row["lifetime"] for p in ps)


@contract("C10")
def active_assets(g, C):
    n = assets(g, multi=True)
    ps = list(n.investment_periods)
    for c in ASSETS:
        st = n.static(c)
        if st.empty:
            continue
        for period in [None, *ps, ps[:2], ps[::-1], np.array(ps)]:
            want = [alive(st.loc[i], period) for i in st.index]
            for tag, got in (("n.get_active_assets", n.get_active_assets(c, period)), ("component", n.components[c].get_active_assets(period))):
                C.same(f"{tag}({c}, {period}) assets", list(got.index), list(st.index))
                C.same(f"{tag}({c}, {period})", [bool(x) for x in got.values], want)
    for c in ASSETS:
        if not n.static(c).empty and "build_year" in n.static(c):
            try:
                n.get_active_assets(c, 1999)
                C.ok(f"an unknown investment period is rejected ({c})", False)
            except ValueError:
                C.ok("unknown period rejected", True)


@contract("C10")
def activity_mask(g, C):
    from pypsa.descriptors import get_activity_mask
    n = assets(g)
    multi = bool(getattr(n, "_multi_invest", False))
    for c in ASSETS:
        st = n.static(c)
        if st.empty:
            continue
        for _ in range(2):
            sns, idx = subset(g, n.snapshots), subset(g, st.index)
            got = get_activity_mask(n, c, sns, idx)
            S = n.snapshots if sns is None else sns
            I = st.index if idx is None else idx
            C.same(f"mask({c}) snapshots", list(got.index), list(S))
            C.same(f"mask({c}) assets", list(got.columns), list(I))
            want = [[alive(st.loc[i], t[0] if multi else None) for i in I] for t in S]
            C.same(f"mask({c}) over {list(S)} x {list(I)}", [[bool(x) for x in r] for r in got.values], want)
        C.ok(f"{c}: flags unchanged", st.equals(n.static(c)))


# ------------------------------------------------------------------ C11

def value(n, c, attr, i, t):
    dyn = n.dynamic(c)
    if attr in dyn and i in dyn[attr].columns:
        return dyn[attr].at[t, i]
    return n.static(c).at[i, attr]


VARY = {c: [a for a in ([NOM[c] + "_max_pu"] if c in NOM else ["p_set", "q_set"])] +
        {"Generator": ["p_min_pu", "marginal_cost", "efficiency", "p_set"], "Link": ["p_min_pu", "efficiency", "marginal_cost"],
         "Store": ["e_min_pu", "standing_loss"], "StorageUnit": ["p_min_pu", "efficiency_store", "inflow"]}.get(c, []) for c in ASSETS}


@contract("C11")
def dense(g, C):
    from pypsa.descriptors import get_switchable_as_dense, get_switchable_as_iter
    n = assets(g)
    for c in ASSETS:
        st = n.static(c)
        if st.empty:
            continue
        for attr in VARY[c]:
            sns, idx = subset(g, n.snapshots), subset(g, st.index)
            got = get_switchable_as_dense(n, c, attr, sns, idx)
            S = n.snapshots if sns is None else sns
            I = st.index if idx is None else idx
            C.same(f"dense({c}.{attr}) snapshots", list(got.index), list(S))
            C.same(f"dense({c}.{attr}) assets", sorted(got.columns), sorted(I))
            C.close(f"dense({c}.{attr})[{list(S)}, {list(got.columns)}]", got.values.astype(float),
                    np.array([[value(n, c, attr, i, t) for i in got.columns] for t in S], float).reshape(len(S), len(I)), 1e-12, 1e-12)
            rows = list(get_switchable_as_iter(n, c, attr, S, idx))
            C.same(f"iter({c}.{attr}) length", len(rows), len(S))
            for t, row in zip(S, rows):
                C.same(f"iter({c}.{attr}) assets", sorted(row.index), sorted(I))
                C.close(f"iter({c}.{attr}) at {t}", row.astype(float).values, np.array([value(n, c, attr, i, t) for i in row.index], float), 1e-12, 1e-12)


@contract("C11")
def bounds(g, C):
    from pypsa.descriptors import get_bounds_pu
    n = assets(g)
    for c in NOM:
        st = n.static(c)
        if st.empty:
            continue
        x = NOM[c]
        for attr in [None, x] + (["p_store", "p_dispatch", "state_of_charge"] if c == "StorageUnit" else []):
            sns = subset(g, n.snapshots)
            S = n.snapshots if sns is None else sns
            idx = subset(g, st.index)
            I = st.index if idx is None else idx
            lo, hi = get_bounds_pu(n, c, S, idx, attr)
            mx = lambda i, t: value(n, c, x + "_max_pu", i, t)
            mn = lambda i, t: value(n, c, x + "_min_pu", i, t)
            if c in ("Line", "Transformer"):
                f = lambda i, t: (-mx(i, t), mx(i, t))
            elif c == "StorageUnit":
                f = {"p_store": lambda i, t: (0, -mn(i, t)), "state_of_charge": lambda i, t: (0, st.at[i, "max_hours"])}.get(attr, lambda i, t: (0, mx(i, t)))
            else:
                f = lambda i, t: (mn(i, t), mx(i, t))
            for k, (tag, d) in enumerate((("lower", lo), ("upper", hi))):
                C.same(f"bounds({c}, {attr}) {tag} snapshots", list(d.index), list(S))
                C.same(f"bounds({c}, {attr}) {tag} assets", sorted(d.columns), sorted(I))
                C.close(f"bounds({c}, {attr}) {tag} [{list(S)}, {list(d.columns)}]", d.values.astype(float),
                        np.array([[f(i, t)[k] for i in d.columns] for t in S], float).reshape(len(S), len(I)), 1e-12, 1e-12)


# ------------------------------------------------------------------ helpers

def same_value(a, b):
    if a is b:
        return True
    try:
        if pd.isna(a) and pd.isna(b):
            return True
    except (TypeError, ValueError):
        pass
    if isinstance(a, (float, int, np.number, bool, np.bool_)) and isinstance(b, (float, int, np.number, bool, np.bool_)):
        return float(a) == float(b) or abs(float(a) - float(b)) <= 1e-12 * abs(float(b))
    return type(a) is type(b) and bool(a == b) if not isinstance(a, str) else a == b


def facts(n, only=None):
    """a deep snapshot of the observable data of a network"""
    return dict(static={c: n.static(c).copy(deep=True) for c in n.all_components if only is None or c in only},
                dynamic={c: {k: v.copy(deep=True) for k, v in n.dynamic(c).items()} for c in n.all_components if only is None or c in only},
                snapshots=n.snapshots.copy(), weights=n.snapshot_weightings.copy(deep=True), periods=pd.Index(n.investment_periods).copy(),
                pweights=n.investment_period_weightings.copy(deep=True), name=n.name, meta=str(n.meta), crs=str(n.crs))


def cells(C, what, got, want, attrs=None):
    """two static tables: same rows in order, same values (an absent column means default)"""
    if not C.ok(f"{what}: rows", list(got.index) == list(want.index), f"{list(got.index)[:10]} instead of {list(want.index)[:10]}"):
        return
    for col in sorted({*got.columns, *want.columns}, key=str):
        if col == "geometry":
            continue
        dflt = attrs.at[col, "default"] if attrs is not None and col in attrs.index else np.nan
        a = list(got[col]) if col in got else [dflt] * len(got)
        b = list(want[col]) if col in want else [dflt] * len(want)
        if str(col).startswith("efficiency") and str(col)[10:].isdigit():   # NaN at links without that port
            a, b = ([1.0 if pd.isna(v) else v for v in x] for x in (a, b))
        bad = [(i, x, y) for i, x, y in zip(got.index, a, b) if not same_value(x, y)]
        C.ok(f"{what}.{col}", not bad, str(bad[:3]))


def same_facts(C, what, a, b, order=True):
    for c in b["static"]:
        if len(b["static"][c]) or len(a["static"][c]):
            cells(C, f"{what}: {c}", a["static"][c], b["static"][c])
        for k in sorted({*a["dynamic"][c], *b["dynamic"][c]}):
            x, y = a["dynamic"][c].get(k, pd.DataFrame()), b["dynamic"][c].get(k, pd.DataFrame())
            if x.shape[1] or y.shape[1]:
                C.same(f"{what}: {c}.{k} series of", sorted(x.columns), sorted(y.columns))
                C.ok(f"{what}: {c}.{k} snapshots", x.index.equals(y.index), f"{list(x.index)[:4]} instead of {list(y.index)[:4]}")
                C.close(f"{what}: {c}.{k}", x[sorted(x.columns)].values.astype(float), y[sorted(x.columns)].values.astype(float), 0, 1e-12)
    C.ok(f"{what}: snapshots", a["snapshots"].equals(b["snapshots"]), f"{list(a['snapshots'])[:4]} instead of {list(b['snapshots'])[:4]}")
    C.frame(f"{what}: snapshot weightings", a["weights"].sort_index(axis=1), b["weights"].sort_index(axis=1))
    C.same(f"{what}: investment periods", list(a["periods"]), list(b["periods"]))
    if len(b["periods"]):
        C.frame(f"{what}: period weightings", a["pweights"].sort_index(axis=1), b["pweights"].sort_index(axis=1))
    for k in ("name", "meta", "crs"):
        C.same(f"{what}: {k}", a[k], b[k])


# ------------------------------------------------------------------ C16

STAT = {"Bus": dict(v_nom="f", carrier="s", x="f"), "Carrier": dict(co2_emissions="f", nice_name="s"),
        "Generator": dict(bus="b", p_nom="f", carrier="s", p_nom_extendable="B", build_year="i", marginal_cost="f", p_max_pu="f"),
        "Load": dict(bus="b", p_set="f", sign="f"), "StorageUnit": dict(bus="b", p_nom="f", max_hours="f", cyclic_state_of_charge="B"),
        "Store": dict(bus="b", e_nom="f", e_max_pu="f"),
        "Link": dict(bus0="b", bus1="b", bus2="b", bus3="b", efficiency="f", efficiency2="f", efficiency3="f", p_nom="f"),
        "Line": dict(bus0="b", bus1="b", x="f", s_nom="f", num_parallel="f")}
SER = {"Bus": ["v_mag_pu_set"], "Carrier": [], "Generator": ["p_max_pu", "p_min_pu", "marginal_cost", "p_set"], "Load": ["p_set", "q_set"],
       "StorageUnit": ["inflow", "p_max_pu"], "Store": ["e_max_pu"], "Link": ["efficiency", "efficiency2", "p_max_pu"], "Line": ["s_max_pu"]}


class Model:
    """what the tables must contain after the operations made so far"""

    def __init__(self, n):
        self.n = n
        self.names = {c: [] for c in STAT}
        self.given = {c: {} for c in STAT}       # name -> {attr: value}
        self.series = {c: {} for c in STAT}      # attr -> {name: Series}
        self.custom = {c: set() for c in STAT}
        self.sns = n.snapshots
        self.log = []

    def check(self, C):
        n, what = self.n, " / ".join(self.log[-3:])
        for c in STAT:
            st, attrs = n.static(c), n.components[c]["attrs"]
            C.same(f"after {what}: {c} rows", list(st.index), self.names[c])
            for a in attrs.index[attrs.static].drop("name"):
                if a in ("sub_network",):
                    continue
                want = [self.given[c][i].get(a, attrs.at[a, "default"]) for i in self.names[c]]
                have = list(st[a]) if a in st else []
                if a.startswith("efficiency") and a[10:].isdigit():
                    have = [1.0 if pd.isna(v) else v for v in have]
                bad = [(i, x, y) for i, x, y in zip(st.index, have, want) if not same_value(x, y)] if a in st else want
                C.ok(f"after {what}: {c}.{a}", not bad, str(bad[:3]))
            for a in self.custom[c]:
                bad = [(i, st.at[i, a]) for i in self.names[c] if not same_value(st.at[i, a] if a in st else np.nan, self.given[c][i].get(a, np.nan))]
                C.ok(f"after {what}: custom {c}.{a}", not bad, str(bad[:3]))
            for a, df in n.dynamic(c).items():
                want = self.series[c].get(a, {})
                C.same(f"after {what}: time series {c}.{a} of", sorted(df.columns), sorted(want))
                C.ok(f"after {what}: time series {c}.{a} rows", df.index.equals(self.sns), f"{list(df.index)} instead of {list(self.sns)}")
                for i in want:
                    C.close(f"after {what}: time series {c}.{a}[{i}]", df[i].values.astype(float), want[i].reindex(self.sns).values.astype(float), 0, 0)
        C.ok(f"after {what}: snapshots", n.snapshots.equals(self.sns))

    # operations: perform on the network and on the model
    def value(self, g, kind):
        return {"f": lambda: g.num(-9, 9), "s": lambda: g.pick(["gas", "oil", "x y"]), "B": lambda: g.coin(), "i": lambda: int(g.r.integers(0, 2050)),
                "b": lambda: g.pick(self.names["Bus"] or [""])}[kind]()

    def add(self, g, C):
        n = self.n
        c = g.pick(list(STAT)) if self.names["Bus"] else "Bus"
        single = g.coin(0.4)
        suffix = g.pick(["", "", " s", "-1"])
        pool = [f"{c[0]}{k}" for k in range(9)]
        over = g.coin(0.3)
        k = 1 if single else int(g.r.integers(1, 5))
        base = [pool[j] for j in g.r.permutation(9)[:k]]
        full = [b + suffix for b in base]
        kw, val, ser = {}, {}, {}
        attrs = {**STAT[c], **({"note": "s"} if g.coin(0.2) else {}), **({"mark": "f"} if g.coin(0.2) else {})}
        for a, kind in attrs.items():
            if a in ("bus", "bus0", "bus1") or g.coin(0.4):
                if single or g.coin(0.4):
                    v = self.value(g, kind)
                    kw[a], val[a] = v, [v] * k
                else:
                    v = [self.value(g, kind) for _ in full]
                    val[a] = v
                    kw[a] = g.pick([v, np.array(v), pd.Series(v, index=full), pd.Series(v, index=base)]) if len(v) > 1 else v
        if c == "Link" and "efficiency3" in kw and "bus3" not in kw:
            del kw["efficiency3"]
            val.pop("efficiency3")
        if c == "Link" and "efficiency2" in kw and "bus2" not in kw and "bus2" not in n.components["Link"]["attrs"].index:
            del kw["efficiency2"]
            val.pop("efficiency2")
        for a in SER[c]:
            if a == "efficiency2" and ("bus2" not in kw):
                continue
            if g.coin(0.3):
                kw.pop(a, None)
                val.pop(a, None)
                x = np.array([[g.num(0, 9) for _ in full] for _ in self.sns])
                ser[a] = x
                if single:
                    kw[a] = g.pick([pd.Series(x[:, 0], self.sns), list(x[:, 0]), x[:, 0]]) if len(self.sns) > 0 else x[:, 0]
                else:
                    kw[a] = g.pick([pd.DataFrame(x, self.sns, full), pd.DataFrame(x, self.sns, base), x])
        if not single and len(full) > 1 and g.coin(0.15):     # misaligned labels are rejected, nothing changes
            a = next(iter(a for a, kd in STAT[c].items() if kd == "f"))
            try:
                n.add(c, base, suffix=suffix, overwrite=over, **{**kw, a: pd.Series(1.0, index=full[::-1])})
                self.log.append("misaligned series")
                C.ok(f"add {c} {full} with {a} indexed {full[::-1]} is rejected", False)
            except ValueError:
                self.log.append(f"rejected add {c} {full}")
            return
        self.log.append(f"add {c} {full} {'overwrite ' if over else ''}{sorted(kw)}")
        got = n.add(c, base[0] if single else g.pick([base, pd.Index(base)]), suffix=suffix, overwrite=over, **kw)
        C.same(f"add returns the names ({c})", list(got), full)
        old = set(self.names[c])
        take = [(j, i) for j, i in enumerate(full) if over or i not in old]
        for j, i in take:
            self.given[c][i] = {a: v[j] for a, v in val.items()}
            for a in self.series[c]:
                self.series[c][a].pop(i, None)
            for a, x in ser.items():
                self.series[c].setdefault(a, {})[i] = pd.Series(x[:, j], self.sns)
        for a in ("note", "mark"):
            if a in kw and take:
                self.custom[c].add(a)
        new = [i for i in full if i not in old]
        if over and old & set(full):      # where overwritten rows go is not specified
            keep = [i for i in self.names[c] if i not in full]
            act = list(n.static(c).index)
            C.same(f"after {self.log[-1]}: untouched rows keep their order", [i for i in act if i in keep], keep)
            C.same(f"after {self.log[-1]}: rows", sorted(act), sorted(self.names[c] + new))
            self.names[c] = act
        else:
            self.names[c] = self.names[c] + new

    def remove(self, g, C):
        c = g.pick([c for c in STAT if self.names[c]])
        idx = self.names[c]
        k = int(g.r.integers(1, len(idx) + 1)) if g.coin(0.6) else 1
        gone = [idx[j] for j in g.r.permutation(len(idx))[:k]]
        self.log.append(f"remove {c} {gone}")
        self.n.remove(c, gone[0] if k == 1 and g.coin() else g.pick([gone, pd.Index(gone)]))
        self.names[c] = [i for i in idx if i not in gone]
        for i in gone:
            self.given[c].pop(i)
            for a in self.series[c]:
                self.series[c][a].pop(i, None)

    def time(self, g, C):
        pool = pd.date_range("2022-05-01", periods=8, freq="h") if isinstance(self.sns, pd.DatetimeIndex) else pd.Index(range(8))
        new = pool[np.sort(g.r.permutation(8)[: int(g.r.integers(1, 7))])]
        self.log.append(f"set_snapshots {list(new)}")
        w = self.n.snapshot_weightings.copy()
        self.n.set_snapshots(new)
        dflt = lambda c, a: self.n.components[c]["attrs"].at[a, "default"]
        for c in STAT:
            for a, d in self.series[c].items():
                for i in d:
                    s = d[i].reindex(pd.Index(new, name="snapshot"))
                    d[i] = s.where(s.index.isin(self.sns), dflt(c, a))
        keep = [t for t in new if t in self.sns]
        C.same("set_snapshots keeps weightings", self.n.snapshot_weightings.loc[keep].values.tolist(), w.loc[keep].values.tolist())
        C.ok("new snapshots weigh one", (self.n.snapshot_weightings.drop(index=keep) == 1).all(axis=None))
        self.sns = pd.Index(new, name="snapshot")


@contract("C16")
def table_history(g, C):
    n = pypsa.Network()
    T = int(g.r.integers(1, 5))
    n.set_snapshots(g.pick([pd.date_range("2022-05-01", periods=T, freq="h"), pd.Index(range(T))]))
    n.snapshot_weightings["objective"] = [g.num(1, 5) for _ in range(T)]
    M = Model(n)
    for step in range(int(g.r.integers(4, 14))):
        r = g.r.random()
        if r < 0.65 or not any(M.names.values()):
            M.add(g, C)
        elif r < 0.85:
            M.remove(g, C)
        else:
            M.time(g, C)
        C.note = M.log[-6:]
        M.check(C)


@contract("C16")
def change_of_periods(g, C):
    """set_investment_periods / multi-indexed snapshots repeat the series in every period"""
    n = assets(g, multi=False)
    ps = PERIODS[: g.pick([1, 2, 3])]
    sns = n.snapshots
    before = {c: {k: v.copy() for k, v in n.dynamic(c).items()} for c in ASSETS}
    st = {c: n.static(c).copy() for c in ASSETS}
    if g.coin():
        n.set_investment_periods(ps)
    else:
        n.set_snapshots(pd.MultiIndex.from_product([ps, sns]))
        n.set_investment_periods(ps)
    C.same("snapshots are periods times snapshots", list(n.snapshots), [(p, t) for p in ps for t in sns])
    C.same("investment periods", list(n.investment_periods), ps)
    for c in ASSETS:
        cells(C, c, n.static(c), st[c])
        for k, v in before[c].items():
            C.same(f"{c}.{k} columns", list(n.dynamic(c)[k].columns), list(v.columns))
            if v.shape[1]:
                for p in ps:
                    C.close(f"{c}.{k} in {p}", n.dynamic(c)[k].loc[p].values.astype(float), v.values.astype(float), 0, 0)


@contract("C16")
def merge(g, C):
    a, b = assets(g, multi=False), assets(g, multi=False, pre="m ")
    b.set_snapshots(a.snapshots)
    fa, fb = facts(a), facts(b)
    m = a.merge(b)
    same_facts(C, "merge leaves the first network alone", facts(a), fa)
    same_facts(C, "merge leaves the second network alone", facts(b), fb)
    for c in ASSETS + ["Bus"]:
        x, y = fa["static"][c], fb["static"][c]
        cells(C, f"merged {c}", m.static(c), pd.concat([x, y]) if len(x) and len(y) else (x if len(x) else y))
        for k in m.dynamic(c):
            for f in (fa, fb):
                d = f["dynamic"][c].get(k, pd.DataFrame())
                for i in d.columns:
                    C.ok(f"merged {c}.{k}[{i}]", i in m.dynamic(c)[k] and (m.dynamic(c)[k][i].values == d[i].values).all())


# ------------------------------------------------------------------ C17 / C18

def rich(g, solved_like=True):
    n = assets(g)
    n.name = g.pick(["net", "", "a b"])
    if g.coin(0.6):
        n.meta = {"a": g.num(0, 9), "nested": {"k": [1, 2, "x"]}, "s": "text"}
    if g.coin(0.3):
        n.crs = g.pick(["EPSG:4326", "EPSG:3857"])
    for c in ("objective", "stores", "generators"):
        if g.coin(0.6):
            n.snapshot_weightings[c] = [g.num(0.5, 9) for _ in n.snapshots]
    if len(n.investment_periods):
        n.investment_period_weightings["objective"] = [g.num(0.5, 9) for _ in n.investment_periods]
        n.investment_period_weightings["years"] = [g.num(1, 9) for _ in n.investment_periods]
    for k in range(int(g.r.integers(0, 3))):
        n.add("Carrier", f"car{k}", **({} if g.coin() else dict(co2_emissions=g.num(0, 1), color="#abc")))
    if g.coin(0.4):
        n.add("GlobalConstraint", "gc", constant=g.num(1, 99), sense="<=", carrier_attribute="co2_emissions")
    if g.coin(0.3):
        n.add("ShuntImpedance", "sh", bus=n.buses.index[0], b=g.num(0, 1))
    if g.coin(0.5) and len(n.buses) > 2:
        B = n.buses.index
        n.add("Link", "multi", bus0=B[0], bus1=B[1], bus2=B[2], efficiency2=g.num(0.1, 1), p_nom=g.num(1, 9),
              efficiency=pd.Series([g.num(0.1, 1) for _ in n.snapshots], n.snapshots))
    if g.coin(0.3):
        n.add("LineType", "own type", r_per_length=g.num(0.01, 0.1), x_per_length=0.3, c_per_length=10, i_nom=0.5, f_nom=50)
        if len(n.lines):
            n.lines.iloc[0, n.lines.columns.get_loc("type")] = "own type"
    for c in ASSETS + ["Bus"]:
        st = n.static(c)
        if not len(st):
            continue
        if g.coin(0.3):
            st["custom"] = [g.num(0, 9) for _ in st.index]
        if g.coin(0.3):
            st["note"] = [g.pick(["x", "y z", "q,w"]) for _ in st.index]
        if g.coin(0.2):
            st["whole"] = [int(g.r.integers(5)) for _ in st.index]
    for c, a in (("Generator", "p"), ("Load", "p"), ("Bus", "marginal_price"), ("Generator", "status")):
        st = n.static(c)
        if len(st) and g.coin(0.4):
            n.dynamic(c)[a] = pd.DataFrame({i: [g.num(0, 3) for _ in n.snapshots] for i in st.index}, index=n.snapshots)
    for c in NOM:
        st = n.static(c)
        a = NOM[c] + "_max_pu"
        if len(st) and a in n.dynamic(c) and n.dynamic(c)[a].shape[1] and g.coin(0.3):
            i = n.dynamic(c)[a].columns[0]
            n.dynamic(c)[a][i] = 1.0           # a series that equals the default throughout
            if g.coin():
                st.loc[i, a] = 0.5             # while the static value does not
    q = np.random.default_rng(g.seed + 10**6)
    for c, a in (("Generator", "ramp_limit_up"), ("Link", "ramp_limit_down"), ("StorageUnit", "state_of_charge_set"), ("Store", "e_set")):
        st = n.static(c)
        if len(st) and a in n.dynamic(c) and q.random() < 0.3:      # given in some snapshots only
            v = np.where(q.random(len(n.snapshots)) < 0.6, np.round(q.uniform(0.1, 0.9, len(n.snapshots)), 2), np.nan)
            n.dynamic(c)[a][st.index[int(q.integers(len(st)))]] = v
    return n


def roundtrip(g, C, kind):
    n = rich(g)
    if kind == "csv" and not isinstance(n.snapshots, (pd.DatetimeIndex, pd.MultiIndex)):
        n.set_snapshots(pd.date_range("2021-01-01", periods=len(n.snapshots), freq="h"))
    before = facts(n)
    d = tempfile.mkdtemp(prefix="dvio")
    try:
        p = os.path.join(d, "net" + {"csv": "", "nc": ".nc", "h5": ".h5"}[kind])
        again = g.coin(0.3)
        if again:                       # export over an existing, richer export
            o = rich(g)
            if kind == "csv" and not isinstance(o.snapshots, (pd.DatetimeIndex, pd.MultiIndex)):
                o.set_snapshots(pd.date_range("2021-01-01", periods=len(o.snapshots), freq="h"))
            if kind != "csv":           # stale files of other component classes stay in a CSV folder (documented by warning)
                write(o, p, kind)
        write(n, p, kind)
        same_facts(C, "export leaves the network alone", facts(n), before)
        m = pypsa.Network()
        read(m, p, kind)
        compare(C, f"{kind} round trip", m, n)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def write(n, p, kind):
    if kind == "csv":
        os.makedirs(p, exist_ok=True)
        n.export_to_csv_folder(p)
    elif kind == "nc":
        n.export_to_netcdf(p)
    else:
        n.export_to_hdf5(p)


def read(m, p, kind):
    {"csv": m.import_from_csv_folder, "nc": m.import_from_netcdf, "h5": m.import_from_hdf5}[kind](p)


def compare(C, what, m, n):
    C.same(f"{what}: snapshots", list(m.snapshots), list(n.snapshots))
    C.frame(f"{what}: weightings", pd.DataFrame(m.snapshot_weightings.values, columns=m.snapshot_weightings.columns),
            pd.DataFrame(n.snapshot_weightings[m.snapshot_weightings.columns].values, columns=m.snapshot_weightings.columns))
    C.same(f"{what}: investment periods", list(m.investment_periods), list(n.investment_periods))
    C.close(f"{what}: period weightings", m.investment_period_weightings.values.astype(float), n.investment_period_weightings.values.astype(float))
    C.same(f"{what}: meta", m.meta, n.meta)
    C.same(f"{what}: crs", str(m.crs), str(n.crs))
    C.same(f"{what}: name", m.name, n.name)
    for c in sorted(n.all_components - {"SubNetwork"}):
        attrs = n.components[c]["attrs"]
        a, b = m.static(c), n.static(c)
        C.same(f"{what}: {c} rows", sorted(a.index), sorted(b.index))
        if sorted(a.index) != sorted(b.index) or not len(b):
            continue
        cells(C, f"{what}: {c}", a.loc[b.index], b, attrs)
        for k in sorted({*m.dynamic(c), *n.dynamic(c)}):
            x, y = m.dynamic(c).get(k, pd.DataFrame()), n.dynamic(c).get(k, pd.DataFrame())
            for i in sorted({*x.columns, *y.columns}):
                dflt = attrs.at[k, "default"] if k in attrs.index else np.nan
                s = lambda net, d: (d[i].values.astype(float) if i in d else np.full(len(n.snapshots), float(net.static(c).at[i, k]) if k in net.static(c) else float(dflt)))
                C.close(f"{what}: {c}.{k}[{i}]", s(m, x), s(n, y), 0, 1e-12)


@contract("C17")
def csv_roundtrip(g, C):
    roundtrip(g, C, "csv")


@contract("C17")
def netcdf_roundtrip(g, C):
    roundtrip(g, C, "nc")


@contract("C17")
def hdf5_roundtrip(g, C):
    roundtrip(g, C, "h5")


@contract("C18")
def copy_is_equal_and_independent(g, C):
    n = rich(g)
    f = facts(n)
    m = n.copy()
    same_facts(C, "copy", facts(m), f)
    C.same("copy: labels of the snapshot axis", (m.snapshots.name, list(m.snapshots.names), m.snapshot_weightings.index.name), (n.snapshots.name, list(n.snapshots.names), n.snapshot_weightings.index.name))
    other = {c: m.static(c) for c in m.all_components}
    for c in n.all_components:
        a, b = n.static(c), m.static(c)
        for col in a.columns:
            if a[col].dtype.kind in "fib" and len(a):
                C.ok(f"copy shares no data ({c}.{col})", not np.shares_memory(a[col].values, b[col].values))
        for k, v in n.dynamic(c).items():
            if v.size:
                C.ok(f"copy shares no data ({c}_t.{k})", not np.shares_memory(v.values, m.dynamic(c)[k].values))
    # mutate the copy in every way: nothing reaches the original
    for c in m.all_components:
        st = m.static(c)
        for col in st.columns:
            if len(st) and st[col].dtype.kind == "f":
                st[col] += 1.0
                st.iloc[0, st.columns.get_loc(col)] = -7.0
        for k, v in m.dynamic(c).items():
            if v.size:
                v.iloc[:, :] = -3.0
    m.snapshot_weightings.iloc[0, 0] = 77.0
    m.meta["new"] = 1
    if isinstance(m.meta.get("nested"), dict):
        m.meta["nested"]["k"].append("y")
    if len(m.generators):
        m.remove("Generator", m.generators.index[0])
    m.add("Bus", "added")
    if not isinstance(m.snapshots, pd.MultiIndex):
        m.set_snapshots(m.snapshots[:1])
    same_facts(C, "changing the copy leaves the original alone", facts(n), f)


def attached(n, c, buses):
    st = n.static(c)
    cols = [x for x in st.columns if x == "bus" or (x.startswith("bus") and x[3:].isdigit())]
    return [i for i in st.index if all(st.at[i, x] in buses or (x not in ("bus", "bus0", "bus1") and st.at[i, x] == "") for x in cols)]


def sliced(C, what, m, n, f, sns, buses):
    """m = part of n with the snapshots sns and buses"""
    C.same(f"{what}: snapshots", list(m.snapshots), list(sns))
    C.close(f"{what}: weightings", m.snapshot_weightings.values, n.snapshot_weightings.loc[sns].values)
    C.same(f"{what}: buses", list(m.buses.index), list(buses))
    for c in ASSETS + ["Bus", "ShuntImpedance", "Carrier", "GlobalConstraint", "LineType", "TransformerType"]:
        st = n.static(c)
        if c in ASSETS + ["ShuntImpedance"]:
            want = st.loc[attached(n, c, set(buses))]
        elif c == "Bus":
            want = st.loc[buses]
        else:
            want = st
        C.same(f"{what}: {c} rows", sorted(m.static(c).index), sorted(want.index))
        if len(want) and sorted(m.static(c).index) == sorted(want.index):
            cells(C, f"{what}: {c}", m.static(c).loc[want.index], want, n.components[c]["attrs"])
        for k, v in n.dynamic(c).items():
            cols = [i for i in v.columns if i in want.index]
            if cols:
                got = m.dynamic(c)[k]
                C.same(f"{what}: {c}.{k} series of", sorted(got.columns), sorted(cols))
                C.close(f"{what}: {c}.{k}", got.reindex(columns=cols).values.astype(float), v.loc[sns, cols].values.astype(float), 0, 0)
    same_facts(C, f"{what} leaves the original alone", facts(n), f)


@contract("C18")
def copy_selection(g, C):
    n = rich(g)
    f = facts(n)
    multi = isinstance(n.snapshots, pd.MultiIndex)
    if multi and g.coin():
        k = int(g.r.integers(1, len(n.investment_periods) + 1))
        ps = list(n.investment_periods[:k])
        sns = n.snapshots[n.snapshots.get_level_values(0).isin(ps)]
        m = n.copy(snapshots=sns, investment_periods=ps)
        C.same("copy(investment_periods): periods", list(m.investment_periods), ps)
        C.close("copy(investment_periods): weightings", m.investment_period_weightings.values.astype(float), n.investment_period_weightings.loc[ps].values.astype(float))
    else:
        if multi:
            T = n.snapshots.get_level_values(1).unique()
            keep = T[: int(g.r.integers(1, len(T) + 1))]
            sns = n.snapshots[n.snapshots.get_level_values(1).isin(keep)]
        else:
            sns = n.snapshots[np.sort(g.r.permutation(len(n.snapshots))[: int(g.r.integers(1, len(n.snapshots) + 1))])]
        m = n.copy(snapshots=sns)
        C.same("copy(snapshots): periods", list(m.investment_periods), list(n.investment_periods))
    C.same("copy(snapshots): name, meta, crs", (m.name, m.meta, str(m.crs)), (n.name, n.meta, str(n.crs)))
    sliced(C, "copy(snapshots)", m, n, f, sns, list(n.buses.index))
    for c in ASSETS:
        for k, v in m.dynamic(c).items():
            if v.size:
                v.iloc[:, :] = -5.0
        if len(m.static(c)) and NOM.get(c):
            m.static(c)[NOM[c] + "_nom"] = -1.0
    m.meta["new"] = 1
    if isinstance(m.meta.get("nested"), dict):
        m.meta["nested"]["k"].append("y")
    same_facts(C, "changing the copy leaves the original alone", facts(n), f)


@contract("C18")
def slicing(g, C):
    n = rich(g)
    f = facts(n)
    k = int(g.r.integers(1, len(n.buses) + 1))
    buses = [n.buses.index[j] for j in (g.r.permutation(len(n.buses))[:k] if g.coin() else np.sort(g.r.permutation(len(n.buses))[:k]))]
    mask = g.coin(0.3)
    if mask:
        buses = [b for b in n.buses.index if b in buses]
    key = n.buses.index.isin(buses) if mask else buses
    if g.coin() and not isinstance(n.snapshots, pd.MultiIndex):
        j = int(g.r.integers(1, len(n.snapshots) + 1))
        m, sns = n[slice(None, j) if isinstance(n.snapshots[0], int) and False else n.snapshots.isin(n.snapshots[:j]), key], n.snapshots[:j]
    else:
        m, sns = n[key], n.snapshots
    sliced(C, f"n[{buses}]", m, n, f, sns, buses)
    w = n.investment_period_weightings
    C.frame(f"n[{buses}]: period weightings", m.investment_period_weightings.astype(float), w[w.index.isin(m.investment_periods)].astype(float))
