"""Random small networks (seeded) exercising the features the contracts quantify over."""
from __future__ import annotations

import numpy as np
import pandas as pd
import pypsa


class G:
    def __init__(self, seed, **force):
        self.r = np.random.default_rng(seed)
        self.seed = seed
        self.force = force

    def coin(self, p=0.5): return bool(self.r.random() < p)
    def num(self, lo, hi, nd=2): return round(float(self.r.uniform(lo, hi)), nd)
    def pick(self, xs): return xs[int(self.r.integers(len(xs)))]
    def opt(self, name, p=0.5):
        if name in self.force:
            return self.force[name]
        return self.coin(p)


def make(seed, **force):
    """returns (network, kwargs for create_model)"""
    g = G(seed, **force)
    only = force.get("only")            # restrict the network to one kind of asset, in larger number

    def many(kind, lo, hi):
        if only is None:
            return int(g.r.integers(lo, hi))
        return int(g.r.integers(3, 6)) if kind in only else 0

    multi = g.opt("multi", 0.3)
    n = pypsa.Network()
    nT = int(g.r.integers(3, 6))
    if multi:
        nT = max(2, nT - 2)
        periods = [2020, 2030, 2040][: g.pick([2, 3])]
        n.snapshots = pd.MultiIndex.from_product(
            [periods, pd.date_range("2020-01-01", periods=nT, freq="h")], names=["period", "timestep"])
        n.investment_periods = periods
        n.investment_period_weightings["objective"] = [g.num(0.5, 9) for _ in periods]
        n.investment_period_weightings["years"] = [g.num(1, 12) for _ in periods]
    else:
        periods = []
        n.set_snapshots(pd.date_range("2020-01-01", periods=nT, freq="h"))
    T = n.snapshots
    if g.opt("weights", 0.8):
        for c in ("objective", "stores", "generators"):
            n.snapshot_weightings[c] = [g.num(0.5, 3) for _ in T]
    losses = g.pick([0, 0, 1, 2, 3]) if "losses" not in force else force["losses"]
    linear = g.opt("linearized", 0.4)

    carriers = ["gas", "wind", "oil", "AC", "DC", "H2"]
    for k in carriers:
        n.add("Carrier", k, co2_emissions=g.pick([0, 0.2, 0.35, 0.5]),
              max_growth=g.pick([np.inf, np.inf, 50.0, 80.0]) if multi else np.inf,
              max_relative_growth=g.pick([0, 0, 1.5, 2.0]) if multi else 0)

    nb = int(g.r.integers(2, 6)) if only is None or "branches" in only else int(g.r.integers(1, 4))
    buses = [f"b{i}" for i in g.r.permutation(nb)]
    dc = g.opt("dc", 0.25)
    for i, b in enumerate(buses):
        n.add("Bus", b, v_nom=g.pick([1.0, 20.0, 380.0]), carrier="AC")
    extra = g.opt("extrabus", 0.4)
    if extra:
        n.add("Bus", "hy", carrier="H2")
        if g.coin(0.4):
            n.add("Bus", "lonely", carrier="H2")
    allb = list(n.buses.index[n.buses.index != "lonely"])

    def dyn(c, attr, names, lo, hi, p=0.5):
        """give some components a time series, in an order unlike the static one"""
        sel = [x for x in names if g.coin(p)]
        if not sel:
            return
        sel = [sel[i] for i in g.r.permutation(len(sel))]
        df = pd.DataFrame({x: [g.num(lo, hi) for _ in T] for x in sel}, index=T)
        n.dynamic(c)[attr] = df

    def life(**kw):
        if multi:
            kw["build_year"] = g.pick([0, 2015, 2020, 2025, 2030, 2035])
            kw["lifetime"] = g.pick([np.inf, 5, 10, 12, 20, 30])
        if g.coin(0.15):
            kw["active"] = False
        return kw

    def uc(kw):
        if not kw.get("p_nom_extendable") and g.opt("committable", 0.4):
            kw.update(committable=True, p_min_pu=g.num(0.1, 0.5), min_up_time=g.pick([0, 1, 2, 3]),
                      min_down_time=g.pick([0, 1, 2, 3]), up_time_before=g.pick([0, 1, 2]),
                      start_up_cost=g.pick([0, 10.0, 15.0]), shut_down_cost=g.pick([0, 10.0, 5.0]),
                      stand_by_cost=g.pick([0, 2.5]), ramp_limit_start_up=g.pick([1, 0.4, 0.6]),
                      ramp_limit_shut_down=g.pick([1, 0.5, 0.7]))
            kw["down_time_before"] = g.pick([1, 2]) if kw["up_time_before"] == 0 else 0
        return kw

    def ramp(kw):
        if g.opt("ramp", 0.5):
            if g.coin(0.8):
                kw["ramp_limit_up"] = g.pick([0.3, 0.5, 1.0])
            if g.coin(0.8):
                kw["ramp_limit_down"] = g.pick([0.2, 0.6, 1.0])
        return kw

    def nom(attr, p=0.4):
        kw = {attr: g.num(50, 200), "capital_cost": g.pick([0, g.num(1, 50), g.num(1, 50)])}
        if g.opt("extendable", p):
            kw[attr + "_extendable"] = True
            kw[attr + "_min"] = g.pick([0, g.num(1, 30)])
            kw[attr + "_max"] = g.pick([np.inf, g.num(300, 900), g.num(200, 400)])
            if g.coin(0.35):
                kw[attr + "_mod"] = g.num(5, 40)
            if g.coin(0.2):
                kw[attr + "_opt"] = g.num(50, 200)
        return kw

    # always-on backup at every bus with load
    for b in allb:
        n.add("Generator", f"backup {b}", bus=b, p_nom=5000, marginal_cost=1000 + g.num(0, 5), carrier="oil")
    ng = many("generators", 2, 6)
    gens = [f"g{i}" for i in g.r.permutation(ng)]
    for x in gens:
        kw = life(**nom("p_nom"))
        kw = ramp(uc(kw))
        if g.coin(0.2):
            kw["e_sum_max"] = g.num(200, 900)
        if g.coin(0.2):
            kw["e_sum_min"] = g.num(1, 20)
        n.add("Generator", x, bus=g.pick(allb), carrier=g.pick(["gas", "wind", "oil"]),
              marginal_cost=g.num(0, 60), efficiency=g.num(0.3, 1), sign=g.pick([1, 1, 1, -1, 0.5]),
              marginal_cost_quadratic=g.pick([0, 0, 0, 0.1]) if not linear else 0, **kw)
    plain = [x for x in gens if not n.generators.at[x, "committable"]]
    dyn("Generator", "p_max_pu", gens, 0.6, 1, 0.4)
    dyn("Generator", "p_min_pu", plain, 0, 0.3, 0.3)
    dyn("Generator", "marginal_cost", gens, 1, 50, 0.3)
    dyn("Generator", "efficiency", gens, 0.3, 1, 0.3)
    dyn("Generator", "stand_by_cost", [x for x in gens if x not in plain], 1, 5, 0.4)
    if g.coin(0.3):
        dyn("Generator", "ramp_limit_up", plain, 0.2, 0.9, 0.5)
    if g.coin(0.3):
        dyn("Generator", "ramp_limit_down", plain, 0.2, 0.9, 0.5)
    if g.coin(0.3):
        dyn("Generator", "p_set", [x for x in plain if not n.generators.at[x, "p_nom_extendable"]], 31, 35, 0.6)
        if g.coin(0.5) and not n.generators_t.p_set.empty:
            n.generators_t.p_set.iloc[0, 0] = np.nan

    nl = many("loads", 1, 5) or 1
    for i in g.r.permutation(nl):
        n.add("Load", f"d{i}", bus=g.pick(allb), p_set=g.num(5, 60), sign=g.pick([-1, -1, -1, -0.5, 1]),
              active=not g.coin(0.2))
    dyn("Load", "p_set", list(n.loads.index), 5, 60, 0.6)

    # passive branches on the AC buses (connected, sometimes meshed)
    nlines = 0
    for i in range(1, nb):
        if g.coin(0.85) and (only is None or "branches" in only):
            kw = life(**nom("s_nom", 0.3))
            if losses:
                kw["s_nom_max"] = g.num(300, 900)
            b0, b1 = buses[int(g.r.integers(i))], buses[i]
            if g.coin(0.5):
                b0, b1 = b1, b0
            if n.buses.at[b0, "v_nom"] != n.buses.at[b1, "v_nom"] and g.coin(0.7):
                n.add("Transformer", f"t{i}", bus0=b0, bus1=b1, x=g.num(0.05, 0.3), r=g.num(0.005, 0.05),
                      tap_ratio=g.pick([1, 0.95, 1.05]), **kw)
            else:
                n.add("Line", f"l{9 - i}", bus0=b0, bus1=b1, x=g.num(0.1, 0.9), r=g.num(0.01, 0.2), length=g.num(1, 99),
                      carrier="AC", **kw)
    for j in range(many("branches", 0, 4)):
        if nb < 2:
            break
        b0, b1 = [buses[k] for k in g.r.permutation(nb)[:2]]
        kw = life(**nom("s_nom", 0.3))
        if losses:
            kw["s_nom_max"] = g.num(300, 900)
        if g.coin(0.25):
            n.add("Transformer", f"tm{j}", bus0=b0, bus1=b1, x=g.num(0.05, 0.3), r=g.num(0.005, 0.05), **kw)
        else:
            n.add("Line", f"m{j}", bus0=b0, bus1=b1, x=g.num(0.1, 0.9), r=g.num(0.01, 0.2), length=g.num(1, 99),
                  carrier=g.pick(["AC", "AC", "DC"]), **kw)
    if len(n.lines):
        dyn("Line", "s_max_pu", list(n.lines.index), 0.5, 1, 0.4)
    if len(n.transformers):
        dyn("Transformer", "s_max_pu", list(n.transformers.index), 0.5, 1, 0.4)

    # links
    nk = many("links", 0, 4)
    mp = g.opt("multiport", 0.5)
    for i in g.r.permutation(nk):
        b = [allb[k] for k in g.r.permutation(len(allb))]
        kw = life(**nom("p_nom"))
        kw = ramp(uc(kw))
        if not kw.get("committable"):
            kw["p_min_pu"] = g.pick([0, 0, -1, -0.4])
        if mp and len(b) > 2 and g.coin(0.7):
            kw.update(bus2=b[2], efficiency2=g.num(-0.5, 0.6))
            if len(b) > 3 and g.coin(0.5):
                kw.update(bus3=b[3], efficiency3=g.num(0.1, 0.6))
        elif mp and g.coin(0.3):
            kw.update(bus2=b[0], efficiency2=g.num(0.1, 0.3))
        n.add("Link", f"k{i}", bus0=b[0], bus1=b[1 % len(b)], efficiency=g.num(0.5, 1), marginal_cost=g.pick([0, g.num(0, 9)]),
              length=g.num(1, 500), carrier=g.pick(["DC", "H2", "AC"]), **kw)
    if nk:
        dyn("Link", "efficiency", list(n.links.index), 0.4, 1, 0.4)
        if "efficiency2" in n.links:
            dyn("Link", "efficiency2", list(n.links.index), 0.1, 0.5, 0.4)
        dyn("Link", "p_max_pu", list(n.links.index), 0.6, 1, 0.3)
        if g.coin(0.25):
            dyn("Link", "p_set", [x for x in n.links.index if not n.links.at[x, "committable"]], 21, 29, 0.4)

    # storage
    for i in g.r.permutation(many("storage", 0, 4)):
        kw = life(**nom("p_nom"))
        n.add("StorageUnit", f"s{i}", bus=g.pick(allb), carrier=g.pick(["gas", "H2", "wind"]), max_hours=g.num(1, 8),
              efficiency_store=g.num(0.6, 1), efficiency_dispatch=g.num(0.6, 1), standing_loss=g.pick([0, 0.01, 0.1]),
              cyclic_state_of_charge=g.coin(), state_of_charge_initial=g.pick([0, g.num(1, 40)]),
              cyclic_state_of_charge_per_period=g.coin(), state_of_charge_initial_per_period=g.coin(),
              inflow=g.pick([0, 0, g.num(1, 9)]), marginal_cost=g.pick([0, g.num(0, 5)]),
              marginal_cost_storage=g.pick([0, g.num(0, 1)]), sign=g.pick([1, 1, 1, 0.8]),
              p_min_pu=g.pick([-1, -0.5, 0]), **kw)
    if len(n.storage_units):
        su = list(n.storage_units.index)
        dyn("StorageUnit", "inflow", su, 0, 9, 0.5)
        if "inflow" in n.storage_units_t and not n.storage_units_t.inflow.empty:
            n.storage_units_t.inflow.iloc[0, 0] = 0.0
            n.storage_units["spill_cost"] = [g.pick([0, g.num(0, 3)]) for _ in su]
        if g.coin(0.6):
            dyn("StorageUnit", "standing_loss", su, 0, 0.2, 0.3)
            dyn("StorageUnit", "efficiency_store", su, 0.6, 1, 0.3)
            dyn("StorageUnit", "efficiency_dispatch", su, 0.6, 1, 0.3)
            dyn("StorageUnit", "p_max_pu", su, 0.5, 1, 0.3)
            dyn("StorageUnit", "p_min_pu", su, -1, -0.5, 0.3)
        if g.coin(0.25):
            df = pd.DataFrame(np.nan, T, [su[-1]])
            df.iloc[-1, 0] = 10.0
            n.storage_units_t["state_of_charge_set"] = df
    for i in g.r.permutation(many("storage", 0, 4)):
        kw = life(**nom("e_nom"))
        n.add("Store", f"e{i}", bus=g.pick(allb), carrier=g.pick(["gas", "H2"]), standing_loss=g.pick([0, 0.02, 0.1]),
              e_cyclic=g.coin(), e_initial=g.pick([0, g.num(1, 40)]), e_cyclic_per_period=g.coin(), e_initial_per_period=g.coin(),
              marginal_cost=g.pick([0, g.num(0, 5)]), marginal_cost_storage=g.pick([0, g.num(0, 1)]),
              e_min_pu=g.pick([0, 0, -0.3]), sign=g.pick([1, 1, 0.9]), **kw)
    if len(n.stores):
        st = list(n.stores.index)
        if g.coin(0.6):
            dyn("Store", "standing_loss", st, 0, 0.2, 0.3)
            dyn("Store", "e_max_pu", st, 0.5, 1, 0.4)
            dyn("Store", "e_min_pu", st, 0, 0.3, 0.3)
        if g.coin(0.3):
            n.stores_t["e_set"] = pd.DataFrame({st[0]: [np.nan] * (len(T) - 1) + [5.0]}, index=T)

    # nominal set values
    for c, a in (("Generator", "p_nom"), ("Link", "p_nom"), ("Store", "e_nom"), ("StorageUnit", "p_nom"), ("Line", "s_nom")):
        s = n.static(c)
        if len(s) and g.coin(0.15) and s[a + "_extendable"].any():
            s[a + "_set"] = np.nan
            s.loc[s.index[s[a + "_extendable"]][-1], a + "_set"] = g.num(60, 90)

    # module sizes of assets which are not extendable have no effect
    q = np.random.default_rng(seed + 10**6)
    for c, a in (("Generator", "p_nom"), ("Link", "p_nom"), ("Store", "e_nom"), ("StorageUnit", "p_nom"), ("Line", "s_nom"), ("Transformer", "s_nom")):
        s = n.static(c)
        if len(s) and q.random() < 0.4 and a + "_mod" in s:
            s[a + "_mod"] = s[a + "_mod"].where(s[a + "_extendable"] | (q.random(len(s)) < 0.4), np.round(q.uniform(3, 30, len(s)), 1))

    # global constraints
    if g.opt("glc", 0.5):
        per = lambda: g.pick([np.nan] + [float(p) for p in periods])
        sense = lambda: g.pick(["<=", "<=", "==", ">="])
        k = 0
        for ty, ca in (("primary_energy", "co2_emissions"), ("operational_limit", g.pick(["gas", "wind", "H2"])),
                       ("transmission_volume_expansion_limit", g.pick(["AC", "AC, DC", "[DC, AC]"])),
                       ("transmission_expansion_cost_limit", g.pick(["AC", "DC,H2", "AC, DC"])),
                       ("tech_capacity_expansion_limit", g.pick(["gas", "wind", "AC", "H2"]))):
            for rep in range(g.pick([0, 1, 1, 2])):
                kw = {}
                n.add("GlobalConstraint", f"{ty[:8]} {'x' * k}q", type=ty, carrier_attribute=ca, sense=sense(),
                      constant=g.num(100, 5000), investment_period=per(), **kw)
                k += 1
        if g.coin(0.5):
            car = g.pick(["gas", "wind", "H2"])
            col = g.pick([f"nom_max_{car}", f"nom_min_{car}"])
            if periods and g.coin(0.5):
                col += f"_{g.pick(periods)}"
            n.buses[col] = [g.pick([np.nan, g.num(100, 900)]) for _ in n.buses.index]

    sns = n.snapshots
    if not multi and g.opt("subset", 0.25):
        a = g.pick([0, 1, 1, 2])
        sns = n.snapshots[a: max(a + 1, len(T) - g.pick([0, 0, 1]))]
    # stored results of earlier horizons
    if len(sns) and sns[0] != n.snapshots[0]:
        for c, a in (("Generator", "p"), ("Link", "p0")):
            names = n.static(c).index
            if len(names):
                n.dynamic(c)[a] = pd.DataFrame({x: [g.num(0, 50) for _ in T] for x in names}, index=T)
                stt = {x: [float(g.coin()) for _ in T] for x in names}
                n.dynamic(c)["status"] = pd.DataFrame(stt, index=T)
    if g.coin(0.3):
        n.lines_t  # noqa
    kw = dict(multi_investment_periods=multi, transmission_losses=losses, linearized_unit_commitment=linear)
    if g.opt("meshed", 0.2):
        kw["meshed_threshold"] = g.pick([1, 2, 3])
    return n, sns, kw


def build(seed, **force):
    n, sns, kw = make(seed, **force)
    thr = kw.pop("meshed_threshold", None)
    import pypsa.optimization.optimize as O
    from dv.concrete import CS
    if thr is not None and not hasattr(O, "get_strongly_meshed_buses"):
        thr = None
    if thr is not None:
        orig = O.get_strongly_meshed_buses
        O.get_strongly_meshed_buses = lambda n, threshold=45: orig(n, threshold=thr)
    try:
        m = O.create_model(n, sns, consistency_check=False, **kw)
    finally:
        if thr is not None:
            O.get_strongly_meshed_buses = orig
    S = CS(n, sns, m, losses=kw["transmission_losses"], linearized=kw["linearized_unit_commitment"],
           multi=kw["multi_investment_periods"])
    S.thr = thr
    return n, sns, kw, m, S
