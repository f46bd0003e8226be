C = "pypsa/optimization/constraints.py"
O = "pypsa/optimization/optimize.py"
G = "pypsa/optimization/global_constraints.py"
D = "pypsa/descriptors.py"
CD = "pypsa/components/descriptors.py"
HEAD = '''
import logging, warnings
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd, pypsa

def row(con, **sel):
    """{variable label: coefficient}, rhs of one constraint row"""
    r = con.isel({d: i for d, i in sel.items()})
    d = {}
    for v, c in zip(np.ravel(r.vars.values), np.ravel(r.coeffs.values)):
        if v != -1:
            d[int(v)] = d.get(int(v), 0) + float(c)
    return {k: v for k, v in d.items() if abs(v) > 1e-12}, float(np.ravel(r.rhs.values)[0])
'''
SEEDS = [
dict(id="c03-rolling-down-clip", property="C03",
  edits=[(C, "down_time_before_set = down_time_before.clip(upper=min_down_time_set)", "down_time_before_set = down_time_before.clip(upper=min_up_time_set)")],
  needs="a later window of a rolling horizon, a unit that went down shortly before it and whose minimum up time is shorter than its minimum down time",
  breaks="the time a unit has already been down is cut off at its minimum up time, so it is kept off longer than declared",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(8))
n.add("Bus", "a")
n.add("Generator", "u", bus="a", p_nom=100, committable=True, min_up_time=1, min_down_time=4, marginal_cost=5, p_min_pu=0.1)
n.add("Generator", "v", bus="a", p_nom=1000, marginal_cost=50)
n.add("Load", "d", bus="a", p_set=50)
n.generators_t.status = pd.DataFrame({"u": [1., 1., 0., 0., 0., 0., 0., 0.]}, index=n.snapshots)
n.generators_t.p = pd.DataFrame({"u": [50., 50., 0., 0., 0., 0., 0., 0.], "v": 0.}, index=n.snapshots)
st = n.optimize(snapshots=n.snapshots[4:])
assert st[0] == "ok"
assert list(n.generators_t.status.u.iloc[4:]) == [0, 0, 1, 1], n.generators_t.status.u
'''),
dict(id="c04-rolling-com-down", property="C04",
  edits=[(C, "rhs.loc[sns[0]] += -limit_shut * status_start", "rhs.loc[sns[0]] += -limit_down * status_start")],
  needs="a committable unit running at the end of the previous window whose shut-down ramp differs from its downward ramp",
  breaks="at the seam of two horizons the shut-down ramp limit is not that of the unit",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(4))
n.add("Bus", "a")
n.add("Generator", "u", bus="a", p_nom=100, committable=True, ramp_limit_down=0.2, ramp_limit_shut_down=0.5, marginal_cost=1)
n.add("Load", "d", bus="a", p_set=[40., 40., 0., 0.])
n.generators_t.status = pd.DataFrame({"u": [1., 1., 0., 0.]}, index=n.snapshots)
n.generators_t.p = pd.DataFrame({"u": [40., 40., 0., 0.]}, index=n.snapshots)
m = n.optimize.create_model(snapshots=n.snapshots[2:])
c = m.constraints["Generator-com-p-ramp_limit_down"]
d, rhs = row(c, **{k: 0 for k in c.labels.dims})
assert abs(rhs - (40 - 50)) < 1e-9, rhs
'''),
dict(id="c06-kvl-tap", property="C06",
  edits=[(C, 'weightings = branches.x_pu_eff if carrier == "AC" else branches.r_pu_eff', 'weightings = branches.x_pu if carrier == "AC" else branches.r_pu_eff')],
  needs="a mesh containing a transformer whose tap ratio is not one",
  breaks="the voltage law ignores the tap ratio of transformers",
  demo=HEAD + '''
n = pypsa.Network()
n.add("Bus", "a", v_nom=110.); n.add("Bus", "b", v_nom=20.)
for i, tap in ((1, 1.0), (2, 0.8)):
    n.add("Transformer", f"t{i}", bus0="a", bus1="b", x=0.1, s_nom=100, tap_ratio=tap)
n.add("Generator", "g", bus="a", p_nom=100, marginal_cost=1)
n.add("Load", "d", bus="b", p_set=90)
st = n.optimize()
assert st[0] == "ok"
f = n.transformers_t.p0.iloc[0]
assert abs(f["t1"] * 1.0 - f["t2"] * 0.8) < 1e-5, f
'''),
dict(id="c05-store-weighting", property="C05",
  edits=[(C, '''    eh = expand_series(n.snapshot_weightings.stores[sns], assets.index)
    # efficiencies
    eff_stand = (1 - get_as_dense(n, c, "standing_loss", sns)).pow(eh)

    e = m''', '''    eh = expand_series(n.snapshot_weightings.stores[sns], assets.index)
    # efficiencies
    eff_stand = (1 - get_as_dense(n, c, "standing_loss", sns)).pow(eh.iloc[0])

    e = m''')],
  needs="a store with standing losses and snapshots whose stores weighting varies",
  breaks="the standing loss of every snapshot uses the hours of the first",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(3))
n.snapshot_weightings.stores = [1., 2., 4.]
n.add("Bus", "a")
n.add("Store", "e", bus="a", e_nom=100, standing_loss=0.1, e_initial=50)
n.add("Generator", "g", bus="a", p_nom=100, marginal_cost=1)
n.add("Load", "d", bus="a", p_set=10)
m = n.optimize.create_model()
c = m.constraints["Store-energy_balance"]
lab = m.variables["Store-e"].labels.values[:, 0]
for t, want in ((1, 0.9 ** 2), (2, 0.9 ** 4)):
    d, _ = row(c, snapshot=t, Store=0)
    assert abs(d[int(lab[t - 1])] - want) < 1e-9, (t, d)
'''),
dict(id="c05-cyclic-inactive", property="C05",
  edits=[(C, '''        soc.where(active)
        .ffill(dim)
        .roll(snapshot=1)
        .ffill(dim)
        .where(include_previous_soc)''', '''        soc.where(active)
        .roll(snapshot=1)
        .ffill(dim)
        .where(include_previous_soc)''')],
  needs="a cyclic storage unit in a multi-period model that retires before the last period",
  breaks="the first level is no longer tied to the level at the last active snapshot",
  demo=HEAD + '''
n = pypsa.Network()
n.snapshots = pd.MultiIndex.from_product([[2020, 2030], range(3)], names=["period", "timestep"])
n.investment_periods = [2020, 2030]
n.add("Bus", "a")
n.add("StorageUnit", "s", bus="a", p_nom=10, max_hours=4, cyclic_state_of_charge=True, cyclic_state_of_charge_per_period=False, build_year=2020, lifetime=5)
n.add("Generator", "g", bus="a", p_nom=100, marginal_cost=1)
n.add("Load", "d", bus="a", p_set=10)
m = n.optimize.create_model(multi_investment_periods=True)
c = m.constraints["StorageUnit-energy_balance"]
lab = m.variables["StorageUnit-state_of_charge"].labels.values[:, 0]
d, _ = row(c, snapshot=0, StorageUnit=0)
assert abs(d.get(int(lab[2]), 0) - 1) < 1e-9, (d, lab)
'''),
dict(id="c07-period-standby", property="C07",
  edits=[(O, '''        weighting = weighting.mul(period_weighting, level=0).loc[sns]
    else:''', '''        weighting = weighting.mul(
            n.investment_period_weightings.years[periods], level=0
        ).loc[sns]
    else:''')],
  needs="investment periods whose objective weighting differs from their number of years",
  breaks="operational cost is weighted by the years instead of the discounting objective weight of a period",
  demo=HEAD + '''
n = pypsa.Network()
n.snapshots = pd.MultiIndex.from_product([[2020, 2030], range(2)], names=["period", "timestep"])
n.investment_periods = [2020, 2030]
n.investment_period_weightings["years"] = [10, 10]
n.investment_period_weightings["objective"] = [8.0, 5.0]
n.add("Bus", "a")
n.add("Generator", "g", bus="a", p_nom=100, marginal_cost=3)
n.add("Load", "d", bus="a", p_set=10)
st = n.optimize(multi_investment_periods=True)
assert abs(n.objective - 3 * 10 * 2 * (8 + 5)) < 1e-5, n.objective
'''),
dict(id="c08-tech-active", property="C08",
  edits=[(G, '''            if period is not None:
                ext_i = ext_i[n.get_active_assets(c, period)[ext_i]]

            if ext_i.empty:
                continue

            bus = "bus0"''', '''            if period is not None:
                ext_i = ext_i[static.build_year[ext_i] <= period]

            if ext_i.empty:
                continue

            bus = "bus0"''')],
  needs="a capacity limit for one investment period and an extendable asset of the carrier retired before it",
  breaks="retired assets count against the capacity limit of a later period",
  demo=HEAD + '''
n = pypsa.Network()
n.snapshots = pd.MultiIndex.from_product([[2020, 2030], range(2)], names=["period", "timestep"])
n.investment_periods = [2020, 2030]
n.add("Bus", "a"); n.add("Carrier", "gas")
n.add("Generator", "old", bus="a", carrier="gas", p_nom_extendable=True, capital_cost=1, build_year=2020, lifetime=5)
n.add("Generator", "new", bus="a", carrier="gas", p_nom_extendable=True, capital_cost=1, build_year=2025, lifetime=50)
n.add("Generator", "x", bus="a", p_nom=1000, marginal_cost=1)
n.add("Load", "d", bus="a", p_set=10)
n.add("GlobalConstraint", "cap", type="tech_capacity_expansion_limit", carrier_attribute="gas", sense="<=", constant=50, investment_period=2030)
m = n.optimize.create_model(multi_investment_periods=True)
r = m.constraints["GlobalConstraint-cap"]
got = {int(v) for v in np.ravel(r.vars.values) if v != -1}
lab = m.variables["Generator-p_nom"].labels.to_series()
assert got == {int(lab["new"])}, (got, lab)
'''),
dict(id="c10-lifetime-end", property="C10",
  edits=[(CD, "build_year <= @period < build_year + lifetime", "build_year <= @period <= build_year + lifetime")],
  needs="an investment period that equals build year plus lifetime of an asset",
  breaks="assets remain active in the period in which their lifetime ends",
  demo=HEAD + '''
n = pypsa.Network()
n.snapshots = pd.MultiIndex.from_product([[2020, 2030], range(2)], names=["period", "timestep"])
n.investment_periods = [2020, 2030]
n.add("Bus", "a")
n.add("Generator", "old", bus="a", p_nom=10, build_year=2020, lifetime=10)
assert not n.get_active_assets("Generator", 2030)["old"]
'''),
dict(id="c11-store-static-min", property="C11",
  edits=[(D, "            max_pu = -get_switchable_as_dense(n, c, min_pu_str, sns)", "            max_pu = -expand_series(n.static(c)[min_pu_str], sns).T")],
  needs="a storage unit whose p_min_pu is a time series",
  breaks="the charging limit ignores the time series and uses the static value",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(3))
n.add("Bus", "a")
n.add("StorageUnit", "s", bus="a", p_nom=10, p_min_pu=pd.Series([-0.2, -0.5, 0.], n.snapshots))
lo, up = pypsa.descriptors.get_bounds_pu(n, "StorageUnit", n.snapshots, attr="p_store")
assert list(up["s"]) == [0.2, 0.5, 0.0], up
'''),
]
