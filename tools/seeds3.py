C = "pypsa/optimization/constraints.py"
O = "pypsa/optimization/optimize.py"
A = "pypsa/optimization/abstract.py"
G = "pypsa/optimization/global_constraints.py"
CD = "pypsa/components/descriptors.py"
HEAD = '''
import logging, warnings
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd, pypsa
'''
SEEDS = [
dict(id="c09-link-eff-static", property="C09",
  edits=[(O, 'eff = get_as_dense(n, "Link", f"efficiency{i_eff}", sns)', 'eff = n.links[f"efficiency{i_eff}"]')],
  needs="a link whose efficiency has a time series",
  breaks="delivered power written back uses the static efficiency",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(3))
n.add("Bus", ["a", "b"])
n.add("Generator", "g", bus="a", p_nom=1000, marginal_cost=1)
n.add("Link", "l", bus0="a", bus1="b", p_nom=1000, efficiency=[0.9, 0.5, 0.4])
n.add("Load", "d", bus="b", p_set=90)
assert n.optimize()[0] == "ok"
assert np.allclose(n.links_t.p1["l"], -90), n.links_t.p1
'''),
dict(id="c10-flag-multi", property="C10",
  edits=[(CD, "return pd.DataFrame(active).any(axis=1) & c.static.active", "return pd.DataFrame(active).any(axis=1)")],
  needs="investment periods and an asset within its lifetime that is flagged inactive",
  breaks="the flag is ignored as soon as a period is given",
  demo=HEAD + '''
n = pypsa.Network()
n.set_investment_periods([2020, 2030])
n.add("Bus", "a")
n.add("Generator", ["x", "y"], bus="a", build_year=2020, lifetime=30, active=[True, False])
act = n.get_active_assets("Generator", 2030)
assert list(act) == [True, False], act
'''),
dict(id="c12-tap-lv", property="C12",
  edits=[("pypsa/pf.py", "Y11 = (y_se + 0.5 * y_sh) / tau_lv**2", "Y11 = (y_se + 0.5 * y_sh) / tau_lv")],
  needs="a transformer whose tap changer is on its second side",
  breaks="the admittance seen from that side scales with the wrong power of the tap ratio",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(1))
n.add("Bus", "a", v_nom=110.); n.add("Bus", "b", v_nom=20.)
n.add("Transformer", "t", bus0="a", bus1="b", x=0.1, r=0.01, s_nom=100, tap_ratio=0.9, tap_side=1, model="pi")
n.add("Generator", "g", bus="a", control="Slack")
n.add("Load", "d", bus="b", p_set=20., q_set=5.)
r = n.pf()
assert r.converged.all().all()
v = n.buses_t.v_mag_pu.iloc[0] * np.exp(1j * n.buses_t.v_ang.iloc[0])
y = 1 / ((0.01 + 0.1j) / 100)
i1 = (v["b"] / 0.9 - v["a"]) * y / 0.9
s1 = v["b"] * np.conj(i1)
assert abs(s1 - (-20 - 5j)) < 1e-3, s1
'''),
dict(id="c14-transformer-parallel-g", property="C14",
  edits=[("pypsa/pf.py", '''    for attr in ["b", "g"]:
        t[attr] *= t["num_parallel"]''', '''    for attr in ["b"]:
        t[attr] *= t["num_parallel"]''')],
  needs="a typed transformer with several parallel units",
  breaks="the shunt conductance of parallel transformers is that of a single one",
  demo=HEAD + '''
n = pypsa.Network()
n.add("Bus", "a", v_nom=110.); n.add("Bus", "b", v_nom=20.)
n.add("Transformer", ["s", "p"], bus0="a", bus1="b", type="25 MVA 110/20 kV", num_parallel=[1, 3])
n.calculate_dependent_values()
t = n.transformers
assert np.isclose(t.at["p", "g"], 3 * t.at["s", "g"]), t[["b", "g"]]
'''),
dict(id="c15-cycle-antiparallel", property="C15",
  edits=[("pypsa/pf.py", "                sub_network.C[b_i, c] = sign\n", "                sub_network.C[b_i, c] = -1\n")],
  needs="two parallel branches declared in opposite directions",
  breaks="the cycle of two antiparallel branches is not a closed walk",
  demo=HEAD + '''
n = pypsa.Network()
n.add("Bus", ["a", "b"], v_nom=110.)
n.add("Line", ["l", "m"], bus0=["a", "b"], bus1=["b", "a"], x=0.1, s_nom=10)
n.determine_network_topology()
s = n.sub_networks.obj.iloc[0]
s.find_bus_controls() if hasattr(s, "find_bus_controls") else None
from pypsa.pf import find_cycles, calculate_dependent_values, find_bus_controls
calculate_dependent_values(n); find_bus_controls(s); find_cycles(s)
K = s.incidence_matrix().toarray()
C = s.C.toarray()
assert C.shape[1] == 1 and np.abs(K @ C).max() < 1e-9, (K, C)
'''),
dict(id="c16-remove-partial", property="C16",
  edits=[("pypsa/networks.py", '''        for df in dynamic.values():
            df.drop(df.columns.intersection(names), axis=1, inplace=True)

    @deprecated(
        deprecated_in="0.31",
        removed_in="1.0",
        details="Use `n.add` as a drop-in''', '''        for df in dynamic.values():
            if names.isin(df.columns).all():
                df.drop(names, axis=1, inplace=True)

    @deprecated(
        deprecated_in="0.31",
        removed_in="1.0",
        details="Use `n.add` as a drop-in''')],
  needs="removing several components at once of which only some have a time series",
  breaks="their time series stay behind",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(3))
n.add("Bus", "a")
n.add("Generator", "x", bus="a", p_max_pu=[0.1, 0.2, 0.3])
n.add("Generator", ["y", "z"], bus="a")
n.remove("Generator", ["x", "y"])
assert "x" not in n.generators_t.p_max_pu.columns
'''),
dict(id="c17-partial-nan-series", property="C17",
  edits=[("pypsa/io.py", "(~pd.isnull(dynamic[attr])).any()", "(~pd.isnull(dynamic[attr])).all()")],
  needs="a time series of an attribute without default that is missing in some snapshots",
  breaks="the series is lost on export",
  demo=HEAD + '''
import tempfile, os
n = pypsa.Network(snapshots=range(3))
n.add("Bus", "a")
n.add("Generator", "x", bus="a", p_set=[np.nan, 2., 3.], ramp_limit_up=[0.1, np.nan, 0.3])
with tempfile.TemporaryDirectory() as d:
    n.export_to_netcdf(os.path.join(d, "n.nc"))
    m = pypsa.Network(os.path.join(d, "n.nc"))
for k in ("p_set", "ramp_limit_up"):
    pd.testing.assert_frame_equal(n.generators_t[k], m.generators_t[k], check_names=False)
'''),
dict(id="c20-static-filter", property="C20",
  edits=[("pypsa/clustering/spatial.py", '''                is_static = (dynamic[attr] == static[attr]).all()
                dynamic[attr] = dynamic[attr].loc[:, ~is_static]

    return static, dynamic


''', '''                is_static = (dynamic[attr] == static[attr]).any()
                dynamic[attr] = dynamic[attr].loc[:, ~is_static]

    return static, dynamic


''')],
  needs="an aggregated time series which takes the aggregated static value in some snapshots",
  breaks="its time series is dropped in favour of the static value",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(2))
n.add("Bus", ["a", "b"], v_nom=110., x=[0, 1], y=[0, 1])
n.add("Line", "l", bus0="a", bus1="b", x=0.1, s_nom=10)
n.add("Carrier", "wind")
n.add("Generator", ["g", "h"], bus=["a", "b"], carrier="wind", p_nom=[10., 30.], p_max_pu=np.array([[1., 1.], [0.2, 0.6]]))
n.add("Load", "d", bus="a", p_set=1.)
c = n.cluster.get_clustering_from_busmap(pd.Series({"a": "0", "b": "0"}), aggregate_one_ports={"Generator"}).n if hasattr(n, "cluster") and hasattr(n.cluster, "get_clustering_from_busmap") else None
if c is None:
    from pypsa.clustering.spatial import get_clustering_from_busmap
    c = get_clustering_from_busmap(n, pd.Series({"a": "0", "b": "0"}), aggregate_one_ports={"Generator"}).n
pot = (c.get_switchable_as_dense("Generator", "p_max_pu") * c.generators.p_nom).sum(axis=1)
assert np.allclose(pot, [40., 20.]), pot
'''),
dict(id="c21-window-start", property="C21",
  edits=[(A, "n.stores.e_initial = n.stores_t.e.loc[snapshots[start - 1]]", "n.stores.e_initial = n.stores_t.e.iloc[start - 1]")],
  needs="rolling horizon over requested snapshots that do not begin with the first, with a store",
  breaks="later windows start from the level of another snapshot",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(6))
n.add("Bus", "a")
n.add("Generator", "g", bus="a", p_nom=100, marginal_cost=[1., 1., 1., 9., 9., 9.])
n.add("Store", "s", bus="a", e_nom=50, e_initial=40)
n.add("Load", "d", bus="a", p_set=10)
n.optimize.optimize_with_rolling_horizon(snapshots=n.snapshots[2:], horizon=2, overlap=0)
e, p = n.stores_t.e["s"], n.stores_t.p["s"]
assert np.allclose(e.iloc[4], e.iloc[3] - p.iloc[4], atol=1e-6), (e, p)
'''),
dict(id="c22-affected-classes", property="C22",
  edits=[(A, "product(outages.unique(0), branches_i.unique(0))", "product(outages.unique(0), outages.unique(0))")],
  needs="a mesh of lines and transformers with outages considered for lines only",
  breaks="transformers may be overloaded after the outage of a line",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(1))
n.add("Bus", ["a", "b", "c"], v_nom=110.)
n.add("Line", ["l1", "l2"], bus0="a", bus1="b", x=10., s_nom=500)
n.add("Transformer", ["t1", "t2"], bus0="b", bus1="c", x=0.1, s_nom=100)
n.add("Line", "l3", bus0="a", bus1="c", x=20., s_nom=500)
n.add("Generator", "g", bus="a", p_nom=1000, marginal_cost=1)
n.add("Generator", "h", bus="c", p_nom=1000, marginal_cost=10)
n.add("Load", "d", bus="c", p_set=400)
n.optimize.optimize_security_constrained(branch_outages=["l3"])
n.generators_t.p_set = n.generators_t.p
n.remove("Line", "l3")
n.lpf()
assert (n.transformers_t.p0.abs() <= 100 + 1e-4).all().all(), n.transformers_t.p0
'''),
dict(id="c24-discretize-boundary", property="C24",
  edits=[(A, "if (nom_max - nom_opt) < unit_size:", "if (nom_max - nom_opt) <= unit_size:")],
  needs="a capacity exactly one unit below a maximum which is not a whole number of units",
  breaks="the capacity is rounded down although another unit fits",
  demo=HEAD + '''
from pypsa.optimization.abstract import discretized_capacity
v = discretized_capacity(nom_opt=15., nom_max=25., unit_size=10., threshold=0.3, fractional_last_unit_size=False)
assert v == 20., v
'''),
dict(id="c08-primary-soc-initial", property="C08",
  edits=[(G, "rhs -= em_pu @ sus.state_of_charge_initial", "rhs -= em_pu @ n.storage_units.state_of_charge_initial.iloc[: len(em_pu)].values")],
  needs="an emitting storage unit behind a non-emitting one in the table",
  breaks="the energy initially stored is taken from the wrong unit",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(2))
n.add("Bus", "a")
n.add("Carrier", ["clean", "gas"], co2_emissions=[0., 0.5])
n.add("Generator", "g", bus="a", p_nom=100, carrier="gas", marginal_cost=1)
n.add("StorageUnit", ["s", "t"], bus="a", p_nom=10, max_hours=4, carrier=["clean", "gas"], state_of_charge_initial=[30., 8.])
n.add("Load", "d", bus="a", p_set=1.)
n.add("GlobalConstraint", "co2", sense="<=", constant=100.)
m = n.optimize.create_model()
assert float(m.constraints["GlobalConstraint-co2"].rhs) == 96., m.constraints["GlobalConstraint-co2"]
'''),
dict(id="c02-modular-order", property="C02",
  edits=[(C, 'mod_i = n.static(c).query(f"{attr}_extendable and ({attr}_mod>0)").index\n\n    if (mod_i).empty:\n        return\n\n    modularity = m.variables[f"{c}-n_mod"]\n    modular_capacity = n.static(c)[f"{attr}_mod"].loc[mod_i]', 'mod_i = n.static(c).query(f"{attr}_extendable and ({attr}_mod>0)").index\n\n    if (mod_i).empty:\n        return\n\n    modularity = m.variables[f"{c}-n_mod"]\n    modular_capacity = n.static(c)[f"{attr}_mod"].loc[lambda s: s > 0].iloc[: len(mod_i)]')],
  needs="a fixed asset that declares a module size ahead of a modular extendable one",
  breaks="the extendable asset is built in modules of the other asset's size",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(1))
n.add("Bus", "a")
n.add("Generator", ["f", "e"], bus="a", p_nom=[10., 0.], p_nom_extendable=[False, True], p_nom_mod=[7., 25.], capital_cost=1, marginal_cost=1)
n.add("Load", "d", bus="a", p_set=40.)
assert n.optimize()[0] == "ok"
assert abs(n.generators.p_nom_opt["e"] - 50.) < 1e-6, n.generators.p_nom_opt
'''),
]
