C = "pypsa/optimization/constraints.py"
HEAD = '''
import logging, warnings
warnings.simplefilter("ignore"); logging.disable(logging.CRITICAL)
import numpy as np, pandas as pd, pypsa
'''
SEEDS = [
dict(id="c01-port2-static-efficiency", property="C01",
  edits=[(C, 'eff = get_as_dense(n, "Link", f"efficiency{i}", sns)\n            args', 'eff = n.links[f"efficiency{i}"]\n            args')],
  needs="a link with a third port whose efficiency2 varies over time",
  breaks="the nodal balance uses the static efficiency of additional link ports, ignoring the time series",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(3))
for b in "abc": n.add("Bus", b)
n.add("Generator", "g", bus="a", p_nom=100, marginal_cost=1)
n.add("Link", "l", bus0="a", bus1="b", bus2="c", p_nom=100, efficiency=0.5, efficiency2=pd.Series([0.2, 0.4, 0.1], n.snapshots))
n.add("Load", "d", bus="b", p_set=10)
n.add("Store", "s", bus="c", e_nom=1e4, e_initial=1e3)
m = n.optimize.create_model()
con = m.constraints["Bus-nodal_balance"]
lab = m.variables["Link-p"].labels.sel(Link="l")
for t, want in zip(range(3), [0.2, 0.4, 0.1]):
    r = con.sel(Bus="c", snapshot=t)
    cf = r.coeffs.values[r.vars.values == lab.values[t]]
    assert np.allclose(cf, [want]), (t, cf, want)
'''),
dict(id="c03-uptime-order", property="C03",
  edits=[(C, "until_start_up = n.dynamic(c).status.iloc[:start_i][::-1].reindex(columns=com_i)", "until_start_up = n.dynamic(c).status.iloc[:start_i].reindex(columns=com_i)")],
  needs="a later window of a rolling horizon in which the unit switched on or off before the window",
  breaks="the up and down time before the window is counted from the first snapshot instead of backwards from the window",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(8))
n.add("Bus", "a")
n.add("Generator", "u", bus="a", p_nom=100, committable=True, min_up_time=4, marginal_cost=5, p_min_pu=0.1)
n.add("Generator", "v", bus="a", p_nom=1000, marginal_cost=1)
n.add("Load", "d", bus="a", p_set=50)
n.generators_t.status = pd.DataFrame({"u": [0., 0., 1., 1., 0., 0., 0., 0.]}, index=n.snapshots)
n.generators_t.p = pd.DataFrame({"u": [0., 0., 10., 10., 0., 0., 0., 0.], "v": 40.}, index=n.snapshots)
m = n.optimize.create_model(snapshots=n.snapshots[4:])
c = m.constraints["Generator-com-status-min_up_time_must_stay_up"]
got = (c.labels != -1).sel({"Generator-com": "u"}).values if "Generator-com" in c.labels.dims else (c.labels != -1).isel({[d for d in c.labels.dims if d != "snapshot"][0]: 0}).values
assert list(got) == [True, True, False, False], got
'''),
dict(id="c04-com-ramp-status", property="C04",
  edits=[(C, '''            (-1, p_previous(com_i)),
            (limit_start - limit_up, status_prev),''', '''            (-1, p_previous(com_i)),
            (limit_start - limit_up, status),'''), (C, "            (-limit_start, status),\n", "            (-limit_start, status_prev.where(status_prev.labels != -1, status)),\n")],
  needs="a committable unit with an upward ramp limit that differs from its start-up limit and starts up within the horizon",
  breaks="start-up ramp and running ramp are exchanged between current and previous status",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(3))
n.add("Bus", "a")
n.add("Generator", "u", bus="a", p_nom=100, committable=True, ramp_limit_up=0.2, ramp_limit_start_up=0.5, marginal_cost=1, up_time_before=0)
n.add("Load", "d", bus="a", p_set=[0., 50., 70.])
st = n.optimize(solver_name="highs")
assert st[0] == "ok", st
m = n.model
c = m.constraints["Generator-com-p-ramp_limit_up"]
r = c.sel(snapshot=1).isel({[d for d in c.labels.dims if d != "snapshot"][0]: 0})
s = m.variables["Generator-status"].labels
co = {}
for v, k in zip(r.vars.values.ravel(), r.coeffs.values.ravel()):
    co[int(v)] = co.get(int(v), 0) + k
assert np.isclose(co[int(s.sel(snapshot=1).values.ravel()[0])], -50), co
assert np.isclose(co[int(s.sel(snapshot=0).values.ravel()[0])], 30), co
'''),
dict(id="c06-loss-limit-static", property="C06",
  edits=[(C, 's_max_pu = get_as_dense(n, c, "s_max_pu").loc[sns]\n\n    s_nom_max', 's_max_pu = get_as_dense(n, c, "s_max_pu").loc[sns].max()\n\n    s_nom_max')],
  needs="transmission losses together with a time-varying s_max_pu",
  breaks="the loss tangents and the loss limit use the largest rating over time instead of the rating of the snapshot",
  demo=HEAD + '''
n = pypsa.Network(snapshots=range(2))
n.add("Bus", "a", v_nom=380.); n.add("Bus", "b", v_nom=380.)
n.add("Line", "l", bus0="a", bus1="b", s_nom=100, x=10., r=20., s_max_pu=pd.Series([1., 0.5], n.snapshots))
n.add("Generator", "g", bus="a", p_nom=100, marginal_cost=1); n.add("Load", "d", bus="b", p_set=10)
m = n.optimize.create_model(transmission_losses=2)
r = float(n.lines.r_pu_eff["l"])
up = m.constraints["Line-loss_upper"].rhs.sel(Line="l").values
assert np.allclose(up, [r * 100**2, r * 50**2]), (up, r)
'''),
]
