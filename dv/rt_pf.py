"""Run-time contracts: power flow, electrical parameters, topology (C12-C15)."""
from __future__ import annotations

import numpy as np
import pandas as pd
import pypsa

from dv.rt import contract

PI = np.pi


def grid(g, dc=False, ac_only=False, single=False, inactive=True, period=False):
    n = pypsa.Network()
    T = int(g.r.integers(1, 4))
    if period:
        n.snapshots = pd.MultiIndex.from_product([[2020, 2030], range(T)], names=["period", "timestep"])
        n.investment_periods = [2020, 2030]
    else:
        n.set_snapshots(pd.date_range("2021-03-01", periods=T, freq="h"))
    nb = int(g.r.integers(2, 8))
    names = [f"n{i}" for i in g.r.permutation(nb)]
    for b in names:
        n.add("Bus", b, v_nom=g.pick([110.0, 380.0]), carrier="AC", v_mag_pu_set=g.pick([1.0, 1.0, 1.02, 0.99]))
    ndc = int(g.r.integers(2, 4)) if dc and g.coin(0.6) else 0
    dcn = [f"dc{i}" for i in range(ndc)]
    for b in dcn:
        n.add("Bus", b, v_nom=320.0, carrier="DC")
    if g.coin(0.3):
        n.add("Bus", "alone", v_nom=110.0)

    def life():
        kw = {}
        if inactive and g.coin(0.12):
            kw["active"] = False
        if period:
            kw["build_year"] = g.pick([0, 2015, 2020, 2025, 2030])
            kw["lifetime"] = g.pick([np.inf, 5, 10, 12, 20])
        return kw

    def branch(nm, b0, b1, extra):
        if g.coin(0.5):
            b0, b1 = b1, b0
        if n.buses.at[b0, "v_nom"] != n.buses.at[b1, "v_nom"]:
            kw = dict(s_nom=g.num(100, 400), x=g.num(0.05, 0.2, 3), r=g.num(0.001, 0.02, 4), g=g.num(0, 0.003, 4), b=-g.num(0, 0.01, 4),
                      tap_ratio=g.pick([1.0, 1.0, 0.97, 1.04]), phase_shift=g.pick([0, 0, 3.0, -5.0, 30.0]),
                      tap_side=g.pick([0, 1]), model=g.pick(["t", "pi"]))
            n.add("Transformer", "T" + nm, bus0=b0, bus1=b1, **kw, **life())
        else:
            v2 = n.buses.at[b0, "v_nom"] ** 2
            n.add("Line", "L" + nm, bus0=b0, bus1=b1, s_nom=300, length=g.num(1, 80),
                  x=round(v2 * g.num(0.0002, 0.0012, 5), 6), r=round(v2 * g.num(0.00002, 0.0003, 6), 6),
                  b=round(g.num(0, 0.02, 4) / v2, 10), g=round(g.num(0, 0.002, 4) / v2, 10), **life())

    for i in range(1, nb):
        if single or g.coin(0.9):
            branch(str(i), names[int(g.r.integers(i))], names[i], False)
    for j in range(int(g.r.integers(0, 5))):
        a, b = [names[k] for k in g.r.permutation(nb)[:2]]
        branch(f"m{j}", a, b, True)
    for j in range(1, ndc):
        n.add("Line", f"D{j}", bus0=dcn[j - 1], bus1=dcn[j], r=g.num(1, 9), x=0.0001, s_nom=200, **life())
    if ndc > 2 and g.coin():
        n.add("Line", "Dm", bus0=dcn[0], bus1=dcn[-1], r=g.num(1, 9), x=0.0001, s_nom=200)
    allb = list(n.buses.index)
    for j in range(int(g.r.integers(0, 3)) + (1 if ndc else 0)):
        a, b = [allb[k] for k in g.r.permutation(len(allb))[:2]]
        if j == 0 and ndc:
            a, b = names[0], dcn[0]
        n.add("Link", f"k{j}", bus0=a, bus1=b, p_nom=100, efficiency=g.pick([1.0, 0.9, 0.97]), p_set=g.num(-20, 20),
              active=not g.coin(0.15))
        if len(allb) > 3 and g.coin(0.4):
            n.add("Link", f"k{j}m", bus0=a, bus1=b, bus2=allb[0], efficiency2=g.num(0.1, 0.4), p_nom=50, efficiency=0.5, p_set=g.num(-10, 10))
    ser = lambda lo, hi: pd.Series([g.num(lo, hi) for _ in n.snapshots], n.snapshots)
    for b in allb:
        for k in range(int(g.pick([0, 1, 1, 2]))):
            n.add("Generator", f"{b} g{k}", bus=b, p_nom=g.pick([0, 50, 80.0]), p_set=ser(0, 30) if g.coin() else g.num(1, 30),
                  q_set=g.num(-4, 4), control=g.pick(["PQ", "PQ", "PV", "Slack"]), carrier="gas")
        if g.coin(0.7):
            n.add("Load", f"{b} d", bus=b, p_set=ser(0, 25) if g.coin() else g.num(0, 25), q_set=ser(-3, 5) if g.coin() else g.num(-3, 5),
                  active=not g.coin(0.1), sign=g.pick([-1, -1, -1, 1]))
        if g.coin(0.2):
            n.add("ShuntImpedance", f"{b} s", bus=b, b=g.num(-0.01, 0.01, 4) / n.buses.at[b, "v_nom"], g=g.num(0, 0.01, 4) / n.buses.at[b, "v_nom"],
                  active=not g.coin(0.2))
        if g.coin(0.2):
            n.add("StorageUnit", f"{b} su", bus=b, p_nom=10, p_set=g.num(-5, 5), q_set=g.num(-1, 1))
        if g.coin(0.15):
            n.add("Store", f"{b} st", bus=b, p_set=g.num(-5, 5), active=not g.coin(0.2))
    # every connected part with passive branches needs a generator
    return n


def passive(n):
    out = []
    for c in ("Line", "Transformer"):
        d = n.static(c)
        for x in d.index:
            out.append((c, x, d.loc[x]))
    return out


def components_of(n, use):
    """partition of the buses by the branches in `use`"""
    par = {b: b for b in n.buses.index}

    def find(a):
        while par[a] != a:
            a = par[a]
        return a

    for c, x, d in use:
        par[find(d.bus0)] = find(d.bus1)
    return {b: find(b) for b in par}


def set_injections(n, now, bus, skip_shunt=True):
    """declared active/reactive set injection at a bus"""
    p = q = 0.0
    for c in ("Generator", "Load", "StorageUnit", "Store"):
        s = n.static(c)
        for x in s.index[(s.bus == bus) & s.active]:
            ps = n.dynamic(c).p_set[x][now] if x in n.dynamic(c).p_set else s.at[x, "p_set"]
            qs = n.dynamic(c).q_set[x][now] if x in n.dynamic(c).q_set else s.at[x, "q_set"]
            p += s.at[x, "sign"] * ps
            q += s.at[x, "sign"] * qs
    for x in n.links.index[n.links.active]:
        L = n.links.loc[x]
        ps = n.links_t.p_set[x][now] if x in n.links_t.p_set else L.p_set
        for col in n.links.columns:
            if col.startswith("bus") and L[col] == bus:
                i = col[3:]
                if i == "0":
                    p -= ps
                else:
                    e = "efficiency" if i == "1" else f"efficiency{i}"
                    p += ps * L[e]
    return p, q


def has_generators(n, use):
    part = components_of(n, use)
    gb = {part[b] for b in n.generators.bus}
    return all(part[b] in gb for b in n.buses.index)


def ensure_generators(n, use):
    part = components_of(n, use)
    gb = {part[b] for b in n.generators.bus}
    for b in n.buses.index:
        if part[b] not in gb:
            n.add("Generator", f"{b} extra", bus=b, p_nom=20, p_set=3.0)
            gb.add(part[b])


@contract("C12", "n.pf")
def pf(g, C):
    n = grid(g)
    use = [t for t in passive(n) if t[2].active]
    ensure_generators(n, use)
    part = components_of(n, use)
    dist = g.coin(0.4)
    kw = {}
    sns = n.snapshots
    if dist:
        w = g.pick(["p_set", "p_nom", "bus", "gen"])
        kw = dict(distribute_slack=True)
        if w in ("bus", "gen"):
            n.determine_network_topology()
            kw["slack_weights"] = {}
            for s in n.sub_networks.index:
                bs = n.buses.index[n.buses.sub_network == s]
                gs = n.generators.index[n.generators.bus.isin(bs)]
                if w == "gen" or len(bs) == 1:
                    kw["slack_weights"][s] = pd.Series({x: g.num(0.1, 3) for x in gs})
                else:
                    kw["slack_weights"][s] = pd.Series({b: g.num(0.1, 3) for b in n.generators.bus[gs].unique()})
        else:
            kw["slack_weights"] = w
            for x in n.generators.index:
                n.generators.loc[x, "p_nom"] = max(n.generators.at[x, "p_nom"], 5.0)
                n.generators.loc[x, "p_set"] = max(n.generators.at[x, "p_set"], 1.0)
            n.generators_t.p_set = n.generators_t.p_set.clip(lower=1.0)
    elif g.coin(0.3) and len(sns) > 1:
        sns = sns[1:]
    tol = g.pick([1e-6, 1e-8, 1e-4])
    info = n.pf(snapshots=sns, x_tol=tol, **kw)
    eps = max(2 * tol, 1e-5)
    C.note = dict(buses=len(n.buses), lines=len(n.lines), transformers=len(n.transformers), distribute=dist, weights=str(kw.get("slack_weights"))[:60])
    shown = {}
    for s in n.sub_networks.index:
        bs = list(n.buses.index[n.buses.sub_network == s])
        C.same("buses of a sub-network are one connected part", {part[b] for b in bs}.__len__(), 1)
        for now in sns:
            if not info.converged.loc[now, s]:
                continue
            V = {b: n.buses_t.v_mag_pu.at[now, b] * np.exp(1j * n.buses_t.v_ang.at[now, b]) for b in bs}
            S = {b: 0j for b in bs}
            for c, x, d in use:
                if d.bus0 not in V:
                    continue
                yse, ysh = 1 / (d.r_pu + 1j * d.x_pu) if "x_pu" in d else None, None
                d = n.static(c).loc[x]
                yse, ysh = 1 / (d.r_pu + 1j * d.x_pu), d.g_pu + 1j * d.b_pu
                t0 = t1 = 1.0
                sh = 1.0
                if c == "Transformer":
                    if d.tap_side == 0:
                        t0 = d.tap_ratio
                    else:
                        t1 = d.tap_ratio
                    sh = np.exp(1j * d.phase_shift * PI / 180)
                v0, v1 = V[d.bus0], V[d.bus1]
                i0 = (yse + ysh / 2) / t0**2 * v0 - yse / (t0 * t1 * np.conj(sh)) * v1
                i1 = (yse + ysh / 2) / t1**2 * v1 - yse / (t0 * t1 * sh) * v0
                s0, s1 = v0 * np.conj(i0), v1 * np.conj(i1)
                D = n.dynamic(c)
                C.close(f"{c} {x} flow at bus0", D.p0.at[now, x] + 1j * D.q0.at[now, x], s0, 1e-7)
                C.close(f"{c} {x} flow at bus1", D.p1.at[now, x] + 1j * D.q1.at[now, x], s1, 1e-7)
                S[d.bus0] += s0
                S[d.bus1] += s1
            for x in n.shunt_impedances.index[n.shunt_impedances.active]:
                d = n.shunt_impedances.loc[x]
                if d.bus in V and len(bs) > 1:
                    vn2 = n.buses.at[d.bus, "v_nom"] ** 2
                    S[d.bus] += abs(V[d.bus]) ** 2 * np.conj((d.g + 1j * d.b) * vn2)
            sub = n.sub_networks.at[s, "obj"]
            slack = n.sub_networks.at[s, "slack_bus"]
            C.ok("slack bus lies in its sub-network", slack in bs)
            pvs, diff = set(sub.pvs), {}
            for b in bs:
                p, q = n.buses_t.p.at[now, b], n.buses_t.q.at[now, b]
                if len(bs) > 1:
                    C.close(f"power balance at {b} ({now})", p + 1j * q, S[b], eps, 1e-7)
                else:
                    C.close(f"power balance at single bus {b}", p + 1j * q, 0, eps)
                ps, qs = set_injections(n, now, b)
                diff[b] = p - ps if len(bs) > 1 else -ps
                if b == slack:
                    C.close("slack angle", n.buses_t.v_ang.at[now, b], 0, 1e-12)
                if (b == slack or b in pvs):
                    C.close(f"voltage set point of {b}", n.buses_t.v_mag_pu.at[now, b], n.buses.at[b, "v_mag_pu_set"], 1e-12)
                elif len(bs) > 1:
                    C.close(f"reactive set point of PQ bus {b}", q, qs, eps)
                if b != slack and not dist:
                    C.close(f"active set point of {b}", p, ps, 1e-9)
            # controls
            gens = n.generators[n.generators.bus.isin(bs)]
            want_pv = set(gens.bus[gens.control == "PV"]) - {slack}
            C.same("PV buses", pvs, want_pv)
            # injections as delivered by the components
            if len(bs) > 1:
                for b in bs:
                    tot = 0.0
                    for c in ("Generator", "Load", "StorageUnit", "Store"):
                        st = n.static(c)
                        for x in st.index[(st.bus == b) & st.active]:
                            tot += st.at[x, "sign"] * n.dynamic(c).p.at[now, x]
                    lk = set_injections(n, now, b)[0] - sum(
                        (n.static(c).at[x, "sign"] * (n.dynamic(c).p_set[x][now] if x in n.dynamic(c).p_set else n.static(c).at[x, "p_set"]))
                        for c in ("Generator", "Load", "StorageUnit", "Store") for x in n.static(c).index[(n.static(c).bus == b) & n.static(c).active])
                    C.close(f"injection at {b} is what its components deliver", n.buses_t.p.at[now, b], tot + lk, eps)
            if dist:
                total = sum(diff.values())
                if isinstance(kw["slack_weights"], dict):
                    sw = kw["slack_weights"][s]
                    wt = {b: sum(v for x, v in sw.items() if (x == b or (x in n.generators.index and n.generators.bus[x] == b))) for b in bs}
                elif kw["slack_weights"] == "p_nom":
                    wt = {b: gens.p_nom[gens.bus == b].sum() for b in bs}
                else:
                    wt = {b: sum((n.generators_t.p_set[x][now] if x in n.generators_t.p_set else gens.p_set[x]) for x in gens.index[gens.bus == b]) for b in bs}
                W = sum(wt.values())
                for b in bs:
                    C.close(f"slack share of {b}", diff[b], total * wt[b] / W, max(eps, 1e-5) * 3)
                for b in bs:
                    at = gens.index[gens.bus == b]
                    if isinstance(kw["slack_weights"], dict):
                        gw = {x: sw[x] for x in at} if set(sw.index) <= set(gens.index) else {x: gens.p_nom[x] for x in at}
                        if not any(gw.values()):
                            gw = {x: 1.0 for x in at}
                    elif kw["slack_weights"] == "p_nom":
                        gw = {x: gens.p_nom[x] for x in at}
                    else:
                        # (weights p_set: by set point)
                        gw = {x: (n.generators_t.p_set[x][now] if x in n.generators_t.p_set else gens.p_set[x]) for x in at}
                    for x in at:
                        ps = n.generators_t.p_set[x][now] if x in n.generators_t.p_set else gens.p_set[x]
                        C.close(f"slack share of generator {x}", n.generators_t.p.at[now, x] - ps, diff[b] * gw[x] / sum(gw.values()), max(eps, 1e-5) * 3)


def dc_flows(n, s, now, inj, use, zero):
    """dense DC solve; returns angles and flows"""
    bs = list(inj)
    k = {b: i for i, b in enumerate(bs)}
    carrier = n.sub_networks.at[s, "carrier"]
    B = np.zeros((len(bs), len(bs)))
    rhs = np.array([inj[b] for b in bs], float)
    rows = []
    for c, x, d in use:
        if d.bus0 not in k:
            continue
        d = n.static(c).loc[x]
        z = d.r_pu_eff if carrier == "DC" else d.x_pu_eff
        sh = d.phase_shift * PI / 180 if c == "Transformer" else 0.0
        i, j = k[d.bus0], k[d.bus1]
        B[i, i] += 1 / z
        B[j, j] += 1 / z
        B[i, j] -= 1 / z
        B[j, i] -= 1 / z
        rhs[i] += sh / z
        rhs[j] -= sh / z
        rows.append((c, x, i, j, z, sh))
    keep = [i for i, b in enumerate(bs) if b != zero]
    th = np.zeros(len(bs))
    if keep:
        th[keep] = np.linalg.solve(B[np.ix_(keep, keep)], rhs[keep])
    return {b: th[k[b]] for b in bs}, {(c, x): (th[i] - th[j] - sh) / z for c, x, i, j, z, sh in rows}


@contract("C13", "n.lpf")
def lpf(g, C):
    n = grid(g, dc=True)
    use = [t for t in passive(n) if t[2].active]
    ensure_generators(n, use)
    sns = n.snapshots if g.coin(0.7) else n.snapshots[-1:]
    n.lpf(sns)
    C.note = dict(buses=len(n.buses), lines=len(n.lines), transformers=len(n.transformers), links=len(n.links))
    for s in n.sub_networks.index:
        bs = list(n.buses.index[n.buses.sub_network == s])
        slack = n.sub_networks.at[s, "slack_bus"]
        dc = n.sub_networks.at[s, "carrier"] == "DC"
        for now in sns:
            inj, tot = {}, 0.0
            for b in bs:
                p, _ = set_injections(n, now, b)
                d = n.shunt_impedances[(n.shunt_impedances.bus == b) & n.shunt_impedances.active]
                p += (d.sign * d.g * n.buses.at[b, "v_nom"] ** 2).sum()
                inj[b] = p
                tot += p
            for b in bs:
                C.close(f"injection at {b}", n.buses_t.p.at[now, b], inj[b] - (tot if b == slack else 0), 1e-7)
            inj[slack] -= tot
            th, fl = dc_flows(n, s, now, inj, use, slack)
            for (c, x), f in fl.items():
                C.close(f"{c} {x} flow", n.dynamic(c).p0.at[now, x], f, 1e-6)
                C.close(f"{c} {x} reverse flow", n.dynamic(c).p1.at[now, x], -f, 1e-6)
            for b in bs:
                C.close(f"angle of {b}", n.buses_t.v_ang.at[now, b], 0.0 if dc else th[b], 1e-8)
                C.close(f"voltage of {b}", n.buses_t.v_mag_pu.at[now, b], 1 + th[b] if dc else 1.0, 1e-8)
            gens = n.generators[n.generators.bus.isin(bs)]
            mv = {x: n.generators_t.p.at[now, x] - (n.generators_t.p_set[x][now] if x in n.generators_t.p_set else gens.p_set[x]) for x in gens.index}
            moved = [x for x in mv if abs(mv[x]) > 1e-9]
            C.ok("only one generator at the slack bus takes up the imbalance", len(moved) <= 1 and all(gens.bus[x] == slack for x in moved), str(moved))
            C.close("the slack generator absorbs the imbalance", sum(mv.values()), -tot, 1e-7)
    for c, x, d in passive(n):
        if not d.active:
            f = n.dynamic(c).p0
            C.close(f"inactive {c} {x} carries nothing", f.loc[sns, x].abs().max() if x in f else 0.0, 0, 1e-12)


@contract("C13", "PTDF and BODF")
def factors(g, C):
    n = grid(g, dc=True, inactive=False)
    use = passive(n)
    n.calculate_dependent_values()
    n.determine_network_topology()
    n.transformers["phase_shift"] = 0.0
    for s in n.sub_networks.index:
        sub = n.sub_networks.at[s, "obj"]
        bs = list(n.buses.index[n.buses.sub_network == s])
        if len(bs) < 2:
            continue
        full = g.coin()
        if full:
            sub.calculate_BODF()
        else:
            sub.calculate_PTDF()
        br = list(sub.branches_i())
        order = list(sub.buses_o)
        C.same("PTDF shape", sub.PTDF.shape, (len(br), len(order)))
        for rep in range(2):
            v = {b: g.num(-10, 10) for b in bs}
            v[bs[-1]] -= sum(v.values())
            _, fl = dc_flows(n, s, None, v, use, order[0])
            C.close("PTDF @ injection", np.asarray(sub.PTDF @ np.array([v[b] for b in order])).ravel(), [fl[b] for b in br], 1e-7)
        if not full:
            continue
        for k, b in enumerate(br):
            rest = [t for t in use if (t[0], t[1]) != b]
            part = components_of(n, rest)
            if len({part[x] for x in bs}) > 1:
                continue
            _, fl2 = dc_flows(n, s, None, v, rest, order[0])
            got = np.array([fl[x] for x in br]) + np.asarray(sub.BODF)[:, k] * fl[b]
            C.close(f"flows after the outage of {b}", got, [fl2.get(x, 0.0) for x in br], 1e-6)


@contract("C13", "n.lpf_contingency")
def contingency(g, C):
    n = grid(g, dc=False, inactive=False, single=True)
    ensure_generators(n, passive(n))
    if not len(passive(n)):
        return
    now = n.snapshots[0]
    outs = []
    for c, x, d in passive(n):
        rest = [t for t in passive(n) if (t[0], t[1]) != (c, x)]
        part = components_of(n, rest)
        full = components_of(n, passive(n))
        if part[d.bus0] == part[d.bus1]:
            outs.append((c, x))
    if not outs:
        return
    n.transformers["phase_shift"] = 0.0
    res = n.lpf_contingency(now, branch_outages=outs)
    for c, x in outs:
        m = n.copy()
        m.static(c).loc[x, "active"] = False
        m.lpf(now)
        for c2, y, d in passive(n):
            got = res[(c, x)] if (c, x) in res else res[res.columns[1 + outs.index((c, x))]]
            C.close(f"flow on {c2} {y} after outage of {c} {x}", got[(c2, y)], 0.0 if (c, x) == (c2, y) else m.dynamic(c2).p0.at[now, y], 1e-5)


@contract("C14", "calculate_dependent_values")
def electrical(g, C):
    n = pypsa.Network()
    nb = int(g.r.integers(2, 5))
    for i in range(nb):
        n.add("Bus", f"b{i}", v_nom=g.pick([20.0, 110.0, 380.0]), carrier=g.pick(["AC", "AC", "DC"]))
    if g.coin(0.4):
        n.add("LineType", "own", f_nom=g.pick([50, 60]), r_per_length=g.num(0.01, 0.3), x_per_length=g.num(0.1, 0.5), c_per_length=g.num(5, 300), i_nom=g.num(0.1, 2))
    if g.coin(0.4):
        n.add("TransformerType", "ownt", s_nom=g.num(10, 90), vsc=g.num(8, 14), vscr=g.num(0.1, 3), pfe=g.num(1, 60), i0=g.num(0.01, 2),
              phase_shift=g.pick([0, 30, 150]), tap_side=g.pick([0, 1]), tap_neutral=g.pick([0, 2]), tap_step=g.num(0.5, 2), tap_min=-9, tap_max=9)
    lt = list(n.line_types.index)
    tt = list(n.transformer_types.index)
    for j in range(int(g.r.integers(1, 6))):
        b = [f"b{k}" for k in g.r.permutation(nb)[:2]]
        n.add("Line", f"l{j}", bus0=b[0], bus1=b[1], type=g.pick(lt + lt[-1:]) if g.coin(0.6) else "", length=g.num(1, 200), num_parallel=g.pick([1, 2, 3, 0.5]),
              x=g.num(0.1, 20), r=g.num(0.01, 5), g=g.num(0, 0.001, 5), b=g.num(0, 0.001, 5), s_nom=g.num(10, 500), carrier=g.pick(["", "AC", "DC"]))
    for j in range(int(g.r.integers(0, 5))):
        b = [f"b{k}" for k in g.r.permutation(nb)[:2]]
        n.add("Transformer", f"t{j}", bus0=b[0], bus1=b[1], type=g.pick(tt + tt[-1:]) if g.coin(0.6) else "", num_parallel=g.pick([1, 2, 3]), tap_position=g.pick([0, 0, -3, 2]),
              x=g.num(0.05, 0.3), r=g.num(0.001, 0.05), g=g.pick([0, g.num(0, 0.01, 4)]), b=g.pick([0, -g.num(0, 0.05, 4)]), s_nom=g.num(20, 500), tap_ratio=g.pick([1.0, 0.95, 1.1]),
              phase_shift=g.pick([0, 10]), tap_side=g.pick([0, 1]), model=g.pick(["t", "pi"]))
    for j in range(int(g.r.integers(0, 3))):
        n.add("ShuntImpedance", f"s{j}", bus=f"b{int(g.r.integers(nb))}", g=g.num(0, 0.01, 4), b=g.num(-0.01, 0.01, 4))
    L0, T0 = n.lines.copy(), n.transformers.copy()
    n.calculate_dependent_values()
    if g.coin(0.3):
        n.calculate_dependent_values()      # idempotent
    C.note = dict(lines=list(L0.type), transformers=list(T0.type))
    for x in L0.index:
        a, d = L0.loc[x], n.lines.loc[x]
        want = dict(r=a.r, x=a.x, b=a.b, g=a.g, s_nom=a.s_nom)
        if a.type:
            t = n.line_types.loc[a.type]
            want.update(r=t.r_per_length * a.length / a.num_parallel, x=t.x_per_length * a.length / a.num_parallel,
                        b=2 * PI * 1e-9 * t.f_nom * t.c_per_length * a.length * a.num_parallel)
        v2 = n.buses.at[a.bus0, "v_nom"] ** 2
        want.update(r_pu=want["r"] / v2, x_pu=want["x"] / v2, b_pu=want["b"] * v2, g_pu=want["g"] * v2)
        want.update(x_pu_eff=want["x_pu"], r_pu_eff=want["r_pu"])
        for k, v in want.items():
            C.close(f"line {x} ({a.type or 'no type'}) {k}", d[k], v, 1e-12, 1e-9)
        C.same(f"carrier of line {x}", d.carrier, a.carrier or n.buses.at[a.bus0, "carrier"])
    for x in T0.index:
        a, d = T0.loc[x], n.transformers.loc[x]
        w = dict(r=a.r, x=a.x, g=a.g, b=a.b, s_nom=a.s_nom, tap_ratio=a.tap_ratio, tap_side=a.tap_side, phase_shift=a.phase_shift)
        if a.type:
            t = n.transformer_types.loc[a.type]
            r = t.vscr / 100
            gg = t.pfe / (1000 * t.s_nom)
            w = dict(r=r / a.num_parallel, x=np.sqrt((t.vsc / 100) ** 2 - r**2) / a.num_parallel, g=gg * a.num_parallel,
                     b=-np.sqrt(max(0, (t.i0 / 100) ** 2 - gg**2)) * a.num_parallel, s_nom=t.s_nom, phase_shift=t.phase_shift, tap_side=t.tap_side,
                     tap_ratio=1 + (a.tap_position - t.tap_neutral) * t.tap_step / 100)
        for k, v in w.items():
            C.close(f"transformer {x} ({a.type or 'no type'}) {k}", d[k], v, 1e-12, 1e-9)
        S = w["s_nom"]
        z, y = (w["r"] + 1j * w["x"]) / S, (w["g"] + 1j * w["b"]) * S
        C.close(f"transformer {x} x_pu_eff", d.x_pu_eff, z.imag * w["tap_ratio"], 1e-12, 1e-9)
        C.close(f"transformer {x} r_pu_eff", d.r_pu_eff, z.real * w["tap_ratio"], 1e-12, 1e-9)
        if a.model == "t" and y != 0:
            # two half impedances with a shunt in the middle, as seen from the terminals
            h = z / 2
            den = h * h + 2 * h / y
            zpi = den * y                      # series element between the terminals
            ypi = 2 * (h / den)                # total shunt, half at each end
            C.close(f"transformer {x} T-model series", d.r_pu + 1j * d.x_pu, zpi, 1e-12, 1e-8)
            C.close(f"transformer {x} T-model shunt", d.g_pu + 1j * d.b_pu, ypi, 1e-12, 1e-8)
        else:
            C.close(f"transformer {x} series", d.r_pu + 1j * d.x_pu, z, 1e-12, 1e-9)
            C.close(f"transformer {x} shunt", d.g_pu + 1j * d.b_pu, y, 1e-12, 1e-9)
    for x in n.shunt_impedances.index:
        d = n.shunt_impedances.loc[x]
        v2 = n.buses.at[d.bus, "v_nom"] ** 2
        C.close(f"shunt {x}", d.g_pu + 1j * d.b_pu, (d.g + 1j * d.b) * v2, 1e-12, 1e-9)


@contract("C15", "determine_network_topology")
def topology(g, C):
    per = g.coin(0.5)
    n = grid(g, dc=True, period=per)
    period = g.pick([2020, 2030]) if per and g.coin(0.8) else None
    act = lambda d: d.active and (period is None or d.build_year <= period < d.build_year + d.lifetime)
    use = [t for t in passive(n) if act(t[2])]
    n.calculate_dependent_values()
    part = components_of(n, use)
    skip = g.coin(0.4)
    n.determine_network_topology(investment_period=period, skip_isolated_buses=skip)
    C.note = dict(period=period, buses=len(n.buses), branches=len(passive(n)), used=len(use))
    groups = {}
    for b in n.buses.index:
        groups.setdefault(n.buses.at[b, "sub_network"], set()).add(b)
    want = {}
    for b in n.buses.index:
        want.setdefault(part[b], set()).add(b)
    C.same("sub-networks are the connected parts", sorted(map(sorted, groups.values())), sorted(map(sorted, want.values())))
    C.same("listed sub-networks", sorted(n.sub_networks.index), sorted(k for k, v in groups.items() if not (skip and len(v) == 1)))
    for s in n.sub_networks.index:
        sub = n.sub_networks.at[s, "obj"]
        bs = groups[s]
        C.same("buses of the sub-network", set(sub.buses_i()), bs)
        C.same("carrier of the sub-network", n.sub_networks.at[s, "carrier"], n.buses.carrier[[b for b in n.buses.index if b in bs][0]])
        br = [k for k in sub.branches_i()]
        mine = [(c, x) for c, x, d in use if d.bus0 in bs]
        C.ok("all active branches belong to the sub-network", set(mine) <= set(br), str(mine))
        lab = {(c, x): d for c, x, d in passive(n)}
        if period is not None:
            C.same("only branches active in the period belong to a sub-network", sorted(k for k in br if lab[k].active), sorted(mine))
        # incidence of the active branches
        on = [k for k in br if lab[k].active]
        if on:
            K = np.asarray(sub.incidence_matrix(busorder=sub.buses_o).todense())
            W = np.zeros((len(bs), len(on)))
            od = list(sub.buses_o)
            for j, k in enumerate(on):
                if lab[k].bus0 in bs and lab[k].bus1 in bs:
                    W[od.index(lab[k].bus0), j] += 1
                    W[od.index(lab[k].bus1), j] -= 1
            C.close("incidence matrix", K, W, 1e-12)
        # cycles
        mat = sub.C.toarray() if sub.C.shape[1] else np.zeros((len(br), 0))
        rank = len(mine) - (len(bs) - 1)
        C.same("number of cycles", mat.shape, (len(br), rank))
        if rank:
            C.same("cycles are independent", int(np.linalg.matrix_rank(mat)), rank)
            for j in range(rank):
                net = {}
                for i, k in enumerate(br):
                    v = mat[i, j]
                    if v:
                        C.ok("cycles use active branches of the sub-network with orientation +1 or -1", k in mine and v in (1, -1), f"{k} {v}")
                        net[lab[k].bus0] = net.get(lab[k].bus0, 0) + v
                        net[lab[k].bus1] = net.get(lab[k].bus1, 0) - v
                C.ok("every cycle is closed", all(v == 0 for v in net.values()), str(net))


@contract("C15", "adjacency_matrix")
def adjacency(g, C):
    per = g.coin(0.5)
    n = grid(g, dc=True, period=per)
    period = g.pick([2020, 2030]) if per and g.coin(0.8) else None
    comps = g.pick([None, ["Line"], ["Transformer", "Line"], ["Line", "Link"], ["Line", "Transformer", "Link"]])
    order = pd.Index([n.buses.index[i] for i in g.r.permutation(len(n.buses))]) if g.coin() else None
    names = ["Line", "Transformer", "Link"] if comps is None else comps
    wts = None
    if g.coin(0.3):
        wts = pd.concat({c: pd.Series([g.num(1, 5) for _ in n.static(c).index], n.static(c).index) for c in ("Line", "Transformer", "Link") if len(n.static(c))})
    A = n.adjacency_matrix(branch_components=comps, investment_period=period, busorder=order, weights=wts).toarray()
    od = list(n.buses.index if order is None else order)
    W = np.zeros((len(od), len(od)))
    for c in names:
        s = n.static(c)
        for x in s.index:
            d = s.loc[x]
            if d.active and (period is None or d.build_year <= period < d.build_year + d.lifetime):
                W[od.index(d.bus0), od.index(d.bus1)] += 1 if wts is None else wts[c][x]
    C.close("adjacency matrix", A, W, 1e-12)
    G = n.graph(branch_components=names, include_inactive=g.coin(0.3))
    C.same("graph nodes", list(G.nodes), list(n.buses.index))
