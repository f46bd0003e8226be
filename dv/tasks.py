"""Which functions are verified against which contract, per property."""
from __future__ import annotations

import pandas as realpd

from dv import core
from dv.arr import Lab
from dv.core import AND, IMP, INF, NOT, OR, Num, num, strlab, symbols
from dv.specs import opt as SP
from dv.verify import Task

V = "pypsa.optimization.variables"
K = "pypsa.optimization.constraints"
G = "pypsa.optimization.global_constraints"
O = "pypsa.optimization.optimize"
SINGLE, MULTI = dict(), dict(multi=True)


def T(mod, fn, cfg, args, cons=None, vars=None, **k):
    label = ",".join([str(a) for a in args if a not in ("n", "sns")] + ([k.pop("tag")] if "tag" in k else []))

    def call(f, n, w, S):
        a = [n if x == "n" else w.sns if x == "sns" else S.loss_arg if x == "losses" else x for x in args]
        return f(*a)
    return Task(mod, fn, cfg, call, cons, vars, label=label, **k)


def c02():
    out = []
    for cfg in (SINGLE, MULTI):
        for c, a in SP.DISPATCH:
            out.append(T(K, "define_operational_constraints_for_non_extendables", cfg, ("n", "sns", c, a, 0),
                         lambda S, c=c, a=a: SP.dispatch_fix(S, c, a)))
            out.append(T(K, "define_operational_constraints_for_extendables", cfg, ("n", "sns", c, a, 0),
                         lambda S, c=c, a=a: SP.dispatch_ext(S, c, a)))
            out.append(T(V, "define_operational_variables", cfg, ("n", "sns", c, a), vars=lambda S, c=c, a=a: SP.var_operational(S, c, a)))
        out.append(T(V, "define_operational_variables", cfg, ("n", "sns", "Store", "p"), vars=lambda S: SP.var_operational(S, "Store", "p")))
        out.append(T(V, "define_spillage_variables", cfg, ("n", "sns"), vars=SP.var_spill))
    for c in SP.PASSIVE:
        out += losses_dispatch(c)
    for c, a in SP.DISPATCH:
        for cu in ((), (("dyn", c, a + "_set"),)):
            cfg = dict(custom=cu)
            out.append(T(K, "define_fixed_operation_constraints", cfg, ("n", "sns", c, a), lambda S, c=c, a=a: SP.operation_fixed(S, c, a)))
    for c, a in SP.NOM.items():
        out.append(T(K, "define_nominal_constraints_for_extendables", SINGLE, ("n", c, a), lambda S, c=c: SP.nominal_ext(S, c)))
        out.append(T(K, "define_fixed_nominal_constraints", dict(custom=((c, a + "_set"),)), ("n", c, a), lambda S, c=c: SP.nominal_fixed(S, c), pre=pre_nominal_set(c, a)))
        out.append(T(K, "define_fixed_nominal_constraints", SINGLE, ("n", c, a), lambda S, c=c: SP.nominal_fixed(S, c)))
        out.append(T(K, "define_modular_constraints", SINGLE, ("n", c, a), lambda S, c=c: SP.modular(S, c)))
        out.append(T(V, "define_nominal_variables", SINGLE, ("n", c, a), vars=lambda S, c=c: SP.var_nominal(S, c)))
        out.append(T(V, "define_modular_variables", SINGLE, ("n", c, a), vars=lambda S, c=c: SP.var_modular(S, c)))
    out.append(T(K, "define_total_supply_constraints", SINGLE, ("n", "sns"), SP.energy_sums))
    out.append(T(K, "define_total_supply_constraints", MULTI, ("n", "sns"), SP.energy_sums))
    return out


def c03():
    out = []
    for c in ("Generator", "Link"):
        for cfg in (SINGLE, MULTI, dict(linearized=True), dict(rolling=True)):
            out.append(T(K, "define_operational_constraints_for_committables", cfg, ("n", "sns", c),
                         lambda S, c=c: SP.unit_commitment(S, c), weight=5, pre=pre_stored(c, "p0" if c == "Link" else "p")))
        for cfg in (SINGLE, MULTI, dict(linearized=True)):
            for fn, v in (("status", "status"), ("start_up", "start_up"), ("shut_down", "shut_down")):
                out.append(T(V, f"define_{fn}_variables", cfg, ("n", "sns", c), vars=lambda S, c=c, v=v: SP.var_uc(S, c, (v,))))
    return out


def c04():
    return [T(K, "define_ramp_limit_constraints", cfg, ("n", "sns", c, "p"), lambda S, c=c: SP.ramp_limits(S, c), weight=5,
              pre=pre_both(pre_ramp(c), pre_stored(c, "p0" if c == "Link" else "p")))
            for c in ("Generator", "Link") for cfg in (SINGLE, MULTI, dict(rolling=True))]


BALANCE = ("Generator", "Store", "StorageUnit", "Line", "Transformer", "Link")


def focus_on(classes):
    """explore every decision about `classes`; decisions about other classes only take their first feasible side"""
    def focus(f):
        cs = {c for c in BALANCE if "in." + c in symbols(f)}
        return not cs or len(cs) > 2 or bool(cs & set(classes))
    return focus


def c01():
    return [T(K, "define_nodal_balance_constraints", cfg, ("n", "sns", "losses"), SP.nodal_balance, weight=8, raises={ValueError: SP.balance_refused}, pre=pre_bus_names,
              focus=focus_on((c,)), tag=c)
            for cfg in (SINGLE, MULTI, dict(losses="K"), dict(ports=("1", "2"))) for c in BALANCE]


def c05():
    out = []
    for cfg in (SINGLE, MULTI):
        out.append(T(K, "define_storage_unit_constraints", cfg, ("n", "sns"), SP.storage_balance, weight=6))
        out.append(T(K, "define_store_constraints", cfg, ("n", "sns"), SP.store_balance, weight=6))
    return out


def c06():
    out = []
    for c in SP.PASSIVE:
        for cfg in (dict(losses="K"), dict(losses="K", multi=True)):
            out.append(T(K, "define_loss_constraints", cfg, ("n", "sns", c, "losses"), lambda S, c=c: SP.losses(S, c), pre=pre_losses(c)))
            out.append(T(V, "define_loss_variables", cfg, ("n", "sns", c), vars=lambda S, c=c: SP.var_loss(S, c)))
        out += losses_dispatch(c)
    from dv import kvl
    return out + kvl.tasks()


def losses_dispatch(c):
    """flow plus losses within the rating"""
    out = []
    for cfg in (dict(losses="K"), dict(losses="K", multi=True)):
        out.append(T(K, "define_operational_constraints_for_non_extendables", cfg, ("n", "sns", c, "s", "losses"),
                     lambda S: SP.dispatch_fix(S, c, "s")))
        out.append(T(K, "define_operational_constraints_for_extendables", cfg, ("n", "sns", c, "s", "losses"),
                     lambda S: SP.dispatch_ext(S, c, "s")))
    return out


def pre_nominal_set(c, a):
    """<nom>_set is given for extendable assets only"""
    def pre(S, w, ctx):
        """<nom>_set is given for extendable assets only"""
        ctx.forall(["L"], lambda x: IMP(AND(w.mem(c, x), NOT(S.isnull(S.st(c, a + "_set", x)))), SP.ext(S, c, x)))
    return pre


def pre_ramp(c):
    """committable assets have no time-varying ramp limits"""
    def pre(S, w, ctx):
        """committable assets have no time-varying ramp limits"""
        ctx.forall(["L"], lambda x: IMP(SP.com(S, c, x), AND(NOT(w.dyncol(c, "ramp_limit_up", x)), NOT(w.dyncol(c, "ramp_limit_down", x)))))
    return pre


def pre_bus_names(S, w, ctx):
    """no bus is named '' (the empty string marks an unused port)"""
    ctx.fact(NOT(w.mem("Bus", strlab(""))))


def pre_both(*ps):
    def pre(S, w, ctx):
        for p in ps:
            p(S, w, ctx)
    pre.__doc__ = "; ".join(p.__doc__ for p in ps)
    return pre


def pre_stored(c, a):
    """rolling horizon: the earlier horizon stored the dispatch of all assets and the status of the committable ones"""
    def pre(S, w, ctx):
        """rolling horizon: the earlier horizon stored the dispatch of all assets and the status of the committable ones"""
        if w.rolling:
            ctx.forall(["L"], lambda x: IMP(w.mem(c, x), w.dyncol(c, a, x)))
            ctx.forall(["L"], lambda x: IMP(SP.com(S, c, x), w.dyncol(c, "status", x)))
            v = lambda s, x: w.dynA(c, "status", s, x).t
            ctx.forall(["TA", "L"], lambda s, x: IMP(AND(SP.com(S, c, x), w.snapshots.mem(s)), OR(v(s, x) == 0, v(s, x) == 1)))
    return pre


def pre_losses(c):
    """extendable branches have a finite s_nom_max (the builder raises ValueError otherwise)"""
    def pre(S, w, ctx):
        """extendable branches have a finite s_nom_max (the builder raises ValueError otherwise)"""
        ctx.forall(["L"], lambda x: IMP(AND(w.mem(c, x), SP.ext(S, c, x)), S.st(c, "s_nom_max", x).t != INF))
        ctx.forall(["L"], lambda x: AND(S.st(c, "s_nom_max", x).t != -INF, S.st(c, "s_nom", x).t != INF, S.st(c, "s_nom", x).t != -INF))
    return pre


def c07():
    out = []
    for cfg in (SINGLE, MULTI):
        out += [objective(dict(cfg, only=(c,))) for c in SP.NOM]
        out.append(objective(cfg, lambda f: False))
    return out


def objective(cfg, focus=None):
    """`only`: networks whose assets belong to one class; without: all classes, one decision per fork"""
    def call(f, n, w, S):
        return f(n, w.sns)

    def judge(J, r, n, w, S):
        J.objective(n, S)

    def refused(J, S):
        J.ctx.prove_eq("ValueError only if nothing in the network has costs", num(SP.objective(S) + SP.objective_quadratic(S)), Num(0))
    return Task(O, "define_objective", cfg, call, judge=judge, focus=focus, weight=6, may_raise={ValueError: refused})


D = "pypsa.descriptors"
A = "pypsa.components.abstract"
NOMS = SP.NOM


def subset(n, w, c):
    """some assets of the component, in any order"""
    return w.arbitrary_subset(c)


def c11():
    out = []
    PU = {"Generator": ("p_max_pu", "p_min_pu", "marginal_cost", "p_set", "ramp_limit_up"), "Link": ("efficiency", "p_max_pu", "p_min_pu"),
          "StorageUnit": ("inflow", "p_max_pu", "p_min_pu", "standing_loss", "efficiency_store"), "Store": ("e_max_pu", "e_min_pu", "standing_loss"),
          "Line": ("s_max_pu",), "Transformer": ("s_max_pu",), "Load": ("p_set", "q_set")}
    for cfg in (SINGLE, MULTI):
        for c, attrs in PU.items():
            for a in attrs:
                for sns in (True, False):
                    for sub in (True, False):
                        out.append(F(D, "get_switchable_as_dense", cfg, c, (a,), sns, sub, lambda S, c=c, a=a, tag="T" if sns else "TA": [lambda t, x: S.world.dense(c, a, t, x, tag)],
                                     load=dict(keep=("get_switchable_as_dense",))))
        for c in SP.NOM:
            for a in {"StorageUnit": ("p_dispatch", "p_store", "state_of_charge"), "Store": ("e",), "Line": ("s",), "Transformer": ("s",)}.get(c, ("p",)):
                for sub in (True, False):
                    out.append(F(D, "get_bounds_pu", cfg, c, (a,), True, sub, lambda S, c=c, a=a: [lambda t, x: SP.bounds_pu(S, c, a, t, x)[0], lambda t, x: SP.bounds_pu(S, c, a, t, x)[1]]))
    return out


def c10():
    out = []
    for cfg in (SINGLE, MULTI):
        for c in ("Generator", "Line", "Link", "Store", "StorageUnit", "Transformer", "Load"):
            for sns in (True, False):
                for sub in (True, False):
                    out.append(F(D, "get_activity_mask", cfg, c, (), sns, sub, lambda S, c=c, tag="T" if sns else "TA": [lambda t, x: S.world.active(c, t, x, tag)],
                                 load=dict(keep=("get_activity_mask",))))
    for c in ("Generator", "Line", "Link", "Store", "StorageUnit", "Transformer", "Load", "ShuntImpedance"):
        for which in ("none", "one", "all"):
            out.append(active_assets(c, which))
    return out


def active_assets(c, which):
    """get_active_assets of one component; which: no period, one period, all periods"""
    has = lambda w: w.has_static(c, "build_year") and w.has_static(c, "lifetime")

    def call(f, n, w, S):
        comp = n.component(c)
        if which == "none":
            return f(comp)
        if which == "one":
            S.probe = core.fresh("period", "P")
            return f(comp, Lab(S.probe, "P"))
        return f(comp, w.P)

    def judge(J, r, n, w, S):
        flag = lambda x: w.stf(c, "active")(x)
        if which == "none" or not has(w):
            want = flag
        elif which == "one":
            want = lambda x: w.active_def(c, x, S.probe)
        else:
            want = lambda x: w.active_any(c, x)
        J.series("result", r, w.comp(c), want)

    raises = None
    if which == "one":
        raises = {ValueError: lambda S: AND(S.world.has_static(c, "build_year"), NOT(S.world.inP(S.probe)))}
    return Task("pypsa.components.descriptors", "get_active_assets", dict(multi=True, opaque_activity=False), call, judge=judge, label=f"{c},{which}", raises=raises)


def F(mod, fn, cfg, c, args, sns, sub, spec, load=None):
    """a function returning frames over snapshots and assets"""
    def call(f, n, w, S):
        inds = w.arbitrary_subset(c) if sub else None
        s = w.sns if sns else None
        if fn == "get_switchable_as_dense":
            return inds, f(n, c, args[0], s, inds)
        if fn == "get_activity_mask":
            return inds, f(n, c, s, inds)
        return inds, f(n, c, s, inds, *args)

    def judge(J, out, n, w, S):
        inds, r = out
        r = r if isinstance(r, tuple) else (r,)
        sp = spec(S)
        rows = w.sns if sns else w.snapshots
        cols = inds if sub else w.comp(c)
        for i, (fr, want) in enumerate(zip(r, sp)):
            J.frame(("lower", "upper")[i] if len(sp) > 1 else "result", fr, rows, cols, want, order=not (sub and fn == "get_switchable_as_dense"))
    return Task(mod, fn, cfg, call, judge=judge, label=",".join([c, *args] + (["sns"] if sns else []) + (["subset"] if sub else [])), load=load)


def c14():
    from dv import cols
    return cols.c14()



def c09():
    from dv import post
    return post.tasks()


def c21():
    from dv import roll
    return roll.tasks()


def c24():
    from dv import disc
    return disc.tasks()


TASKS = {"C24": c24, "C21": c21, "C14": c14, "C09": c09, "C10": c10, "C11": c11, "C01": c01, "C02": c02, "C03": c03, "C04": c04, "C05": c05, "C06": c06, "C07": c07}
