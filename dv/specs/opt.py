"""
Contracts of the optimisation-model builders (pypsa/optimization/*).

Every contract is written once, against an abstract interface `S`, and
interpreted twice:
  * symbolically (dv.sym.SymS): labels, numbers and variables are z3 terms and
    the contract is the postcondition of the verification conditions;
  * concretely (dv.concrete.CS): on a real network and the real linopy model,
    which is the replay search and the bounded stand-in.

A contract lists constraint families:  (name, axes, domain, lhs - rhs, sign)
meaning: the model contains, under exactly that name, exactly the constraints
whose labels satisfy `domain`, each equivalent to  expr  sign  0.  A family
with empty domain may be absent from the model.
"""
from __future__ import annotations

NOM = {
    "Generator": "p_nom",
    "Line": "s_nom",
    "Transformer": "s_nom",
    "Link": "p_nom",
    "Store": "e_nom",
    "StorageUnit": "p_nom",
}
PASSIVE = ("Line", "Transformer")
DISPATCH = [  # component, dispatch variable
    ("Generator", "p"),
    ("Line", "s"),
    ("Transformer", "s"),
    ("Link", "p"),
    ("Store", "e"),
    ("StorageUnit", "p_dispatch"),
    ("StorageUnit", "p_store"),
    ("StorageUnit", "state_of_charge"),
]


class Con:
    def __init__(self, name, axes, dom, expr, sign, when=True, dims=None, scale=None):
        self.name, self.axes, self.dom, self.expr, self.sign = name, axes, dom, expr, sign
        self.when = when
        self.dims = dims
        self.scale = scale


class VarSpec:
    def __init__(self, name, axes, dom, lower=None, upper=None, kind="continuous", when=True):
        self.name, self.axes, self.dom = name, axes, dom
        self.lower, self.upper, self.kind, self.when = lower, upper, kind, when


# ----------------------------------------------------------------- helpers
def ext(S, c, x):
    return S.stb(c, NOM[c] + "_extendable", x)


def com(S, c, x):
    if c not in ("Generator", "Link"):
        return S.false
    return S.stb(c, "committable", x)


def bounds_pu(S, c, attr, t, x):
    """(min_pu, max_pu) of dispatch variable `attr`."""
    nom = NOM[c]
    mx = nom.replace("nom", "max_pu")
    mn = nom.replace("nom", "min_pu")
    if c in PASSIVE:
        u = S.dense(c, mx, t, x)
        return -u, u
    if c == "StorageUnit":
        if attr == "p_dispatch":
            return S.num(0), S.dense(c, mx, t, x)
        if attr == "p_store":
            return S.num(0), -S.dense(c, mn, t, x)
        return S.num(0), S.st(c, "max_hours", x)
    return S.dense(c, mn, t, x), S.dense(c, mx, t, x)


# ------------------------------------------------------ C02 dispatch limits
def dispatch_fix(S, c, attr):
    T, C = S.T, S.C(c)

    def dom(t, x):
        return S.And(S.Not(ext(S, c, x)), S.Not(com(S, c, x)), S.active(c, t, x))

    def lo(t, x):
        e = S.var(f"{c}-{attr}", t, x) - bounds_pu(S, c, attr, t, x)[0] * S.st(c, NOM[c], x)
        return e - S.var(f"{c}-loss", t, x) if c in PASSIVE and S.losses else e

    def up(t, x):
        e = S.var(f"{c}-{attr}", t, x) - bounds_pu(S, c, attr, t, x)[1] * S.st(c, NOM[c], x)
        return e + S.var(f"{c}-loss", t, x) if c in PASSIVE and S.losses else e

    return [
        Con(f"{c}-fix-{attr}-lower", [T, C], dom, lo, ">="),
        Con(f"{c}-fix-{attr}-upper", [T, C], dom, up, "<="),
    ]


def dispatch_ext(S, c, attr):
    T, C = S.T, S.C(c)

    def dom(t, x):
        return S.And(ext(S, c, x), S.active(c, t, x))

    def cap(x):
        return S.var(f"{c}-{NOM[c]}", x)

    def lo(t, x):
        e = S.var(f"{c}-{attr}", t, x) - bounds_pu(S, c, attr, t, x)[0] * cap(x)
        return e - S.var(f"{c}-loss", t, x) if c in PASSIVE and S.losses else e

    def up(t, x):
        e = S.var(f"{c}-{attr}", t, x) - bounds_pu(S, c, attr, t, x)[1] * cap(x)
        return e + S.var(f"{c}-loss", t, x) if c in PASSIVE and S.losses else e

    return [
        Con(f"{c}-ext-{attr}-lower", [T, C], dom, lo, ">="),
        Con(f"{c}-ext-{attr}-upper", [T, C], dom, up, "<="),
    ]


def nominal_ext(S, c):
    attr = NOM[c]
    C = S.C(c)
    return [
        Con(f"{c}-ext-{attr}-lower", [C], lambda x: ext(S, c, x),
            lambda x: S.var(f"{c}-{attr}", x) - S.st(c, attr + "_min", x), ">="),
        Con(f"{c}-ext-{attr}-upper", [C],
            lambda x: S.And(ext(S, c, x), S.ne(S.st(c, attr + "_max", x), S.inf)),
            lambda x: S.var(f"{c}-{attr}", x) - S.st(c, attr + "_max", x), "<="),
    ]


def nominal_fixed(S, c):
    attr = NOM[c] + "_set"
    if not S.has_static(c, attr):
        return []
    return [Con(f"{c}-{attr}", [S.C(c)], lambda x: S.Not(S.isnull(S.st(c, attr, x))),
                lambda x: S.var(f"{c}-{NOM[c]}", x) - S.st(c, attr, x), "=")]


def modular(S, c):
    attr = NOM[c]
    return [Con(f"{c}-{attr}_modularity", [S.C(c)],
                lambda x: S.And(ext(S, c, x), S.gt(S.st(c, attr + "_mod", x), 0)),
                lambda x: S.var(f"{c}-{attr}", x) - S.st(c, attr + "_mod", x) * S.var(f"{c}-n_mod", x), "=")]


def operation_fixed(S, c, attr):
    name = attr + "_set"
    if not S.has_dynamic(c, name):
        return []
    return [Con(f"{c}-{name}", [S.T, S.C(c)],
                lambda t, x: S.And(S.dyncol(c, name, x), S.active(c, t, x),
                                   S.Not(S.isnull(S.dyn(c, name, t, x)))),
                lambda t, x: S.var(f"{c}-{attr}", t, x) - S.dyn(c, name, t, x), "=")]


# variables -----------------------------------------------------------------
def var_operational(S, c, attr):
    return [VarSpec(f"{c}-{attr}", [S.T, S.C(c)], lambda t, x: S.active(c, t, x))]


def var_loss(S, c):
    return [VarSpec(f"{c}-loss", [S.T, S.C(c)], lambda t, x: S.active(c, t, x), lower=lambda t, x: S.num(0))]


def var_nominal(S, c):
    return [VarSpec(f"{c}-{NOM[c]}", [S.C(c)], lambda x: ext(S, c, x))]


def var_modular(S, c):
    a = NOM[c]
    return [VarSpec(f"{c}-n_mod", [S.C(c)],
                    lambda x: S.And(ext(S, c, x), S.gt(S.st(c, a + "_mod", x), 0)),
                    lower=lambda x: S.num(0), kind="integer")]


def var_uc(S, c, which=("status", "start_up", "shut_down")):
    out = []
    for v in which:
        out.append(VarSpec(f"{c}-{v}", [S.T, S.C(c)],
                           lambda t, x: S.And(com(S, c, x), S.active(c, t, x)),
                           lower=lambda t, x: S.num(0), upper=lambda t, x: S.num(1),
                           kind="continuous" if S.linearized else "binary"))
    return out


def var_spill(S):
    c = "StorageUnit"
    return [VarSpec("StorageUnit-spill", [S.T, S.C(c)],
                    lambda t, x: S.And(S.active(c, t, x), S.gt(S.dense(c, "inflow", t, x), 0)),
                    lower=lambda t, x: S.num(0), upper=lambda t, x: S.dense(c, "inflow", t, x))]


# ------------------------------------------------------ C01 nodal balance
def load_at(S, t, b):
    return S.sum(S.C("Load"), lambda d: S.st("Load", "sign", d) * S.dense("Load", "p_set", t, d),
                 lambda d: S.And(S.stb("Load", "active", d), S.eqlab(S.lab("Load", "bus", d), b)))


def balance_refused(S):
    """a bus carries load but nothing that could supply it: the model must be refused"""
    return S.any(S.T, lambda t: S.any(S.C("Bus"), lambda b: S.And(
        S.Not(S.bus_has_injection(t, b)), S.Not(load_at(S, t, b).eq(S.num(0))))))


def nodal_balance(S, where=None, suffix=""):
    """sum of injections at every bus and snapshot equals the load."""
    T, Bu = S.T, S.C("Bus")

    def lhs(t, b):
        e = S.num(0)
        e += S.sum(S.C("Generator"), lambda g: S.st("Generator", "sign", g) * S.var("Generator-p", t, g),
                   lambda g: S.eqlab(S.lab("Generator", "bus", g), b))
        e += S.sum(S.C("Store"), lambda g: S.st("Store", "sign", g) * S.var("Store-p", t, g),
                   lambda g: S.eqlab(S.lab("Store", "bus", g), b))
        e += S.sum(S.C("StorageUnit"), lambda g: S.st("StorageUnit", "sign", g)
                   * (S.var("StorageUnit-p_dispatch", t, g) - S.var("StorageUnit-p_store", t, g)),
                   lambda g: S.eqlab(S.lab("StorageUnit", "bus", g), b))
        for c in PASSIVE:
            for col, sg in (("bus0", -1), ("bus1", 1)):
                e += S.sum(S.C(c), lambda l, c=c, sg=sg: sg * S.var(f"{c}-s", t, l),
                           lambda l, c=c, col=col: S.eqlab(S.lab(c, col, l), b))
                if S.losses:
                    e += S.sum(S.C(c), lambda l, c=c: S.frac(-1, 2) * S.var(f"{c}-loss", t, l),
                               lambda l, c=c, col=col: S.eqlab(S.lab(c, col, l), b))
        e += S.sum(S.C("Link"), lambda l: -S.var("Link-p", t, l),
                   lambda l: S.eqlab(S.lab("Link", "bus0", l), b))
        for port in S.link_ports:
            eff = "efficiency" if port == "1" else f"efficiency{port}"
            e += S.sum(S.C("Link"), lambda l, eff=eff: S.dense("Link", eff, t, l) * S.var("Link-p", t, l),
                       lambda l, port=port: S.eqlab(S.lab("Link", f"bus{port}", l), b))
        return e

    def dom(t, b):
        return S.And(where(b) if where else S.true, S.bus_has_injection(t, b))

    return [Con(f"Bus{suffix}-nodal_balance", [T, Bu], dom, lambda t, b: lhs(t, b) + load_at(S, t, b), "=")]


# ------------------------------------------------------ C05 storage
def storage_balance(S):
    c = "StorageUnit"

    def expr(t, x):
        h = S.w("stores", t)
        e = -S.var(f"{c}-state_of_charge", t, x)
        e = e - h / S.dense(c, "efficiency_dispatch", t, x) * S.var(f"{c}-p_dispatch", t, x)
        e = e + h * S.dense(c, "efficiency_store", t, x) * S.var(f"{c}-p_store", t, x)
        e = e - h * S.var(f"{c}-spill", t, x)
        e = e + h * S.dense(c, "inflow", t, x)
        stand = S.pow(1 - S.dense(c, "standing_loss", t, x), h)
        return e + prev_level(S, c, "state_of_charge", t, x, stand, "cyclic_state_of_charge",
                              "cyclic_state_of_charge_per_period", "state_of_charge_initial",
                              "state_of_charge_initial_per_period")

    return [Con(f"{c}-energy_balance", [S.T, S.C(c)], lambda t, x: S.active(c, t, x), expr, "=")]


def store_balance(S):
    c = "Store"

    def expr(t, x):
        h = S.w("stores", t)
        e = -S.var(f"{c}-e", t, x) - h * S.var(f"{c}-p", t, x)
        stand = S.pow(1 - S.dense(c, "standing_loss", t, x), h)
        return e + prev_level(S, c, "e", t, x, stand, "e_cyclic", "e_cyclic_per_period",
                              "e_initial", "e_initial_per_period")

    return [Con(f"{c}-energy_balance", [S.T, S.C(c)], lambda t, x: S.active(c, t, x), expr, "=")]


def prev_level(S, c, v, t, x, stand, cyclic, cyclic_pp, init, init_pp):
    """
    standing-loss factor times the level at the previous active snapshot, or the
    initial level.  Cyclic assets wrap to the last active snapshot; in
    multi-period models assets that are cyclic / initialised per period do so
    within every investment period.
    """
    vn = f"{c}-{v}"
    cyc = S.stb(c, cyclic, x)
    first = S.first_active(c, t, x)
    # over the whole horizon
    carried = S.var_prev_active(vn, c, t, x)
    over = S.If(S.And(S.Not(cyc), first), S.st(c, init, x), stand * carried)
    if not S.multi:
        return over
    # per period (activity is constant within a period)
    pp = S.Or(S.stb(c, cyclic_pp, x), S.stb(c, init_pp, x))
    carried_pp = S.var_prev_in_period(vn, t, x)
    within = S.If(S.And(S.Not(cyc), S.first_of_period(t)), S.st(c, init, x), stand * carried_pp)
    return S.If(pp, within, over)


def energy_sums(S):
    c = "Generator"

    def e(g):
        return S.sum(S.T, lambda t: S.w("generators", t) * S.var("Generator-p", t, g))

    return [
        Con("Generator-e_sum_min", [S.C(c)], lambda g: S.gt(S.st(c, "e_sum_min", g), -S.inf),
            lambda g: e(g) - S.st(c, "e_sum_min", g), ">="),
        Con("Generator-e_sum_max", [S.C(c)], lambda g: S.lt(S.st(c, "e_sum_max", g), S.inf),
            lambda g: e(g) - S.st(c, "e_sum_max", g), "<="),
    ]


# ------------------------------------------------------ C06 losses
def losses(S, c):
    out = []
    K = S.losses

    def cap(x):
        return S.If(ext(S, c, x), S.st(c, "s_nom_max", x), S.st(c, "s_nom", x))

    def smax(t, x):
        return S.dense(c, "s_max_pu", t, x) * cap(x)

    def r(x):
        return S.st(c, "r_pu_eff", x)

    act = lambda t, x: S.active(c, t, x)
    out.append(Con(f"{c}-loss_upper", [S.T, S.C(c)], act,
                   lambda t, x: S.var(f"{c}-loss", t, x) - r(x) * smax(t, x) * smax(t, x), "<="))
    for k in S.krange(K):
        for sg in (-1, 1):
            # tangent of  r s^2  at  s0 = -sg * k/K * smax :  loss >= 2 r s0 s - r s0^2
            def expr(t, x, k=k, sg=sg):
                s0 = -sg * S.frac(k, K) * smax(t, x)
                return S.var(f"{c}-loss", t, x) - (2 * r(x) * s0 * S.var(f"{c}-s", t, x) - r(x) * s0 * s0)
            out.append(Con(f"{c}-loss_tangents-{k}-{sg}", [S.T, S.C(c)], act, expr, ">="))
    return out


# ------------------------------------------------------ C03 unit commitment
def unit_commitment(S, c):
    T, C = S.T, S.C(c)
    nom = NOM[c]
    mn, mx = "p_min_pu", "p_max_pu"
    v = lambda name, t, x: S.var(f"{c}-{name}", t, x)
    prev = lambda name, t, x: S.var_prev(f"{c}-{name}", t, x)  # zero at the first snapshot
    act = lambda t, x: S.And(com(S, c, x), S.active(c, t, x))
    later = lambda t, x: S.And(act(t, x), S.Not(S.first(t)))
    lower = lambda t, x: S.dense(c, mn, t, x) * S.st(c, nom, x)
    upper = lambda t, x: S.dense(c, mx, t, x) * S.st(c, nom, x)
    up_before = lambda x: S.up_time_before(c, x)
    down_before = lambda x: S.down_time_before(c, x)
    init_up = lambda x: S.ne(up_before(x), 0)
    init_down = lambda x: S.ne(down_before(x), 0)
    was_up = lambda t, x: S.If(S.And(S.first(t), init_up(x)), S.num(1), S.num(0))
    out = [
        Con(f"{c}-com-p-lower", [T, C], act, lambda t, x: v("p", t, x) - lower(t, x) * v("status", t, x), ">="),
        Con(f"{c}-com-p-upper", [T, C], act, lambda t, x: v("p", t, x) - upper(t, x) * v("status", t, x), "<="),
        # start_up >= status_t - status_{t-1}
        Con(f"{c}-com-transition-start-up", [T, C], act,
            lambda t, x: v("start_up", t, x) - v("status", t, x) + prev("status", t, x) + was_up(t, x), ">="),
        # shut_down >= status_{t-1} - status_t
        Con(f"{c}-com-transition-shut-down", [T, C], act,
            lambda t, x: v("shut_down", t, x) + v("status", t, x) - prev("status", t, x) - was_up(t, x), ">="),
        # min up time: start ups in the last min_up_time snapshots imply status
        Con(f"{c}-com-up-time", [T, C],
            lambda t, x: S.And(later(t, x), S.ne(S.st(c, "min_up_time", x), 0)),
            lambda t, x: S.window_sum(f"{c}-start_up", t, x, S.st(c, "min_up_time", x)) - v("status", t, x), "<="),
        Con(f"{c}-com-down-time", [T, C],
            lambda t, x: S.And(later(t, x), S.ne(S.st(c, "min_down_time", x), 0)),
            lambda t, x: S.window_sum(f"{c}-shut_down", t, x, S.st(c, "min_down_time", x))
            + v("status", t, x) - 1, "<="),
        Con(f"{c}-com-status-min_up_time_must_stay_up", [T, C],
            lambda t, x: S.And(act(t, x), init_up(x),
                               S.le(S.pos(t) + 1, S.st(c, "min_up_time", x) - up_before(x))),
            lambda t, x: v("status", t, x) - 1, "="),
        Con(f"{c}-com-status-min_down_time_must_stay_up", [T, C],
            lambda t, x: S.And(act(t, x), init_down(x),
                               S.le(S.pos(t) + 1, S.st(c, "min_down_time", x) - down_before(x))),
            lambda t, x: v("status", t, x), "="),
    ]
    if S.linearized:
        nomx = lambda x: S.st(c, nom, x)
        rl = lambda a, x: nomx(x) * S.If(S.isnull(S.st(c, a, x)), S.num(1), S.nonnull(S.st(c, a, x)))
        ru = lambda x: rl("ramp_limit_up", x)
        rd = lambda x: rl("ramp_limit_down", x)
        rsu = lambda x: nomx(x) * S.st(c, "ramp_limit_start_up", x)
        rsd = lambda x: nomx(x) * S.st(c, "ramp_limit_shut_down", x)
        ce = lambda t, x: S.And(later(t, x), S.eq(S.st(c, "start_up_cost", x), S.st(c, "shut_down_cost", x)))
        p = lambda t, x: v("p", t, x)
        pp = lambda t, x: prev("p", t, x)
        st, su = (lambda t, x: v("status", t, x)), (lambda t, x: v("start_up", t, x))
        sp = lambda t, x: prev("status", t, x)
        out += [
            Con(f"{c}-com-p-before", [T, C], ce, lambda t, x:
                pp(t, x) - rsd(x) * sp(t, x) - (upper(t, x) - rsd(x)) * (st(t, x) - su(t, x)), "<="),
            Con(f"{c}-com-p-current", [T, C], ce, lambda t, x:
                p(t, x) - upper(t, x) * st(t, x) + (upper(t, x) - rsu(x)) * su(t, x), "<="),
            Con(f"{c}-com-partly-start-up", [T, C], ce, lambda t, x:
                p(t, x) - pp(t, x) - (lower(t, x) + ru(x)) * st(t, x) + lower(t, x) * sp(t, x)
                + (lower(t, x) + ru(x) - rsu(x)) * su(t, x), "<="),
            Con(f"{c}-com-partly-shut-down", [T, C], ce, lambda t, x:
                pp(t, x) - p(t, x) - rsd(x) * sp(t, x) + (rsd(x) - rd(x)) * st(t, x)
                - (lower(t, x) + rd(x) - rsd(x)) * su(t, x), "<="),
        ]
    return out


# ------------------------------------------------------ C04 ramp limits
def ramp_limits(S, c):
    """
    p_t - p_{t-1} within the ramp limits wherever a limit is given (not missing).
    The first optimised snapshot is limited only when it continues an earlier
    horizon, relative to the dispatch already stored in the network.
    """
    T, C = S.T, S.C(c)
    a = "p0" if c == "Link" else "p"
    v = lambda name, t, x: S.var(f"{c}-{name}", t, x)
    prev = lambda name, t, x: S.var_prev(f"{c}-{name}", t, x)
    out = []
    base = lambda t, x: S.And(S.active(c, t, x), S.true if S.rolling else S.Not(S.first(t)))
    start = (lambda t, x: S.If(S.first(t), S.before(c, a, x), S.num(0))) if S.rolling else (lambda t, x: S.num(0))
    for d, sg, sign in (("up", 1, "<="), ("down", -1, ">=")):
        at = f"ramp_limit_{d}"
        lim = lambda t, x, at=at: S.nonnull(S.dense(c, at, t, x))
        given = lambda t, x, at=at: S.Not(S.isnull(S.dense(c, at, t, x)))
        diff = lambda t, x: v("p", t, x) - prev("p", t, x) - start(t, x)
        out.append(Con(f"{c}-fix-{a}-{at}", [T, C],
                       lambda t, x, given=given: S.And(base(t, x), S.Not(ext(S, c, x)), S.Not(com(S, c, x)), given(t, x)),
                       lambda t, x, lim=lim, sg=sg: diff(t, x) - sg * lim(t, x) * S.st(c, "p_nom", x), sign))
        out.append(Con(f"{c}-ext-{a}-{at}", [T, C],
                       lambda t, x, given=given: S.And(base(t, x), ext(S, c, x), given(t, x)),
                       lambda t, x, lim=lim, sg=sg: diff(t, x) - sg * lim(t, x) * S.var(f"{c}-p_nom", x), sign))
        at0 = "ramp_limit_start_up" if d == "up" else "ramp_limit_shut_down"

        def cexpr(t, x, at=at, at0=at0, sg=sg, d=d):
            nom = S.st(c, "p_nom", x)
            l1, l0 = S.nonnull(S.st(c, at, x)) * nom, S.st(c, at0, x) * nom
            sp = prev("status", t, x)
            if S.rolling:
                sp = sp + S.If(S.first(t), S.before(c, "status", x), S.num(0))
            st = v("status", t, x)
            if d == "up":  # running: l1, starting: l0
                return diff(t, x) - l1 * sp - l0 * (st - sp)
            return diff(t, x) + l1 * st + l0 * (sp - st)

        out.append(Con(f"{c}-com-{a}-{at}", [T, C],
                       lambda t, x, at=at: S.And(base(t, x), com(S, c, x), S.Not(S.isnull(S.st(c, at, x)))),
                       cexpr, sign))
    return out


# ------------------------------------------------------ C08 global constraints
def glc_sign(sense):
    return {"==": "=", "<=": "<=", ">=": ">="}[sense]


def in_period(S, period, t):
    return S.true if period is None else S.eq(S.period(t), period)


def final_level(S, vn, c, x, period):
    return S.var_last(vn, c, x, period)


def primary_energy(S, name, glc):
    """weighted primary energy use (emissions) within the limit."""
    per = glc.period
    if per is not None and not S.is_period(per):
        return []
    em = lambda c, x: S.carrier(c, x, glc.carrier_attribute)

    def expr():
        e = S.sum2(S.T, S.C("Generator"),
                   lambda t, g: em("Generator", g) / S.dense("Generator", "efficiency", t, g)
                   * S.w("generators", t, years=True) * S.var("Generator-p", t, g),
                   lambda t, g: S.And(in_period(S, per, t), S.ne(em("Generator", g), 0)))
        for c, v, cyc, ini in (("StorageUnit", "state_of_charge", "cyclic_state_of_charge", "state_of_charge_initial"),
                               ("Store", "e", "e_cyclic", "e_initial")):
            e += S.sum(S.C(c), lambda s, c=c, v=v, ini=ini: em(c, s) * (S.st(c, ini, s) - final_level(S, f"{c}-{v}", c, s, per)),
                       lambda s, c=c, cyc=cyc: S.And(S.ne(em(c, s), 0), S.Not(S.stb(c, cyc, s))))
        return e - glc.constant

    nonempty = S.Or(
        S.any(S.C("Generator"), lambda g: S.ne(em("Generator", g), 0)),
        S.any(S.C("StorageUnit"), lambda s: S.And(S.ne(em("StorageUnit", s), 0), S.Not(S.stb("StorageUnit", "cyclic_state_of_charge", s)))),
        S.any(S.C("Store"), lambda s: S.And(S.ne(em("Store", s), 0), S.Not(S.stb("Store", "e_cyclic", s)))))
    return [Con(f"GlobalConstraint-{name}", [], lambda: S.true, expr, glc_sign(glc.sense), when=nonempty)]


def operational_limit(S, name, glc):
    per = glc.period
    is_c = lambda c, x: S.eqlab(S.lab(c, "carrier", x), S.label(glc.carrier_attribute))

    def expr():
        e = S.sum2(S.T, S.C("Generator"), lambda t, g: S.w("generators", t, years=True) * S.var("Generator-p", t, g),
                   lambda t, g: S.And(in_period(S, per, t), is_c("Generator", g)))
        for c, v, cyc, ini in (("StorageUnit", "state_of_charge", "cyclic_state_of_charge", "state_of_charge_initial"),
                               ("Store", "e", "e_cyclic", "e_initial")):
            e += S.sum(S.C(c), lambda s, c=c, v=v, ini=ini: S.st(c, ini, s) - final_level(S, f"{c}-{v}", c, s, per),
                       lambda s, c=c, cyc=cyc: S.And(is_c(c, s), S.Not(S.stb(c, cyc, s))))
        return e - glc.constant

    nonempty = S.Or(
        S.any(S.C("Generator"), lambda g: is_c("Generator", g)),
        S.any(S.C("StorageUnit"), lambda s: S.And(is_c("StorageUnit", s), S.Not(S.stb("StorageUnit", "cyclic_state_of_charge", s)))),
        S.any(S.C("Store"), lambda s: S.And(is_c("Store", s), S.Not(S.stb("Store", "e_cyclic", s)))))
    return [Con(f"GlobalConstraint-{name}", [], lambda: S.true, expr, glc_sign(glc.sense), when=nonempty)]


def transmission_limit(S, name, glc, cost):
    """line/link volume (length) or cost (capital_cost) expansion limit."""
    per = glc.period
    cars = [c.strip().strip("[]()") for c in glc.carrier_attribute.split(",")]

    def sel(c, x):
        act = S.active_in(c, x, per) if per is not None else (
            S.active_any(c, x) if S.multi_index else S.true)
        return S.And(ext(S, c, x), S.Or(*[S.eqlab(S.lab(c, "carrier", x), S.label(k)) for k in cars]), act)

    def weight(c, x):
        if not cost:
            return S.st(c, "length", x)
        w = S.st(c, "capital_cost", x)
        if per is None and S.multi_index:
            w = w * S.period_sum(lambda q: S.If(S.active_in(c, x, q), S.pw("objective", q), S.num(0)))
        return w

    def expr():
        e = S.num(0)
        for c in ("Line", "Link"):
            e += S.sum(S.C(c), lambda x, c=c: weight(c, x) * S.var(f"{c}-{NOM[c]}", x), lambda x, c=c: sel(c, x))
        return e - glc.constant

    cand = S.Or(*[S.any(S.C(c), lambda x, c=c: sel(c, x)) for c in ("Line", "Link")])
    return [Con(f"GlobalConstraint-{name}", [], lambda: S.true, expr, glc_sign(glc.sense), when=cand)]


def tech_capacity(S, name, glc):
    per = glc.period

    def sel(c, x):
        busc = "bus0" if c in ("Line", "Transformer", "Link") else "bus"
        conds = [ext(S, c, x), S.eqlab(S.lab(c, "carrier", x), S.label(glc.carrier_attribute))]
        if per is not None:
            conds.append(S.active_in(c, x, per))
        if glc.bus is not None:
            conds.append(S.eqlab(S.lab(c, busc, x), S.label(glc.bus)))
        return S.And(*conds)

    comps = [c for c in NOM if S.has_static(c, "carrier")]

    def expr():
        e = S.num(0)
        for c in comps:
            e += S.sum(S.C(c), lambda x, c=c: S.var(f"{c}-{NOM[c]}", x), lambda x, c=c: sel(c, x))
        return e - glc.constant

    cand = S.Or(*[S.any(S.C(c), lambda x, c=c: sel(c, x)) for c in comps])
    return [Con(f"GlobalConstraint-{name}", [], lambda: S.true, expr, glc_sign(glc.sense), when=cand)]


def per_bus_carrier(S, col, sign, carrier, period):
    comps = ("Generator", "Store", "StorageUnit")

    def sel(c, x):
        conds = [ext(S, c, x), S.eqlab(S.lab(c, "carrier", x), S.label(carrier))]
        if period is not None:
            conds.append(S.active_in(c, x, period))
        return S.And(*conds)

    def dom(b):
        return S.Not(S.isnull(S.st("Bus", col, b)))

    def expr(b):
        e = S.num(0)
        for c in comps:
            e += S.sum(S.C(c), lambda x, c=c: S.var(f"{c}-{NOM[c]}", x),
                       lambda x, c=c: S.And(sel(c, x), S.eqlab(S.lab(c, "bus", x), b)))
        return e - S.nonnull(S.st("Bus", col, b))

    cand = S.Or(*[S.any(S.C(c), lambda x, c=c: sel(c, x)) for c in comps])
    return [Con(f"Bus-{col}", [S.C("Bus")], dom, expr, sign, when=cand)]


def growth_limit(S):
    comps = [c for c in NOM if S.has_static(c, "carrier")]

    def sel(c, x, k):
        return S.And(ext(S, c, x), S.eqlab(S.lab(c, "carrier", x), k))

    def new(q, k):
        e = S.num(0)
        for c in comps:
            e += S.sum(S.C(c), lambda x, c=c: S.var(f"{c}-{NOM[c]}", x),
                       lambda x, c=c: S.And(sel(c, x, k), S.first_active_period(c, x, q)))
        return e

    def rel(k):
        r = S.st("Carrier", "max_relative_growth", k)
        return S.If(S.gt(r, 0), r, S.num(0))

    def expr(q, k):
        return new(q, k) - rel(k) * S.prev_period(q, lambda u: new(u, k)) - S.st("Carrier", "max_growth", k)

    def dom(q, k):
        return S.And(S.ne(S.st("Carrier", "max_growth", k), S.inf),
                     S.Or(*[S.any(S.C(c), lambda x, c=c: sel(c, x, k)) for c in comps]))

    return [Con("Carrier-growth_limit", [S.P, S.C("Carrier")], dom, expr, "<=", dims=("periods", "Carrier"))]


# ------------------------------------------------------ C07 objective
MARGINAL = [("marginal_cost", "Generator", "p"), ("marginal_cost", "Link", "p"), ("marginal_cost", "Store", "p"),
            ("marginal_cost", "StorageUnit", "p_dispatch"), ("marginal_cost_storage", "Store", "e"),
            ("marginal_cost_storage", "StorageUnit", "state_of_charge"), ("spill_cost", "StorageUnit", "spill")]
QUADRATIC = [("Generator", "p"), ("Link", "p"), ("Store", "p"), ("StorageUnit", "p_dispatch")]


def cap_weight(S, c, x):
    if S.multi:
        return S.period_sum(lambda q: S.If(S.active_in(c, x, q), S.pw("objective", q), S.num(0)))
    return S.If(S.stb(c, "active", x), S.num(1), S.num(0))


def objective(S):
    """(linear, quadratic) objective; quadratic as sum of coef * var**2."""
    w = lambda t: S.w("objective", t, obj=True)
    e = S.num(0)
    for cost, c, v in MARGINAL:
        e += S.sum2(S.T, S.C(c), lambda t, x, cost=cost, c=c, v=v: w(t) * S.dense(c, cost, t, x) * S.var(f"{c}-{v}", t, x))
    for c in ("Generator", "Link"):
        e += S.sum2(S.T, S.C(c), lambda t, x, c=c: w(t) * S.dense(c, "stand_by_cost", t, x) * S.var(f"{c}-status", t, x),
                    lambda t, x, c=c: com(S, c, x))
        for v in ("start_up", "shut_down"):
            e += S.sum2(S.T, S.C(c), lambda t, x, c=c, v=v: S.st(c, v + "_cost", x) * S.var(f"{c}-{v}", t, x),
                        lambda t, x, c=c: com(S, c, x))
    for c, nom in NOM.items():
        e += S.sum(S.C(c), lambda x, c=c, nom=nom: cap_weight(S, c, x) * S.st(c, "capital_cost", x) * S.var(f"{c}-{nom}", x),
                   lambda x, c=c: ext(S, c, x))
    return e


def objective_constant(S):
    """capital cost of the capacity that already exists."""
    e = S.num(0)
    for c, nom in NOM.items():
        e += S.sum(S.C(c), lambda x, c=c, nom=nom: cap_weight(S, c, x) * S.st(c, "capital_cost", x) * S.st(c, nom, x),
                   lambda x, c=c: ext(S, c, x))
    return e


def objective_quadratic(S):
    w = lambda t: S.w("objective", t, obj=True)
    e = S.num(0)
    for c, v in QUADRATIC:
        e += S.sum2(S.T, S.C(c), lambda t, x, c=c, v=v: w(t) * S.dense(c, "marginal_cost_quadratic", t, x) * S.sqvar(f"{c}-{v}", t, x))
    return e
