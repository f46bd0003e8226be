"""
Concrete interpretation of the contracts: a real pypsa.Network, the real linopy
model built by /repo's code, and exact comparison of every constraint, variable
and objective term with what the contract demands.

Used (a) to replay a refuted obligation on the real code, (b) as the bounded
stand-in for functions outside the verifier's reach, (c) to cross-check the
verifier's model of pandas/xarray/linopy against the real libraries.
"""
from __future__ import annotations

import logging
import math
import warnings

warnings.filterwarnings("ignore")
import numpy as np
import pandas as pd

logging.disable(logging.CRITICAL)
import pypsa  # noqa: E402

from dv.specs import opt as SP  # noqa: E402

INF = float("inf")


class Lin:
    """affine expression over variable labels"""

    __slots__ = ("d", "c")

    def __init__(self, d=None, c=0.0):
        self.d, self.c = d or {}, c

    def __add__(a, b):
        if isinstance(b, Lin):
            d = dict(a.d)
            for k, v in b.d.items():
                d[k] = d.get(k, 0.0) + v
            return Lin(d, a.c + b.c)
        return Lin(a.d, a.c + float(b))

    __radd__ = __add__

    def __neg__(a):
        return a * -1.0

    def __sub__(a, b):
        return a + (-b if isinstance(b, Lin) else -float(b))

    def __rsub__(a, b):
        return (-a) + b

    def __mul__(a, b):
        if isinstance(b, Lin):
            if not b.d:
                b = b.c
            elif not a.d:
                return b * a.c
            else:
                raise TypeError("nonlinear")
        b = float(b)
        return Lin({k: v * b for k, v in a.d.items()}, a.c * b)

    __rmul__ = __mul__

    def __truediv__(a, b):
        return a * (1.0 / float(b))

    def clean(self, tol=1e-9):
        return {k: v for k, v in self.d.items() if not abs(v) <= tol}


class CS:
    """Concrete `S` (see specs/opt.py)."""

    true, false, inf = True, False, INF

    def __init__(self, n, sns, model, losses=0, linearized=False, multi=False):
        self.n, self.sns, self.m = n, sns, model
        self.losses, self.linearized, self.multi = losses, linearized, multi
        self.T = list(range(len(sns)))
        self.multi_index = isinstance(sns, pd.MultiIndex)
        self.P = list(sns.unique("period")) if self.multi_index else []
        self._dense = {}
        self._labels = {}
        self.varname = {}
        if model is not None:
            for name in model.variables:
                v = model.variables[name]
                lab = v.labels
                self._labels[name] = self._index_labels(lab)
                for k, l in self._labels[name].items():
                    if l != -1:
                        self.varname[l] = (name, k)
        ports = [c[3:] for c in n.links.columns if c.startswith("bus") and c != "bus0"]
        self.link_ports = ports
        self.rolling = (sns[0] != n.snapshots[0])
        self._pidx = {p: i for i, p in enumerate(self.P)}

    def _index_labels(self, lab):
        out = {}
        dims = lab.dims
        axes = []
        for d in dims:
            idx = lab.indexes[d] if d in lab.indexes else range(lab.sizes[d])
            if d == "snapshot":
                axes.append([self.tpos(s) for s in idx])
            else:
                axes.append(list(idx))
        arr = lab.values
        for ii in np.ndindex(arr.shape):
            out[tuple(axes[k][i] for k, i in enumerate(ii))] = int(arr[ii])
        return out

    def tpos(self, s):
        return self.sns.get_loc(s)

    # ---- logic
    def And(self, *xs): return all(xs)
    def Or(self, *xs): return any(xs)
    def Not(self, x): return not x
    def If(self, c, a, b): return a if c else b
    def num(self, x): return float(x)
    def frac(self, a, b): return a / b
    def eq(self, a, b): return a == b
    def ne(self, a, b): return a != b
    def gt(self, a, b): return a > b
    def ge(self, a, b): return a >= b
    def lt(self, a, b): return a < b
    def le(self, a, b): return a <= b
    def isnull(self, x): return x != x
    def nonnull(self, x): return 0.0 if x != x else x
    def pow(self, a, b): return float(a) ** float(b)
    def eqlab(self, a, b): return a == b
    def label(self, s): return s

    # ---- data
    def static(self, c): return self.n.static(c)
    def krange(self, K): return range(1, K + 1)
    def C(self, c): return list(self.n.static(c).index)
    def has_static(self, c, a): return a in self.n.static(c)
    def has_dynamic(self, c, a): return a in self.n.dynamic(c)
    def st(self, c, a, x): return float(self.n.static(c).at[x, a])
    def stb(self, c, a, x): return bool(self.n.static(c).at[x, a])
    def lab(self, c, a, x): return self.n.static(c).at[x, a]
    def dyncol(self, c, a, x): return x in self.n.dynamic(c)[a].columns
    def dyn(self, c, a, t, x):
        d = self.n.dynamic(c)[a]
        return float(d.at[self.sns[t], x]) if x in d.columns else float("nan")

    def dense(self, c, a, t, x):
        d = self.n.dynamic(c).get(a)
        if d is not None and x in d.columns:
            return float(d.at[self.sns[t], x])
        return float(self.n.static(c).at[x, a])

    def period(self, t): return self.sns[t][0]
    def is_period(self, p): return p in self.P

    def active_in(self, c, x, p):
        s = self.n.static(c)
        if not bool(s.at[x, "active"]):
            return False
        if "build_year" not in s or "lifetime" not in s:
            return True
        b, l = s.at[x, "build_year"], s.at[x, "lifetime"]
        return bool(b <= p < b + l)

    def active_any(self, c, x): return any(self.active_in(c, x, p) for p in self.P)

    def active(self, c, t, x):
        if self.multi:
            return self.active_in(c, x, self.period(t))
        return bool(self.n.static(c).at[x, "active"])

    def w(self, col, t, years=False, obj=False):
        v = float(self.n.snapshot_weightings[col].iloc[self.n.snapshots.get_loc(self.sns[t])])
        if self.multi:
            if years:
                v *= float(self.n.investment_period_weightings.at[self.period(t), "years"])
            if obj:
                v *= float(self.n.investment_period_weightings.at[self.period(t), "objective"])
        return v

    def pw(self, col, p): return float(self.n.investment_period_weightings.at[p, col])
    def period_sum(self, f): return sum((f(p) for p in self.P), 0.0)
    def carrier(self, c, x, attr):
        k = self.n.static(c).at[x, "carrier"]
        return float(self.n.carriers.at[k, attr]) if k in self.n.carriers.index else 0.0

    # ---- variables
    def var(self, name, *key):
        lab = self._labels.get(name)
        if lab is None:
            return Lin()
        l = lab.get(tuple(key), -1)
        return Lin() if l == -1 else Lin({l: 1.0})

    def sqvar(self, name, *key):
        l = self._labels.get(name, {}).get(tuple(key), -1)
        return Lin() if l == -1 else Lin({("sq", l): 1.0})

    def has_var(self, name, *key):
        return self._labels.get(name, {}).get(tuple(key), -1) != -1

    def var_prev(self, name, t, x): return Lin() if t == 0 else self.var(name, t - 1, x)

    def var_prev_active(self, name, c, t, x):
        act = [u for u in self.T if self.active(c, u, x)]
        before = [u for u in act if u < t]
        if before:
            return self.var(name, before[-1], x)
        return self.var(name, act[-1], x) if act else Lin()

    def var_prev_in_period(self, name, t, x):
        per = [u for u in self.T if self.period(u) == self.period(t)]
        i = per.index(t)
        return self.var(name, per[i - 1], x)

    def var_last(self, name, c, x, period):
        ts = [u for u in self.T if period is None or self.period(u) == period]
        ts = [u for u in ts if self.has_var(name, u, x)]
        return self.var(name, ts[-1], x) if ts else Lin()

    def window_sum(self, name, t, x, k):
        e = Lin()
        for u in range(max(0, t - int(k) + 1), t + 1):
            e = e + self.var(name, u, x)
        return e

    def first(self, t): return t == 0
    def pos(self, t): return t

    def first_of_period(self, t):
        return t == 0 or self.period(t - 1) != self.period(t)

    def first_active(self, c, t, x):
        return self.active(c, t, x) and not any(self.active(c, u, x) for u in range(t))

    def first_active_period(self, c, x, q):
        i = self.P.index(q)
        return self.active_in(c, x, q) and not any(self.active_in(c, x, p) for p in self.P[:i])

    def prev_period(self, q, f):
        i = self.P.index(q)
        return Lin() if i == 0 else f(self.P[i - 1])

    def before(self, c, a, x):
        i = self.n.snapshots.get_loc(self.sns[0]) - 1
        d = self.n.dynamic(c)[a]
        return float(d[x].iloc[i]) if x in d.columns else float("nan")

    def _run(self, c, x, up):
        i = self.n.snapshots.get_loc(self.sns[0])
        st = self.n.dynamic(c)["status"]
        k = 0
        while i - 1 - k >= 0 and (x in st.columns) and bool(st[x].iloc[i - 1 - k]) == up:
            k += 1
        return k

    def up_time_before(self, c, x):
        if not self.rolling:
            return self.st(c, "up_time_before", x)
        return min(self._run(c, x, True), self.st(c, "min_up_time", x))

    def down_time_before(self, c, x):
        if not self.rolling:
            return self.st(c, "down_time_before", x)
        return min(self._run(c, x, False), self.st(c, "min_down_time", x))

    # ---- quantifiers
    def sum(self, ax, f, where=None):
        e = Lin()
        for x in ax:
            if where is None or where(x):
                e = e + f(x)
        return e

    def sum2(self, ax, bx, f, where=None):
        e = Lin()
        for x in ax:
            for y in bx:
                if where is None or where(x, y):
                    e = e + f(x, y)
        return e

    def any(self, ax, f): return any(f(x) for x in ax)
    def all(self, ax, f): return all(f(x) for x in ax)

    def bus_has_injection(self, t, b):
        """at least one dispatch variable exists at the bus"""
        n = self.n
        one = [("Generator", "p"), ("Store", "p"), ("StorageUnit", "p_dispatch")]
        for c, v in one:
            for x in self.C(c):
                if self.lab(c, "bus", x) == b and self.has_var(f"{c}-{v}", t, x):
                    return True
        for c, v in (("Line", "s"), ("Transformer", "s"), ("Link", "p")):
            cols = ["bus0", "bus1"] if c != "Link" else ["bus0"] + ["bus" + p for p in self.link_ports]
            for x in self.C(c):
                if any(self.lab(c, k, x) == b for k in cols) and self.has_var(f"{c}-{v}", t, x):
                    return True
        return False


# --------------------------------------------------------------- comparison
def actual_constraints(S, name):
    """labels -> (coefs, sign, rhs) for present rows of a real constraint"""
    con = S.m.constraints[name]
    ds = con.data
    lab = ds.labels
    dims = lab.dims
    axes = []
    for d in dims:
        idx = lab.indexes[d] if d in lab.indexes else range(lab.sizes[d])
        axes.append([S.tpos(s) for s in idx] if d == "snapshot" else list(idx))
    V = ds.vars.transpose(*dims, "_term").values
    Co = ds.coeffs.transpose(*dims, "_term").values
    Sg = ds.sign.broadcast_like(lab).transpose(*dims).values
    Rh = ds.rhs.broadcast_like(lab).transpose(*dims).values
    Lb = lab.values
    out = {}
    for ii in np.ndindex(Lb.shape):
        key = tuple(axes[k][i] for k, i in enumerate(ii))
        if Lb[ii] == -1:
            continue
        d = {}
        for v, co in zip(V[ii], Co[ii]):
            if v == -1:
                continue
            d[int(v)] = d.get(int(v), 0.0) + float(co)
        out[key] = (d, str(Sg[ii]), float(Rh[ii]))
    return out, dims


def close(a, b):
    return abs(a - b) <= 1e-7 * max(1.0, abs(a), abs(b))


def show(S, d):
    return " + ".join(f"{v:g}*{S.varname.get(k, k)}" for k, v in sorted(d.items(), key=str)) or "0"


def same_lin(d, rhs, sign, lin, ssign):
    """constraint d sign rhs  vs  lin ssign 0 (sign flip allowed)"""
    flip = {"<=": ">=", ">=": "<=", "=": "=", "==": "="}
    sign = "=" if sign == "==" else sign
    for f in (1, -1):
        s2 = ssign if f == 1 else flip[ssign]
        if s2 != sign:
            continue
        e = lin * f
        want = e.clean()
        have = {k: v for k, v in d.items() if abs(v) > 1e-9}
        if set(want) == set(have) and all(close(want[k], have[k]) for k in want) and close(rhs, -e.c):
            return True
    return False


def infinite(lin):
    return any(math.isinf(v) or v != v for v in lin.d.values())


def check_con(S, spec, dimorder=None):
    """compare one constraint family; returns list of discrepancies"""
    bad = []
    want = {}
    if spec.when:
        axes = spec.axes
        import itertools
        for key in itertools.product(*axes):
            if spec.dom(*key):
                want[key] = spec.expr(*key)
    if spec.name in S.m.constraints:
        have, dims = actual_constraints(S, spec.name)
        if spec.dims and set(dims) == set(spec.dims):
            perm = [dims.index(d) for d in spec.dims]
            have = {tuple(k[i] for i in perm): v for k, v in have.items()}
        elif len(dims) == 2 and dims[1] == "snapshot":
            have = {(k[1], k[0]): v for k, v in have.items()}
    else:
        have = {}
    S.ncmp = getattr(S, "ncmp", 0) + len(want)
    for k in want:
        e = want[k] if isinstance(want[k], Lin) else Lin({}, float(want[k]))
        if k not in have:
            if not e.clean() and not math.isinf(e.c):
                continue  # no variables: vacuous row, checked by the caller's data
            bad.append(f"missing constraint {spec.name}{list(k)}: {show(S, e.clean())} + {e.c:g} {spec.sign} 0")
            continue
        d, sg, rhs = have[k]
        if not same_lin(d, rhs, sg, e, spec.sign):
            bad.append(f"{spec.name}{list(k)}: model has {show(S, d)} {sg} {rhs:g}, contract requires {show(S, e.clean())} {spec.sign} {-e.c:g}")
    for k in have:
        if k not in want:
            d, sg, rhs = have[k]
            if not any(abs(v) > 1e-9 for v in d.values()) and (close(rhs, 0) or spec.name.startswith("GlobalConstraint-")):
                continue  # nothing to limit: the row may be present or absent
            bad.append(f"unexpected constraint {spec.name}{list(k)}: {show(S, d)} {sg} {rhs:g}")
    return bad


def check_var(S, spec):
    bad = []
    import itertools
    want = [k for k in itertools.product(*spec.axes) if spec.dom(*k)]
    name = spec.name
    S.ncmp = getattr(S, "ncmp", 0) + len(want)
    lab = S._labels.get(name, {})
    have = {k for k, l in lab.items() if l != -1}
    for k in want:
        if k not in have:
            bad.append(f"variable {name}{list(k)} missing")
    for k in have - set(want):
        bad.append(f"variable {name}{list(k)} exists but should not")
    if name in S.m.variables:
        v = S.m.variables[name]
        at = v.attrs
        kind = "binary" if at.get("binary") else "integer" if at.get("integer") else "continuous"
        if kind != spec.kind:
            bad.append(f"variable {name} is {kind}, contract: {spec.kind}")
        lo = _vals(S, v.lower, v.labels)
        up = _vals(S, v.upper, v.labels)
        for k in set(want) & have:
            wl = float(spec.lower(*k)) if spec.lower else -INF
            wu = float(spec.upper(*k)) if spec.upper else INF
            if spec.kind == "binary":
                wl, wu = 0.0, 1.0
                l, u = max(lo[k], 0.0), min(up[k], 1.0)
            else:
                l, u = lo[k], up[k]
            if l != wl and not close(l, wl) or u != wu and not close(u, wu):
                bad.append(f"variable {name}{list(k)} bounded by [{l:g}, {u:g}], contract [{wl:g}, {wu:g}]")
    return bad


def _vals(S, arr, labels):
    arr = arr.broadcast_like(labels).transpose(*labels.dims)
    axes = []
    for d in labels.dims:
        idx = labels.indexes[d] if d in labels.indexes else range(labels.sizes[d])
        axes.append([S.tpos(s) for s in idx] if d == "snapshot" else list(idx))
    return {tuple(axes[k][i] for k, i in enumerate(ii)): float(arr.values[ii]) for ii in np.ndindex(arr.shape)}


def actual_objective(S):
    """(linear coefficients, quadratic coefficients {(i,j)}, constant)"""
    ex = S.m.objective.expression
    lin, quad = {}, {}
    ds = ex.data
    V, Co = ds.vars.values, ds.coeffs.values
    if "_factor" in ds.vars.dims:
        V = ds.vars.transpose("_factor", ...).values.reshape(2, -1)
        Co = ds.coeffs.values.reshape(-1)
        for a, b, co in zip(V[0], V[1], Co):
            a, b = int(a), int(b)
            if a == -1 and b == -1:
                continue
            if a == -1 or b == -1:
                v = max(a, b)
                lin[v] = lin.get(v, 0.0) + float(co)
            else:
                k = (min(a, b), max(a, b))
                quad[k] = quad.get(k, 0.0) + float(co)
    else:
        for v, co in zip(V.reshape(-1), Co.reshape(-1)):
            if v != -1:
                lin[int(v)] = lin.get(int(v), 0.0) + float(co)
    return lin, quad


def check_objective(S):
    bad = []
    lin, quad = actual_objective(S)
    const_lab = S._labels.get("objective_constant", {}).get((), None)
    const = S.m.variables["objective_constant"].lower.item() if const_lab is not None else 0.0
    if const_lab is not None:
        co = lin.pop(const_lab, 0.0)
        if not close(co, -1.0):
            bad.append(f"coefficient of the objective constant is {co:g}, contract -1")
        up = S.m.variables["objective_constant"].upper.item()
        if not close(up, const):
            bad.append("objective constant is not fixed")
    wc = SP.objective_constant(S)
    wc = wc.c if isinstance(wc, Lin) else wc
    if not close(const, wc) or not close(float(S.n.objective_constant), wc):
        bad.append(f"objective constant {const:g} / {float(S.n.objective_constant):g}, contract {wc:g}")
    want = SP.objective(S)
    want = want.clean() if isinstance(want, Lin) else {}
    have = {k: v for k, v in lin.items() if abs(v) > 1e-9}
    S.ncmp = getattr(S, "ncmp", 0) + len(set(want) | set(have))
    for k in sorted(set(want) | set(have)):
        if not close(want.get(k, 0.0), have.get(k, 0.0)):
            bad.append(f"objective coefficient of {S.varname.get(k, k)}: model {have.get(k, 0):g}, contract {want.get(k, 0):g}")
    wq = SP.objective_quadratic(S)
    wq = {k[1]: v for k, v in wq.clean().items()} if isinstance(wq, Lin) else {}
    hq = {}
    for (a, b), v in quad.items():
        if a != b and abs(v) > 1e-9:
            bad.append(f"unexpected product term {S.varname.get(a)}*{S.varname.get(b)}")
        elif abs(v) > 1e-9:
            hq[a] = v
    for k in sorted(set(wq) | set(hq)):
        if not close(wq.get(k, 0.0), hq.get(k, 0.0)):
            bad.append(f"quadratic objective coefficient of {S.varname.get(k, k)}: model {hq.get(k, 0):g}, contract {wq.get(k, 0):g}")
    sense = S.m.objective.sense
    if sense != "min":
        bad.append(f"objective sense is {sense}")
    return bad
