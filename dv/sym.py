"""
Symbolic interpretation of the contracts (dv/specs): the same contract text that
dv.concrete evaluates on real models becomes the postcondition of the
verification conditions here.
"""
from __future__ import annotations

from dv.core import z3

from dv import arr
from dv.arr import EMB, SInt, b_and, b_not, b_or
from dv.core import (AND, B, FALSE, IMP, INF, NOT, OR, QF, R, TRUE, Ctx, I, L, Num, Unsupported, bsum, ite, num, q_all,
                     q_any, qf, strlab, uf, zb)
from dv.world import W, run_length, var_value


def _b(x):
    return zb(x) if isinstance(x, bool) else x


class SymS:
    true, false = TRUE, FALSE
    inf = Num(INF)

    def __init__(self, w):
        self.world = w

    losses = property(lambda s: s.world.losses)
    linearized = property(lambda s: s.world.linearized)
    multi = property(lambda s: s.world.multi)
    multi_index = property(lambda s: s.world.multi_index)
    rolling = property(lambda s: s.world.rolling)
    loss_arg = property(lambda s: SInt(s.world.K) if s.world.losses == "K" else s.world.losses)
    link_ports = property(lambda s: s.world.ports)
    T = property(lambda s: s.world.sns)
    P = property(lambda s: s.world.P)

    def C(self, c): return self.world.comp(c)
    def krange(self, K): return [SInt(z3.Int("kgen"))]

    # logic
    def And(self, *xs):
        r = TRUE
        for x in xs:
            r = b_and(r, _b(x))
        return r

    def Or(self, *xs):
        r = FALSE
        for x in xs:
            r = b_or(r, _b(x))
        return r

    def Not(self, x): return b_not(_b(x))

    def If(self, c, a, b):
        if isinstance(c, QF):
            raise Unsupported("quantified condition in a contract value")
        return ite(zb(c), a, b)

    def num(self, x): return num(x)
    def frac(self, a, b): return num(a) / (num(SInt(self.world.K)) if b == "K" else num(b))
    def eq(self, a, b): return num(a).eq(num(b))
    def ne(self, a, b): return NOT(num(a).eq(num(b)))
    def gt(self, a, b): return num(a) > num(b)
    def ge(self, a, b): return num(a) >= num(b)
    def lt(self, a, b): return num(a) < num(b)
    def le(self, a, b): return num(a) <= num(b)
    def isnull(self, x): return num(x).nan
    def nonnull(self, x):
        x = num(x)
        return ite(x.nan, Num(0), Num(x.t, x.sums))
    def pow(self, a, b): return num(a) ** num(b)
    def eqlab(self, a, b): return a == b
    def label(self, s): return strlab(s)

    # data
    def has_static(self, c, a): return self.world.has_static(c, a)
    def has_dynamic(self, c, a): return self.world.has_dyn(c, a)
    def st(self, c, a, x): return num(self.world.st(c, a, x))
    def stb(self, c, a, x): return self.world.st(c, a, x)
    def lab(self, c, a, x): return self.world.st(c, a, x)
    def dyncol(self, c, a, x): return self.world.dyncol(c, a, x)
    def dyn(self, c, a, t, x): return self.world.dynA(c, a, EMB(t), x)
    def dense(self, c, a, t, x): return num(self.world.dense(c, a, t, x))
    def period(self, t): return num(self.world.per(t, "T"))
    def is_period(self, p): return True if self.world.is_period is None else self.world.is_period
    def active_in(self, c, x, p):
        return self.world.active_in(c, x, z3.IntVal(p) if isinstance(p, int) else p)
    def active_any(self, c, x):
        w = self.world
        return w.active_any(c, x)
    def active(self, c, t, x): return self.world.active(c, t, x)

    def w(self, col, t, years=False, obj=False):
        v = self.world.weight(col, EMB(t))
        if self.multi:
            p = self.world.per(t, "T")
            if years:
                v = v * self.world.pweight("years", p)
            if obj:
                v = v * self.world.pweight("objective", p)
        return v

    def pw(self, col, p): return self.world.pweight(col, p)

    def period_sum(self, f):
        return bsum(["P"], f, lambda p: self.world.P.mem(p))

    def carrier(self, c, x, attr):
        k = self.world.st(c, "carrier", x)
        return ite(self.world.mem("Carrier", k), num(self.world.st("Carrier", attr, k)), Num(0))

    # variables
    def var(self, name, *key): return var_value(self, name, *key)[0]

    def sqvar(self, name, *key):
        v = self.var(name, *key)
        return v * v

    def var_prev(self, name, t, x):
        return ite(t >= 1, self.var(name, t - 1, x), Num(0))

    def _pa(self, c):
        """(last, has) of the active snapshots of an asset"""
        w = self.world
        return w.last_present(w.sns, 0, lambda t, x: AND(w.sns.mem(t), w.mem(c, x), self.active(c, t, x)), ["T", "L"])

    def var_prev_active(self, name, c, t, x):
        """value at the previous active snapshot; for the first one the value at the last active snapshot"""
        last, has = self._pa(c)
        n = self.world.N
        return ite(has(t - 1, x), self.var(name, last(t - 1, x), x), ite(has(n - 1, x), self.var(name, last(n - 1, x), x), Num(0)))

    def first_active(self, c, t, x):
        return AND(self.active(c, t, x), NOT(self._pa(c)[1](t - 1, x)))

    def first_of_period(self, t):
        return OR(t == 0, self.world.per(t - 1, "T") != self.world.per(t, "T"))

    def var_prev_in_period(self, name, t, x):
        f = self.world.lastp()
        p = self.world.per(t, "T")
        return ite(self.first_of_period(t), self.var(name, f(p), x), self.var(name, t - 1, x))

    def var_last(self, name, c, x, period):
        """value at the last snapshot (of the period) at which the asset is active"""
        w = self.world
        key = f"vl.{c}.{period}"
        last, has = uf(key, ("L",), I), uf("has" + key, ("L",), B)
        if key not in w._reif:
            w._reif[key] = 1
            ok = lambda t, x: AND(w.sns.mem(t), self.active(c, t, x),
                                  TRUE if period is None else w.per(t, "T") == (period if not isinstance(period, int) else z3.IntVal(period)))
            Ctx.cur.forall(["L"], lambda x: IMP(has(x), ok(last(x), x)))
            Ctx.cur.forall(["T", "L"], lambda t, x: IMP(ok(t, x), AND(has(x), t <= last(x))))
        return ite(has(x), self.var(name, last(x), x), Num(0))

    def window_sum(self, name, t, x, k):
        k = num(k).z3()
        return bsum(["T"], lambda u: self.var(name, u, x),
                    lambda u: AND(self.world.sns.mem(u), u <= t, z3.ToReal(t - u) < k))

    def first(self, t): return t == 0
    def pos(self, t): return Num(z3.ToReal(t))

    def first_active_period(self, c, x, q):
        w = self.world
        f = uf(f"fap.{c}", ("P", "L"), B)
        if f"fap.{c}" not in w._reif:
            w._reif[f"fap.{c}"] = 1
            wit = uf(f"fapwit.{c}", ("P", "L"), I)
            m = w.P.mem
            Ctx.cur.forall(["P", "L"], lambda q, x: IMP(f(q, x), AND(m(q), self.active_in(c, x, q))))
            Ctx.cur.forall(["P", "P", "L"], lambda p, q, x: IMP(AND(f(q, x), m(p), p < q), NOT(self.active_in(c, x, p))))
            Ctx.cur.forall(["P", "L"], lambda q, x: IMP(AND(m(q), self.active_in(c, x, q), NOT(f(q, x))),
                                                        AND(m(wit(q, x)), wit(q, x) < q, self.active_in(c, x, wit(q, x)))))
        return f(q, x)

    def prev_period(self, q, f):
        has, pv = self.world.prev(self.world.P, q)
        return ite(has, f(pv), Num(0))

    def before(self, c, a, x):
        return self.world.dynA(c, a, EMB(z3.IntVal(0)) - 1, x)

    def _run(self, c, x, up):
        w = self.world
        key = f"specrun.{c}.{up}"
        start = EMB(z3.IntVal(0))
        if key not in w._reif:
            on = lambda s, y: w.dynA(c, "status", s, y).z3() == (1 if up else 0)
            w._reif[key] = run_length(start, on, key)
        return Num(z3.ToReal(w._reif[key](x)))

    def up_time_before(self, c, x):
        if not self.rolling:
            return self.st(c, "up_time_before", x)
        a, b = self._run(c, x, True), self.st(c, "min_up_time", x)
        return ite(a <= b, a, b)

    def down_time_before(self, c, x):
        if not self.rolling:
            return self.st(c, "down_time_before", x)
        a, b = self._run(c, x, False), self.st(c, "min_down_time", x)
        return ite(a <= b, a, b)

    # quantifiers
    def sum(self, ax, f, where=None):
        return bsum([ax.tag], f, lambda x: AND(ax.mem(x), zb(where(x)) if where else TRUE))

    def sum2(self, ax, bx, f, where=None):
        return bsum([ax.tag, bx.tag], f, lambda x, y: AND(ax.mem(x), bx.mem(y), zb(where(x, y)) if where else TRUE))

    def any(self, ax, f): return q_any([ax.tag], lambda x: b_and(ax.mem(x), _b(f(x))))
    def all(self, ax, f): return q_all([ax.tag], lambda x: b_or(NOT(ax.mem(x)), _b(f(x))))

    def bus_has_injection(self, t, b):
        out = []
        for c, col in [("Generator", "bus"), ("Store", "bus"), ("StorageUnit", "bus")] + [
                (c, k) for c in ("Line", "Transformer") for k in ("bus0", "bus1")] + [
                ("Link", "bus0")] + [("Link", f"bus{p}") for p in self.link_ports]:
            out.append(q_any(["L"], lambda x, c=c, col=col: AND(self.world.mem(c, x), self.lab(c, col, x) == b, self.active(c, t, x))))
        return QF("or", tuple(out))
