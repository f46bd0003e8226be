"""
C24, deductive part: `discretized_capacity` (pypsa/optimization/abstract.py).

The code object compiled from /repo is executed on symbolic capacities.  A quantity is a coefficient times a power of the
unit size, which is an arbitrary positive number; the optimised capacity, the maximal capacity (finite or infinite) and
the threshold are arbitrary reals with 0 <= nom_opt <= nom_max and 0 < threshold <= 1.
"""
from __future__ import annotations

import os
import time
import traceback

from dv import core, world
from dv.arr import unsup
from dv.core import AND, FALSE, IMP, NOT, OR, SB, Ctx, Unsupported, explore, qf, z3

A = "pypsa.optimization.abstract"
RV = z3.RealVal


def fl(c):
    """floor, with its defining axiom for the solver"""
    return z3.ToReal(z3.ToInt(c))


def lift(o):
    if isinstance(o, Q):
        return o
    if isinstance(o, SB):
        return Q(z3.If(o.b, RV(1), RV(0)), 0)
    if isinstance(o, bool):
        return Q(RV(int(o)), 0)
    if isinstance(o, int):
        return Q(RV(o), 0)
    if isinstance(o, float):
        if o in (float("inf"), float("-inf")) or o != o:
            unsup("infinite or missing number")
        return Q(RV(repr(o)), 0)
    unsup(f"number {type(o).__name__}")


class Q:
    """coefficient * unit_size**deg"""

    def __init__(s, c, deg): s.c, s.deg = c, deg

    def _zero(s): return z3.is_rational_value(s.c) and s.c.as_fraction() == 0

    def _same(a, b):
        b = lift(b)
        if a.deg == b.deg or a._zero() or b._zero():
            return b
        unsup("units")

    def __add__(s, o):
        if isinstance(o, Inf):
            return o
        b = s._same(o)
        return Q(s.c + b.c, max(s.deg, b.deg))
    __radd__ = __add__
    def __neg__(s): return Q(-s.c, s.deg)
    def __sub__(s, o):
        if isinstance(o, Inf):
            return Inf(-o.sign)
        return s + (-lift(o))
    def __rsub__(s, o): return lift(o) - s
    def __mul__(s, o):
        if isinstance(o, Inf):
            unsup("product with infinity")
        o = lift(o)
        return Q(s.c * o.c, s.deg + o.deg)
    __rmul__ = __mul__

    def _nz(s):
        if Ctx.cur.branch(qf(s.c == 0)):
            raise ZeroDivisionError

    def __truediv__(s, o):
        if isinstance(o, Inf):
            return Q(RV(0), 0)
        o = lift(o)
        o._nz()
        return Q(s.c / o.c, s.deg - o.deg)

    def __rtruediv__(s, o): return lift(o) / s

    def __floordiv__(s, o):
        r = s / o
        if r.deg:
            unsup("units of a floor division")
        return Q(fl(r.c), 0)

    def __rfloordiv__(s, o): return lift(o) // s
    def __mod__(s, o): return s - (s // o) * lift(o)
    def __divmod__(s, o): return s // o, s % o

    def _rnd(s, f):
        if s.deg:
            unsup("rounding a quantity with a unit")
        return Q(f(s.c), 0)
    def __floor__(s): return s._rnd(fl)
    floor = __floor__
    def __ceil__(s): return s._rnd(lambda c: -fl(-c))
    ceil = __ceil__
    def __int__(s): unsup("int()")
    def __float__(s): unsup("float()")
    def __abs__(s): return Q(z3.If(s.c >= 0, s.c, -s.c), s.deg)

    def _cmp(s, o, f, inf):
        if isinstance(o, Inf):
            return inf(o.sign)
        b = s._same(o)
        return SB(f(s.c, b.c))
    def __lt__(s, o): return s._cmp(o, lambda a, b: a < b, lambda g: g > 0)
    def __le__(s, o): return s._cmp(o, lambda a, b: a <= b, lambda g: g > 0)
    def __gt__(s, o): return s._cmp(o, lambda a, b: a > b, lambda g: g < 0)
    def __ge__(s, o): return s._cmp(o, lambda a, b: a >= b, lambda g: g < 0)
    def __eq__(s, o): return s._cmp(o, lambda a, b: a == b, lambda g: False)
    def __ne__(s, o): return s._cmp(o, lambda a, b: a != b, lambda g: True)
    __hash__ = object.__hash__
    def __bool__(s): return bool(SB(s.c != 0))


class Inf:
    """an infinite capacity; remainders and indeterminate forms are NaN"""

    def __init__(s, sign=1): s.sign = sign
    def __add__(s, o): return s if not isinstance(o, Inf) or o.sign == s.sign else float("nan")
    __radd__ = __add__
    def __neg__(s): return Inf(-s.sign)
    def __sub__(s, o): return s + (-o if isinstance(o, Inf) else 0)
    def __mod__(s, o): return float("nan")
    def __floordiv__(s, o): return float("nan")
    def __truediv__(s, o): return s if not isinstance(o, Inf) else float("nan")
    def __lt__(s, o): return s.sign < 0
    def __le__(s, o): return s.sign < 0
    def __gt__(s, o): return s.sign > 0
    def __ge__(s, o): return s.sign > 0
    def __eq__(s, o): return isinstance(o, Inf) and o.sign == s.sign
    def __ne__(s, o): return not s == o
    __hash__ = object.__hash__


class DiscTask:
    weight = 1
    mod, fn, cfg = A, "discretized_capacity", {}
    assumes = ["C24: only `discretized_capacity` is proved (0 <= nom_opt <= nom_max, unit_size > 0, 0 < threshold <= 1); the iteration around it is bounded"]

    def __init__(s, frac, inf): s.frac, s.inf, s.name = frac, inf, f"{A}.discretized_capacity[fractional={frac}, {'unlimited' if inf else 'limited'}]"

    def execute(s, budget):
        t0 = time.time()
        core.STATS.update(solver_s=0.0, queries=0, sliced=0, paths=0)
        res = dict(function=s.name, obligations=[], undecided=None, paths=0, solver_s=0.0, queries=0, sliced=0)
        try:
            from dv.verify import load
            ld, m, meth = load(A)
            f = getattr(m, s.fn)
            o, M, thr = z3.Real("nom_opt"), z3.Real("nom_max"), z3.Real("threshold")

            def run(ctx):
                world.W().start()
                ctx.fact(AND(o >= 0, thr > 0, thr <= 1))
                if not s.inf:
                    ctx.fact(o <= M)
                    # integer tautologies (floor is monotone; integers differ by at least one)
                    ctx.fact(AND(z3.ToInt(o) <= z3.ToInt(M), OR(z3.ToInt(o) >= z3.ToInt(M), fl(o) + 1 <= fl(M))))
                mark = len(core.UNSUP)
                try:
                    r = f(nom_opt=Q(o, 1), nom_max=Inf() if s.inf else Q(M, 1), unit_size=Q(RV(1), 1), threshold=Q(thr, 0), fractional_last_unit_size=s.frac)
                except (ZeroDivisionError, ValueError, TypeError, NameError) as e:
                    if len(core.UNSUP) > mark:
                        raise Unsupported(core.UNSUP[mark])
                    if isinstance(e, ZeroDivisionError) or "DV" not in str(e):
                        ctx.prove(f"no {type(e).__name__} ({e})", FALSE)
                        return
                    raise
                if isinstance(r, Inf) or isinstance(r, float) and r != r:
                    ctx.prove("a finite capacity", FALSE)
                    return
                r = lift(r)
                if r.deg != 1 and not r._zero():
                    ctx.prove("a capacity", FALSE)
                    return
                s.judge(ctx, r.c, o, M, thr)
            for ctx, _ in explore(run, deadline=t0 + budget):
                res["obligations"] += ctx.obligations
            if not res["obligations"]:
                res["undecided"] = "no path"
        except Unsupported as e:
            res["undecided"] = f"outside the verified subset: {e}"
            res["tb"] = traceback.format_exc()
        except Exception as e:  # engine limitation
            res["undecided"] = f"{type(e).__name__}: {e}"
            res["tb"] = traceback.format_exc()
        res.update(paths=core.STATS["paths"], solver_s=core.STATS["solver_s"], queries=core.STATS["queries"], seconds=time.time() - t0)
        return res

    def judge(s, ctx, r, o, M, thr):
        q = fl(o)
        part = o - q
        block = q + z3.If(part >= thr, RV(1), RV(0))
        if s.inf:
            whole, near = z3.BoolVal(False), z3.BoolVal(False)
        else:
            rest = M - fl(M)
            whole, near = rest == 0, M - o < 1
        last = AND(NOT(whole), near)
        ctx.prove("the next multiple of the unit size beyond the threshold, else the last one", IMP(NOT(last), r == block))
        if not s.inf:
            if s.frac:
                ctx.prove("beyond the threshold the remaining fraction of a unit is used", IMP(AND(last, part >= thr * rest), r == M))
                ctx.prove("a maximum below one unit is used in full", IMP(AND(last, M < 1), r == M))
                ctx.prove("below the threshold the last multiple", IMP(AND(last, part < thr * rest, M >= 1), r == q))
            else:
                ctx.prove("a maximum below one unit is used in full", IMP(AND(last, M < 1), r == M))
                ctx.prove("the last multiple of the unit size", IMP(AND(last, M >= 1), r == q))
            ctx.prove("not above the maximal capacity", r <= M)
            ctx.prove("a multiple of the unit size or the maximum", OR(r == fl(r), r == M))
        else:
            ctx.prove("a multiple of the unit size", r == fl(r))
        ctx.prove("within one unit of the optimised capacity", AND(r - o < 1, o - r < 1))
        ctx.prove("not negative", r >= 0)


def tasks(): return [DiscTask(fr, inf) for fr in (False, True) for inf in (False, True)]
