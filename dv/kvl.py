"""
C06, deductive part for the voltage law: `define_kirchhoff_voltage_constraints` (pypsa/optimization/constraints.py).

The code object is executed for one generic investment period, one generic sub-network of that period's topology and one
generic cycle of it.  `sub_network.C` is an arbitrary matrix (its contract - a basis of the cycle space of the active
branches of the period - belongs to C15 and is checked there), `branches()` an arbitrary table in the row order of C.
Obligations: the topology is that of the period, one equality row with right-hand side zero per cycle and snapshot of the
period, whose coefficient at every branch k is C[k, cycle] times the reactance (resistance in DC networks), up to a common factor.
"""
from __future__ import annotations

import os
import time
import traceback

from dv import core, world
from dv.core import AND, FALSE, NOT, SB, Ctx, Unsupported, explore, qf, z3
from dv.arr import unsup
from dv.roll import carried

K = "pypsa.optimization.constraints"
R, I, B = core.R, core.I, core.B
BR = z3.Int("branch")  # the generic row of C
CY = z3.Int("cycle")


def rfun(name, *sorts): return z3.Function(name, *sorts)


def whole(items, what):
    """a loop over a generic element: it must not be left early"""
    Ctx.cur.open_loops.append(what)
    yield from items
    Ctx.cur.open_loops.remove(what)


class Whole:
    def __init__(s, items, what): s.items, s.what = items, what
    def __iter__(s): return whole(s.items, s.what)
    def tolist(s): return s


class Col:
    """a column of the branch table / a diagonal: value of row k"""

    def __init__(s, f, order): s.f, s.order = f, order
    @property
    def values(s): return s
    def to_numpy(s): return s
    def _num(s, o):
        if isinstance(o, (int, float)) and not isinstance(o, bool):
            return z3.RealVal(repr(o) if isinstance(o, int) else str(o))
        return None

    def __mul__(s, o):
        if isinstance(o, Col) and o.order == s.order:
            return Col(lambda k: s.f(k) * o.f(k), s.order)
        q = s._num(o)
        return Col(lambda k: q * s.f(k), s.order) if q is not None else NotImplemented
    __rmul__ = __mul__

    def __neg__(s): return s * -1

    def __truediv__(s, o):
        q = s._num(o)
        return Col(lambda k: s.f(k) / q, s.order) if q is not None else NotImplemented

    def where(s, cond, other): unsup("where on a branch column")


class Mat:
    """matrix with one row per branch (or diagonal)"""

    def __init__(s, f, order, diag=False): s.f, s.order, s.diag = f, order, diag

    def _scale(s, o):
        q = Col._num(s, o)
        if q is None:
            return None
        return Mat(lambda k, j: q * s.f(k, j), s.order, s.diag)

    def __mul__(s, o):
        r = s._scale(o)
        if r is not None:
            return r
        if isinstance(o, Mat) and s.diag and o.order == s.order:
            return Mat(lambda k, j: s.f(k, k) * o.f(k, j), s.order, o.diag)
        return NotImplemented
    __matmul__ = __mul__
    def dot(s, o): return s * o
    def __rmul__(s, o):
        r = s._scale(o)
        return NotImplemented if r is None else r

    def __neg__(s): return s._scale(-1)
    def multiply(s, o): unsup("element-wise product")
    @property
    def size(s): return Count("C.size", s.order)
    nnz = size
    @property
    def shape(s): return (Count("nbranches", s.order), Count("ncycles", s.order))
    def getcol(s, j): return MCol(s, j)
    def tocsc(s): return s
    tocsr = tocoo = copy = tocsc

    def __getitem__(s, k):
        if isinstance(k, tuple) and len(k) == 2 and k[0] == slice(None):
            return MCol(s, k[1])
        unsup("matrix indexing")


class MCol:
    def __init__(s, m, j):
        if not isinstance(j, Cycle):
            unsup("column which is not the generic cycle")
        s.m, s.j, s.order = m, j, m.order
    def tocoo(s): return s
    tocsc = tocsr = tocoo
    @property
    def data(s): return Terms(lambda k: s.m.f(k, CY), s.order)
    @property
    def row(s): return RowsOf(s.order)


class RowsOf:
    def __init__(s, order): s.order = order


class Terms:
    def __init__(s, f, order): s.f, s.order = f, order
    def _map(s, q):
        q = Col._num(s, q)
        return NotImplemented if q is None else Terms(lambda k: q * s.f(k), s.order)
    def __mul__(s, q): return s._map(q)
    __rmul__ = __mul__
    def __neg__(s): return s._map(-1)


class Cycle:
    pass


class Count:
    """a number about which only 'is it zero' is known"""

    def __init__(s, name, order): s.z = z3.Int(f"{name}@{order}")
    def __bool__(s): return bool(SB(s.z != 0))
    def __eq__(s, o): return SB(s.z == o)
    def __ne__(s, o): return SB(s.z != o)
    def __gt__(s, o): return SB(s.z > o)
    __hash__ = object.__hash__


class CountRange:
    def __init__(s, c): s.c = c
    def __iter__(s): return whole([Cycle()], 'cycle')


class Snaps:
    def __init__(s, period=None, multi=False): s.period, s.multi = period, multi
    def unique(s, level=None):
        if level not in ("period", 0) or not s.multi:
            unsup("unique")
        return Whole([Period()], 'period')

    def get_loc(s, p):
        if not isinstance(p, Period):
            unsup("get_loc")
        return p

    def __getitem__(s, k):
        if isinstance(k, Period) and s.period is None:
            return Snaps(k, True)
        unsup("selection of snapshots")


class Period:
    pass


class VTab:
    """labels of the flow variables of some classes"""

    def __init__(s, classes, rows=None, order=None, picked=False): s.classes, s.rows, s.order, s.picked = classes, rows, order, picked
    @property
    def loc(s): return s
    @property
    def values(s): return s
    def to_pandas(s): return s
    def to_numpy(s): return s

    def __getitem__(s, k):
        if isinstance(k, tuple) and len(k) == 2:
            a, b = k
            if s.order is None and isinstance(a, Snaps) and isinstance(b, BIndex):
                return VTab(s.classes, a, b.order)
            if s.order is not None and a == slice(None) and isinstance(b, RowsOf) and b.order == s.order:
                return VTab(s.classes, s.rows, s.order, True)
        unsup("selection of flow variables")


class BIndex:
    def __init__(s, order): s.order = order


class Branches:
    def __init__(s, order): s.order = order
    @property
    def index(s): return BIndex(s.order)
    def __getattr__(s, a):
        if a in ("x_pu_eff", "r_pu_eff", "x_pu", "r_pu", "x", "r"):
            f = rfun(f"{a}@{s.order}", I, R)
            return Col(lambda k: f(k), s.order)
        raise AttributeError(a)

    def __getitem__(s, a):
        if isinstance(a, str):
            try:
                return getattr(s, a)
            except AttributeError:
                unsup(f"branch column {a}")
        unsup("branch table selection")


class Sub:
    name = "subname"

    def __init__(s, order, topo): s.order, s.topo = order, topo
    def branches(s): return Branches(s.order)
    @property
    def C(s):
        f = rfun(f"C@{s.order}", I, I, R)
        return Mat(lambda k, j: f(k, j), s.order)


class Carrier:
    def __init__(s, order): s.b = z3.Bool(f"isAC@{order}")
    def __eq__(s, o): return SB(s.b) if o == "AC" else SB(NOT(s.b)) if o == "DC" else unsup("carrier")
    def __ne__(s, o): return SB(NOT(s.b)) if o == "AC" else SB(s.b) if o == "DC" else unsup("carrier")
    __hash__ = object.__hash__


class SubNetworks:
    def __init__(s, n): s.n = n
    @property
    def obj(s):
        if s.n.topo is None:
            unsup("sub-networks before the topology is determined")
        return Whole([s.n.sub()], 'sub-network')
    @property
    def carrier(s): return s
    @property
    def at(s): return s
    loc = at
    def __getitem__(s, k):
        if k == "obj":
            return s.obj
        if k == "carrier":
            return s
        if k == Sub.name or k == (Sub.name, "carrier"):
            return Carrier(s.n.cur)
        unsup("sub_networks[]")


class Stat:
    def __init__(s, c): s.z = z3.Bool(f"nonempty.{c}")
    @property
    def empty(s): return SB(NOT(s.z))


class Net:
    passive_branch_components = ["Line", "Transformer"]

    def __init__(n, multi): n._multi_invest, n.topo, n.ntopo, n.cur, n.dep, n.model = int(multi), None, 0, None, False, Model(n)
    def calculate_dependent_values(n): n.dep = True
    def static(n, c): return Stat(c)
    df = static
    lines = property(lambda n: Stat("Line"))
    transformers = property(lambda n: Stat("Transformer"))

    def determine_network_topology(n, investment_period=None, skip_isolated_buses=False):
        n.topo, n.ntopo = (investment_period,), n.ntopo + 1

    @property
    def sub_networks(n): return SubNetworks(n)

    def sub(n):
        n.cur, n.curtopo = f"{n.ntopo}", n.topo
        return Sub(n.cur, n.topo)


class DA:
    def __init__(s, v, dims=None, coords=None, **k):
        if k:
            unsup("DataArray")
        s.v, s.dims, s.coords = v, (dims,) if isinstance(dims, str) else tuple(dims or ()), coords or {}


class Expr:
    def __init__(s, ds, m=None):
        if not isinstance(ds, dict) or set(ds) != {"coeffs", "vars"}:
            unsup("linear expression")
        c, v = ds["coeffs"], ds["vars"]
        if not (isinstance(c.v, Terms) and c.dims == ("_term",) and isinstance(v.v, VTab) and v.v.picked and v.dims == ("snapshot", "_term")):
            unsup("linear expression")
        if c.v.order != v.v.order or v.coords.get("snapshot") is None:
            unsup("linear expression")
        s.rows, s.snaps, s.vars, s.coef, s.order = v.v.rows, v.coords["snapshot"], v.v, c.v.f, c.v.order
        s.const = 0


class Merged:
    def __init__(s, items, dim): s.items, s.dim = items, dim
    def assign_coords(s, **k): return s
    @property
    def data(s): return s
    @property
    def cycles(s): return s

    def flat(s):
        out = []
        for x in s.items:
            out += x.flat() if isinstance(x, Merged) else [x]
        return out


class Model:
    def __init__(s, n): s.n, s.cons = n, []
    def __getitem__(s, k):
        c, _, a = k.partition("-")
        if a != "s" or c not in ("Line", "Transformer"):
            unsup(f"variable {k}")
        if not Ctx.cur.branch(qf(z3.Bool(f"nonempty.{c}"))):
            raise KeyError(k)
        return VTab((c,))

    def add_constraints(s, lhs, sign=None, rhs=None, name=None, **k):
        if k:
            unsup("add_constraints")
        s.cons.append((lhs, sign, rhs, name))


def merge(items, *rest, dim=None, **k):
    if rest or k or dim not in ("cycles", "snapshot"):
        unsup("merge")
    return Merged(list(items), dim)


def concat(d, axis=0, names=None, **k):
    if not isinstance(d, dict) or axis not in (1, "columns") or k or not all(isinstance(v, VTab) for v in d.values()) or any(v.classes != (c,) for c, v in d.items()):
        unsup("concat")
    return VTab(tuple(d))


def s_range(*a):
    if len(a) == 1 and isinstance(a[0], Count):
        return CountRange(a[0])
    if len(a) == 1 and isinstance(a[0], GenLen):
        return None
    return range(*a)


class GenLen:
    pass


def s_len(x):
    return GenLen() if isinstance(x, Merged) else world.sym_len(x)


class Sparse:
    def diags(s, v, *a, **k):
        if a or k or not isinstance(v, Col):
            unsup("diags")
        return Mat(lambda i, j: v.f(i), v.order, True)
    diags_array = diags


class KvlTask:
    weight = 1
    mod, fn, cfg = K, "define_kirchhoff_voltage_constraints", {}
    assumes = ["C06: `sub_network.C` has the rows of `sub_network.branches()` and is a cycle basis of the period's topology (contract of determine_network_topology / find_cycles, C15: bounded); "
               "calculate_dependent_values computes the per-unit impedances (C14); merging expressions along a dimension concatenates their rows (linopy)"]

    def __init__(s, multi): s.multi, s.name = multi, f"{K}.{s.fn}[{'multi=True' if multi else 'single'}]"

    def execute(s, budget):
        t0 = time.time()
        core.STATS.update(solver_s=0.0, queries=0, sliced=0, paths=0)
        res = dict(function=s.name, obligations=[], undecided=None, paths=0, solver_s=0.0, queries=0, sliced=0)
        try:
            from dv.verify import load
            ld, m, meth = load(K)
            f = getattr(m, s.fn)
            c = carried(f)
            if c:
                raise Unsupported(f"state carried between iterations: {sorted(c)}")
            g = f.__globals__
            g["__builtins__"].update(len=s_len, range=s_range)
            g["pd"].concat = concat
            for nm, v in (("sparse", Sparse()), ("DataArray", DA), ("Dataset", dict), ("LinearExpression", Expr), ("merge", merge)):
                if nm in g:
                    g[nm] = v
            rows = [0]

            def run(ctx):
                world.W().start()
                n = Net(s.multi)
                ctx.open_loops = []
                mark = len(core.UNSUP)
                try:
                    f(n, Snaps(None, s.multi))
                except (KeyError, ValueError, IndexError) as e:
                    ctx.prove(f"no {type(e).__name__} ({e})", FALSE)
                    return
                finally:
                    if len(core.UNSUP) > mark and core.UNSUP[mark] != "path ended":
                        raise Unsupported(core.UNSUP[mark])
                ctx._record("no loop is left early", "refuted" if ctx.open_loops else "proved", str(ctx.open_loops))
                rows[0] += s.judge(ctx, n)
            for ctx, _ in explore(run, deadline=t0 + budget):
                res["obligations"] += ctx.obligations
            if not rows[0]:
                res["undecided"] = "no row on any path"
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [y for y in tb if world.REPO in y.filename]
            res["undecided"] = f"outside the verified subset: {e} " + (f"{os.path.relpath(loc[-1].filename, world.REPO)}:{loc[-1].lineno}" if loc else "")
            res["tb"] = traceback.format_exc()
        except Exception as e:  # engine limitation
            res["undecided"] = f"{type(e).__name__}: {e}"
            res["tb"] = traceback.format_exc()
        res.update(paths=core.STATS["paths"], solver_s=core.STATS["solver_s"], queries=core.STATS["queries"], seconds=time.time() - t0)
        return res

    def judge(s, ctx, n):
        some = core.OR(z3.Bool("nonempty.Line"), z3.Bool("nonempty.Transformer"))
        cons = n.model.cons
        if not cons:
            # no branch at all, or the generic sub-network has no cycle
            goal = NOT(some)
            if n.cur is not None:
                goal = core.OR(goal, z3.Int(f"C.size@{n.cur}") == 0)
            ctx.prove("rows for every cycle", goal)
            return 0
        ctx._record("rows added once", "proved" if len(cons) == 1 else "refuted", str(len(cons)))
        lhs, sign, rhs, name = cons[0]
        ctx._record("rows are equalities with right-hand side zero", "proved" if sign in ("=", "==") and rhs == 0 and isinstance(rhs, (int, float)) else "refuted", f"{sign} {rhs}")
        items = lhs.flat() if isinstance(lhs, Merged) else [lhs]
        ctx._record("one row per cycle", "proved" if len(items) == 1 else "refuted", str(len(items)))
        ctx._record("per-unit impedances are up to date", "proved" if n.dep else "refuted", "")
        e = items[0]
        per = n.curtopo[0]
        want = (isinstance(per, Period) and s.multi and e.snaps.period is per and e.rows.period is per) or (
            not s.multi and per is None and e.snaps.period is None and e.rows.period is None)
        ctx._record("rows for the snapshots of the period whose topology is used", "proved" if want else "refuted", "")
        for c in ("Line", "Transformer"):
            ctx.prove(f"flows of every {c} are available", core.IMP(z3.Bool(f"nonempty.{c}"), z3.BoolVal(c in e.vars.classes)))
        o = e.order
        x, r, C = rfun(f"x_pu_eff@{o}", I, R), rfun(f"r_pu_eff@{o}", I, R), rfun(f"C@{o}", I, I, R)
        w = z3.If(z3.Bool(f"isAC@{o}"), x(BR), r(BR))
        coef = e.coef(BR)
        k1, one = z3.Real("k1"), z3.RealVal(1)
        # the common factor: the coefficient at unit impedance and unit entry
        lam = z3.simplify(z3.substitute(coef, (x(BR), one), (r(BR), one), (C(BR, CY), one)))
        ok = z3.is_rational_value(lam) and not z3.is_true(z3.simplify(lam == 0))
        ctx._record("coefficients are not scaled by zero or by anything but a constant", "proved" if ok else "refuted", str(lam))
        if ok:
            ctx.prove("coefficient of every branch: cycle entry times reactance (AC) or resistance (DC)", coef == lam * (w * C(BR, CY)))
        return 1


def tasks(): return [KvlTask(False), KvlTask(True)]
