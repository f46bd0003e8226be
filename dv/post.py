"""
C09, deductive part: what is written back to the network after a solve.

`assign_solution`, `assign_duals` and `post_processing` (pypsa/optimization/optimize.py) are executed, as compiled
from /repo's source, on a network whose time-varying and static result tables are symbolic and *mutable*: an
arbitrary previous content, arbitrary solved snapshots (a subset of the network's), an arbitrary primal / dual
solution (a function of the labels, missing where the model has no variable / row).  At the end of every path each
cell of each table of the network is compared with the contract; tables the contract does not mention must be unchanged.

The loop over the model's variables is verified class by class.  This is sound because every iteration is shown (by the
recorded accesses) to read and write only tables of its own class.
"""
from __future__ import annotations

import csv
import os
import time
import traceback

from dv import arr, core, world
from dv.arr import Frame, Idx, Loc, Scal, Series, mkscal, sel_axis, unsup, value_fn
from dv.core import (AND, B, FALSE, IMP, NOT, OR, R, TRUE, Ctx, Num, PathAbort, Unsupported, bsum, explore, fresh, ite, num, q_any, qf, uf, z3, zb)
from dv.specs import opt as SP
from dv.verify import Judge, load
from dv.world import StaticFrame, SymNetwork, W

O = "pypsa.optimization.optimize"


def nz(v):
    """missing values count as zero"""
    v = num(v)
    return ite(v.nan, Num(0), Num(v.t, v.sums))


def enlarged(old_axis, key_idx):
    a, b = old_axis.mem, key_idx.mem
    return Idx(old_axis.name, old_axis.tag, lambda l: OR(a(l), b(l)), ("enlarged", old_axis.base, key_idx.base), old_axis.multi)


class MFrame(Frame):
    """a stored table: assignment through .loc enlarges the columns, as pandas does"""

    def _setloc(s, k, v):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        r = sel_axis(s.axes[1], k[1])
        if r[0] == "idx" and r[1] is not s.axes[1]:
            x = arr.canon("L")
            if not arr.implied(r[1].mem(x), s.axes[1].mem(x)):
                old, ax = s.fn, s.axes[1]
                new = enlarged(ax, r[1])
                s.axes = [s.axes[0], new]
                s.fn = lambda t, l: arr.miss(ax.mem(l), old(t, l))
        elif r[0] == "pt":
            unsup("assignment to one column")
        rr = sel_axis(s.axes[0], k[0])
        if rr[0] == "idx" and rr[1] is not s.axes[0]:
            t = fresh("row", s.axes[0].tag)
            if not arr.implied(rr[1].mem(t), s.axes[0].mem(t)):
                unsup("assignment to rows outside the table")
        Frame._setloc(s, k, v)


class Tables:
    def __init__(self, n, c):
        object.__setattr__(self, "n", n)
        object.__setattr__(self, "c", c)

    def __contains__(self, a): return a in self.n.store.get(self.c, {}) or W.cur.has_dyn(self.c, a)
    def keys(self): unsup("names of the time-varying tables")
    __iter__ = keys

    def __getitem__(self, a):
        w, c = W.cur, self.c
        if a not in self:
            raise KeyError(a)
        self.n.touched.add((c, a))
        st = self.n.store.setdefault(c, {})
        if a not in st:
            st[a] = old_table(c, a)
        return st[a]

    def __setitem__(self, a, f):
        if not isinstance(f, Frame) or [x.tag for x in f.axes] != ["TA", "L"]:
            unsup("table of unknown shape")
        self.n.touched.add((self.c, a))
        st = self.n.store.setdefault(self.c, {})
        st[a] = MFrame(list(f.axes), f.fn, f.kind, f.ltag)

    def get(self, a, d=None): return self[a] if a in self else d

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        return self[a]

    def __setattr__(self, a, f): self[a] = f


def old_cell(c, a):
    """column predicate and value of the previous content of a table"""
    w = W.cur
    if not w.has_dyn(c, a):
        return (lambda x: FALSE), (lambda s, x: Num(0, (), TRUE))

    def fn(s, x):
        v = w.dynA(c, a, s, x)
        if (c, a) in w.inputs:
            return v
        return Num(v.t, v.sums, uf(f"oldnan.{c}_t.{a}", ("TA", "L"), B)(s, x))
    return (lambda x: w.dyncol(c, a, x)), fn


def old_table(c, a):
    col, fn = old_cell(c, a)
    return MFrame([W.cur.snapshots, Idx(c, "L", col, ("dyncol", c, a))], fn)


class MStatic(StaticFrame):
    def __init__(self, c, n, idx=None):
        super().__init__(c, idx)
        self.n = n

    def __contains__(self, a): return (self.c, a) in self.n.sstore or W.cur.has_static(self.c, a)

    def _col(self, a):
        if (self.c, a) in self.n.sstore:
            if self.idx is not W.cur.comp(self.c):
                unsup("changed column of a selection")
            s = self.n.sstore[self.c, a]
            r = Series(list(s.axes), s.fn, s.kind, s.ltag)
            r.name = a
            return r
        return super()._col(a)

    def __getattr__(self, a):
        if a.startswith("_") or a in ("c", "n", "idx"):
            raise AttributeError(a)
        if (self.c, a) in self.n.sstore:
            return self._col(a)
        return super().__getattr__(a)

    def _setloc(self, k, v):
        if not (isinstance(k, tuple) and isinstance(k[1], str)) or self.idx is not W.cur.comp(self.c):
            unsup("assignment to the static table")
        a = k[1]
        if a in self:
            s = self._col(a)
        else:
            s = Series([self.idx], lambda x: Num(0, (), TRUE), "num")
        r = sel_axis(s.axes[0], k[0])
        x = arr.canon("L")
        if r[0] == "idx" and r[1] is not s.axes[0] and not arr.implied(r[1].mem(x), s.axes[0].mem(x)):
            unsup("assignment to rows outside the static table")
        s._setloc(k[0], mkscal(v.__as_num__()) if isinstance(v, PSol) and not v.dims else v)
        self.n.sstore[self.c, a] = s

    def __setitem__(self, a, v):
        if not isinstance(a, str) or self.idx is not W.cur.comp(self.c):
            unsup("assignment to the static table")
        self._setloc((slice(None), a), v)


class Attrs:
    """n.components[c]["attrs"]: defaults of the standard attributes; those of further link ports are as for the first"""

    def __init__(self, c):
        self.c = c
        import re
        self.d = {}
        names = {"Link": "links", "Generator": "generators", "StorageUnit": "storage_units", "Store": "stores", "Line": "lines",
                 "Transformer": "transformers", "Load": "loads", "Bus": "buses"}
        path = os.path.join(world.REPO, "pypsa", "data", "component_attrs", names.get(c, c.lower() + "s") + ".csv")
        with open(path) as f:
            for r in csv.DictReader(f):
                self.d[r["attribute"]] = r["default"]

    @property
    def loc(self): return self
    at = loc

    def __getitem__(self, k):
        if isinstance(k, tuple) and len(k) == 2 and k[1] == "default":
            a = k[0]
            if a not in self.d and self.c == "Link" and a[:1] == "p" and a[1:] in W.cur.ports:
                a = "p1"
            if a not in self.d:
                raise KeyError(a)
            v = self.d[a]
            try:
                return float(v)
            except ValueError:
                return v
        unsup("component attribute table")


class Components:
    def __init__(self, n): self.n = n
    def __getitem__(self, c): return {"attrs": Attrs(c)}
    def __call__(self, c): return world.SymComponent(self.n, c)


class PSol:
    """primal or dual values of one model variable / constraint"""

    def __init__(self, name, rows, cols, colname):
        self.name, self.rows, self.cols, self.colname = name, rows, cols, colname
        self.dims = (("snapshot",) if rows is not None else ()) + ((colname,) if cols is not None else ())

    def transpose(self, *a): return self

    def value(self, *ls): return value(self.name, *ls)

    def to_pandas(self):
        if self.rows is None and self.cols is None:
            raise ValueError("cannot convert a scalar")
        if self.rows is None:
            return Series([self.cols], lambda x: value(self.name, x))
        return Frame([self.rows, self.cols], lambda s, x: value(self.name, s, x))

    def __as_num__(self): return value(self.name)


def value(name, *ls):
    tags = {0: (), 1: ("L",), 2: ("TA", "L")}[len(ls)]
    if not ls:
        return Num(z3.Real("sol." + name))
    nan = uf("nosol." + name, tags, B)(*ls) if len(ls) == 2 else FALSE
    return Num(uf("sol." + name, tags, R)(*ls), (), nan)


class PItem:
    def __init__(self, sol): self.solution = self.dual = sol
    def __contains__(self, a): return a == "dual"


class PDict:
    def __init__(self, d): self.d = d
    def items(self): return list(self.d.items())
    def keys(self): return list(self.d)
    def __iter__(self): return iter(list(self.d))
    def __contains__(self, k): return k in self.d
    def __getitem__(self, k): return self.d[k]


class PModel:
    def __init__(self, w, variables, constraints=None):
        class _P:
            pass
        self.parameters = _P()
        self.parameters.snapshots = _P()
        self.parameters.snapshots.to_index = lambda: w.solved
        self.variables, self.constraints = PDict(variables), PDict(constraints or {})
        self.objective = _P()
        self.objective.value = mkscal(Num(z3.Real("objective.value")))

    def __getitem__(self, k): return self.variables[k]


class PNet(SymNetwork):
    def __init__(self, w, S, model):
        super().__init__(w, S)
        d = self.__dict__
        d["model"], d["store"], d["sstore"], d["touched"] = model, {}, {}, set()
        d["sub_networks"] = []
        d["components"] = Components(self)

    def static(self, c): return MStatic(c, self)
    df = static
    def dynamic(self, c): return Tables(self, c)
    pnl = dynamic

    def __getattr__(self, a):
        if a in world.LISTNAME:
            return MStatic(world.LISTNAME[a], self)
        if a.endswith("_t") and a[:-2] in world.LISTNAME:
            return Tables(self, world.LISTNAME[a[:-2]])
        if a == "global_constraints":
            return MStatic("GlobalConstraint", self)
        return SymNetwork.__getattr__(self, a)


class PW(W):
    """a network after a solve of some of its snapshots"""
    inputs = {("Link", "efficiency"), ("Load", "p_set")}

    def start(self):
        super().start()
        s = uf("solved", ("TA",), B)
        al = self.snapshots
        self.solved = Idx("snapshot", "TA", lambda t: AND(al.mem(t), s(t)), ("solved",), self.multi_index)

    def has_static(self, c, a):
        if c == "GlobalConstraint":
            return a in ("mu", "constant", "sense", "type")
        return super().has_static(c, a)


def cols_of(w, S, name):
    """labels of the component dimension of a variable"""
    c, a = name.split("-", 1)
    if a in ("status", "start_up", "shut_down"):
        return Idx(f"{c}-com", "L", lambda x: AND(w.mem(c, x), zb(SP.com(S, c, x))), ("com", c)), f"{c}-com"
    if a == SP.NOM.get(c):
        return Idx(f"{c}-ext", "L", lambda x: AND(w.mem(c, x), zb(SP.ext(S, c, x))), ("ext", c)), f"{c}-ext"
    return w.comp(c), c


VARS = {
    "Generator": ["p", "status", "start_up", "shut_down"], "Link": ["p", "status", "start_up", "shut_down"], "Line": ["s"], "Transformer": ["s"],
    "Store": ["e", "p"], "StorageUnit": ["p_dispatch", "p_store", "state_of_charge", "spill"],
}


def make_vars(w, S, c, some=True, losses=False):
    d = {}
    if not some:
        return d
    for a in VARS[c]:
        nm = f"{c}-{a}"
        ix, dim = cols_of(w, S, nm)
        d[nm] = PItem(PSol(nm, w.solved, ix, dim))
    if losses:
        d[f"{c}-loss"] = PItem(PSol(f"{c}-loss", w.solved, w.comp(c), c))
    nm = f"{c}-{SP.NOM[c]}"
    ix, dim = cols_of(w, S, nm)
    d[nm] = PItem(PSol(nm, None, ix, dim))
    mod = Idx(f"{c}-ext", "L", lambda x: AND(ix.mem(x), w.st(c, SP.NOM[c] + "_mod", x).t > 0), ("mod", c)) if w.has_static(c, SP.NOM[c] + "_mod") else None
    if mod is not None:
        d[f"{c}-n_mod"] = PItem(PSol(f"{c}-n_mod", None, mod, f"{c}-ext"))
    d["objective_constant"] = PItem(PSol("objective_constant", None, None, None))
    return d


# ------------------------------------------------------------------ contracts
def solution_tables(w, S, c, some, losses):
    """
    {attr: (columns, value(s, x))} for every table of class c which assign_solution writes.

    Where a model variable exists for the asset and the snapshot was solved: its primal value (0 where the variable is
    absent); everywhere else the previous value (0 where there was none).
    """
    def written(a, dom, val):
        col, old = old_cell(c, a)
        return (lambda x: OR(col(x), dom(x)),
                lambda s, x: ite(AND(w.solved.mem(s), dom(x)), nz(val(s, x)), ite(col(x), nz(old(s, x)), Num(0))))
    out = {}
    if some:
        for a in VARS[c] + (["loss"] if losses else []):
            nm = f"{c}-{a}"
            dom = cols_of(w, S, nm)[0].mem
            sol = lambda s, x, nm=nm: value(nm, s, x)
            if c in ("Line", "Transformer") and a == "s":
                out["p0"], out["p1"] = written("p0", dom, sol), written("p1", dom, lambda s, x, sol=sol: -sol(s, x))
            elif c == "Link" and a == "p":
                out["p0"] = written("p0", dom, sol)
                for i in w.ports:
                    e = "efficiency" + ("" if i == "1" else i)
                    bus = lambda x, i=i: w.st("Link", f"bus{i}", x) == core.strlab("")
                    out[f"p{i}"] = written(f"p{i}", dom, lambda s, x, e=e, bus=bus, sol=sol: ite(bus(x), Num(0), -(sol(s, x) * w.dense("Link", e, s, x, "TA"))))
            else:
                out[a] = written(a, dom, sol)
    if c == "StorageUnit":
        none = (lambda a: (lambda x: old_cell(c, a)[0](x), lambda s, x: old_cell(c, a)[1](s, x)))
        (d1, v1), (d2, v2) = (out[a] if a in out else none(a) for a in ("p_dispatch", "p_store"))
        # discharge minus charge, with the values the two tables hold after the call
        out["p"] = (lambda x: OR(d1(x), d2(x)), lambda s, x: ite(AND(d1(x), d2(x)), num(v1(s, x)) - num(v2(s, x)), Num(0, (), TRUE)))
    return out


def judge_tables(ctx, n, w, c, want):
    st = n.store.get(c, {})
    s, x = fresh("s", "TA"), fresh("x", "L")
    sp = ctx.snapshot()
    ctx.fact(w.snapshots.mem(s))
    for a in sorted(set(want) | set(st)):
        col, val = want[a] if a in want else old_cell(c, a)
        nm = f"{c}_t.{a}" + ("" if a in want else " unchanged")
        if a not in st:
            ctx._record(f"{nm}: written", "refuted", "the table is never written")
            continue
        f = st[a]
        t = fresh("t", "TA")
        ctx.prove(f"{nm}: rows are the network's snapshots", f.axes[0].mem(t) == w.snapshots.mem(t))
        ctx.prove(f"{nm}: columns", f.axes[1].mem(x) == zb(col(x)))
        sp2 = ctx.snapshot()
        ctx.fact(AND(zb(col(x)), f.axes[1].mem(x)))
        compare(ctx, nm, f.fn(s, x), val(s, x))
        ctx.restore(sp2)
    ctx.restore(sp)


def compare(ctx, nm, got, want):
    got, want = num(got), num(want)
    ctx.prove(f"{nm}: missing values", zb(got.nan) == zb(want.nan))
    ctx.prove_eq(f"{nm}: values", Num(got.t, got.sums), Num(want.t, want.sums), NOT(want.nan))


def judge_static(ctx, n, w, c, want):
    x = fresh("x", "L")
    sp = ctx.snapshot()
    ctx.fact(w.mem(c, x))
    for (cc, a) in sorted(set((c, a) for a in want) | {k for k in n.sstore if k[0] == c}):
        nm = f"{c}.{a}"
        if a not in want:
            ctx._record(f"{nm}: static column unchanged", "refuted", "written")
            continue
        if (c, a) not in n.sstore:
            compare(ctx, nm, w.st(c, a, x), want[a](x))
            continue
        f = n.sstore[c, a]
        ctx.prove(f"{nm}: rows", f.axes[0].mem(x))
        compare(ctx, nm, f.fn(x), want[a](x))
    ctx.restore(sp)


class PostTask:
    weight = 3

    def __init__(s, fn, label, body, cfg=None):
        s.mod, s.fn, s.cfg, s.body = O, fn, cfg or {}, body
        s.name = f"{O}.{fn}[{label}]"
        s.assumes = ["C09: the tables of the network have the network's snapshots as rows; every optimised snapshot is one of them; the components of a class and of its variables are "
                     "those of the solved model (no component added in between)",
                     "C09: primal and dual values are whatever linopy reports (`solution`, `dual`), missing where a variable or row is masked; voltage angles and dual signs only bounded"]

    def execute(s, budget):
        from dv.sym import SymS
        t0 = time.time()
        core.STATS.update(solver_s=0.0, queries=0, sliced=0, paths=0)
        res = dict(function=s.name, obligations=[], undecided=None, paths=0, solver_s=0.0, queries=0, sliced=0)
        try:
            ld, m, meth = load(s.mod)
            f = getattr(m, s.fn)
            w = PW(**s.cfg)

            def run(ctx):
                w.start()
                S = SymS(w)
                mark = len(core.UNSUP)
                try:
                    s.body(ctx, w, S, f, meth)
                finally:
                    if len(core.UNSUP) > mark:  # even if the code caught it
                        if core.UNSUP[mark] == "path ended":
                            raise PathAbort()
                        raise Unsupported(core.UNSUP[mark])
            for ctx, _ in explore(run, deadline=t0 + budget):
                res["obligations"] += ctx.obligations
            if not res["obligations"]:
                res["undecided"] = "no obligation generated"
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [y for y in tb if world.REPO in y.filename]
            res["undecided"] = f"outside the verified subset: {e} " + (f"{os.path.relpath(loc[-1].filename, world.REPO)}:{loc[-1].lineno}" if loc else "")
            res["tb"] = traceback.format_exc()
        except Exception as e:  # engine limitation
            res["undecided"] = f"{type(e).__name__}: {e}"
            res["tb"] = traceback.format_exc()
        res.update(paths=core.STATS["paths"], solver_s=core.STATS["solver_s"], queries=core.STATS["queries"], seconds=time.time() - t0)
        return res


def call(ctx, f, n):
    """False if the function raised (reported as an obligation)"""
    try:
        f(n)
        return True
    except (KeyError, ValueError, IndexError, AttributeError, TypeError) as e:
        loc = [y for y in traceback.extract_tb(e.__traceback__) if world.REPO in y.filename]
        last = traceback.extract_tb(e.__traceback__)[-1]
        if world.REPO not in last.filename and not isinstance(e, (KeyError, ValueError, IndexError)):
            raise Unsupported(f"{type(e).__name__}: {e} at {last.filename}:{last.lineno}")
        ctx.prove(f"no {type(e).__name__} ({e}) at {os.path.relpath(loc[-1].filename, world.REPO)}:{loc[-1].name}" if loc else f"no {type(e).__name__}", FALSE)
        return False


def others_untouched(ctx, n, classes):
    bad = sorted({c for c, _ in n.touched if c not in classes} | {c for c, _ in n.sstore if c not in classes})
    ctx._record("reads and writes only result tables of its own class", "refuted" if bad else "proved", f"also {bad}" if bad else "")


def body_solution(c, some, losses):
    def body(ctx, w, S, f, meth):
        n = PNet(w, S, PModel(w, make_vars(w, S, c, some, losses)))
        n.__dict__["_methods"].update(meth)
        if not call(ctx, f, n):
            return
        want = solution_tables(w, S, c, some, losses)
        if c == "StorageUnit":
            x = fresh("any", "L")
            if not ctx.branch(q_any(["L"], lambda l: w.mem(c, l))):
                want.pop("p", None)
        judge_tables(ctx, n, w, c, want)
        a = SP.NOM[c]
        opt = {a + "_opt": lambda x: ite(zb(SP.ext(S, c, x)), value(f"{c}-{a}", x), w.st(c, a, x))}
        if not some:  # no capacity variable: no extendable assets
            opt = {a + "_opt": lambda x: ite(zb(SP.ext(S, c, x)), w.st(c, a + "_opt", x), w.st(c, a, x))}
        judge_static(ctx, n, w, c, opt)
        others_untouched(ctx, n, {c})
        ctx.prove_eq("objective value", num(n.objective), num(n.model.objective.value))
    return body


# ------------------------------------------------------------------ duals
def body_duals(extra):
    """
    Bus-nodal_balance, Bus-meshed-nodal_balance: marginal_price; <c>-...-<side>: mu_<side>, if asked for;
    global constraints: mu
    """
    def body(ctx, w, S, f, meth):
        groups = []
        meshed = uf("meshed", ("L",), B)
        rows = {"Bus-nodal_balance": ("Bus", "marginal_price", lambda x: AND(w.mem("Bus", x), NOT(meshed(x)))),
                "Bus-meshed-nodal_balance": ("Bus", "marginal_price", lambda x: AND(w.mem("Bus", x), meshed(x)))}
        if extra:
            ext = lambda x: zb(SP.ext(S, "Generator", x))
            rows["Generator-fix-p-upper"] = ("Generator", "mu_upper", lambda x: AND(w.mem("Generator", x), NOT(ext(x))))
            rows["Generator-ext-p-upper"] = ("Generator", "mu_upper", lambda x: AND(w.mem("Generator", x), ext(x)))
            rows["Generator-fix-p-lower"] = ("Generator", "mu_lower", lambda x: AND(w.mem("Generator", x), NOT(ext(x))))
            rows["StorageUnit-energy_balance"] = ("StorageUnit", "mu_energy_balance", lambda x: w.mem("StorageUnit", x))
        cons = {k: PItem(PSol(k, w.solved, Idx(v[0], "L", v[2], ("row", k)), v[0])) for k, v in rows.items()}
        cons["GlobalConstraint-co2"] = PItem(PSol("GlobalConstraint-co2", None, None, None))
        n = PNet(w, S, PModel(w, {}, cons))
        n.__dict__["_methods"].update(meth)
        if not call(ctx, lambda n: f(n, True) if extra else f(n), n):
            return
        by = {}
        for k, (c, a, dom) in rows.items():
            by.setdefault(c, {}).setdefault(a, []).append((k, dom))
        for c, d in by.items():
            want = {}
            for a, ks in d.items():
                col, old = old_cell(c, a)

                def val(s, x, ks=ks, col=col, old=old):
                    v = ite(col(x), nz(old(s, x)), Num(0))
                    for k, dom in ks:
                        v = ite(AND(w.solved.mem(s), dom(x)), nz(value(k, s, x)), v)
                    return v
                want[a] = (lambda x, ks=ks, col=col: OR(col(x), *[dom(x) for _, dom in ks]), val)
            judge_tables(ctx, n, w, c, want)
        others_untouched(ctx, n, set(by) | {"GlobalConstraint"})
        co2 = core.strlab("co2")
        x = fresh("x", "L")
        ctx.fact(w.mem("GlobalConstraint", x))
        if not ctx.branch(qf(w.mem("GlobalConstraint", co2))):
            if extra:  # unspecified: whether a user-defined constraint gets a row of its own
                return
            ctx._record("GlobalConstraint.mu: unchanged without the constraint in the table", "proved" if ("GlobalConstraint", "mu") not in n.sstore else "refuted", "")
            return
        want = lambda l: ite(l == co2, value("GlobalConstraint-co2"), w.st("GlobalConstraint", "mu", l))
        judge_static(ctx, n, w, "GlobalConstraint", {"mu": want})
    return body


# ------------------------------------------------------------------ post-processing
class BusTable:
    """tables side by side with columns renamed to buses, possibly transposed / summed by bus"""

    def __init__(self, parts, stage): self.parts, self.stage = parts, stage

    @property
    def T(self):
        nxt = {"wide": "tall", "tall": "wide", "sum-tall": "sum", "sum": "sum-tall"}
        return BusTable(self.parts, nxt[self.stage])
    transpose = lambda s: s.T

    def groupby(self, by=None, level=None, axis=0, **k):
        if k or not (level in (0,) and by is None) or not ((self.stage == "tall" and axis == 0) or (self.stage == "wide" and axis == 1)):
            unsup("groupby of the bus table")
        return BusTable(self.parts, "g" + self.stage)

    def sum(self, *a, **k):
        if a or k or self.stage not in ("gtall", "gwide"):
            unsup("sum of the bus table")
        return BusTable(self.parts, "sum-tall" if self.stage == "gtall" else "sum")

    def reindex(self, index=None, columns=None, fill_value=None, **k):
        if k or not ((self.stage == "sum" and index is None) or (self.stage == "sum-tall" and columns is None)) or fill_value is None:
            unsup("reindex of the bus table")
        cols = columns if self.stage == "sum" else index
        w = W.cur

        def fn(s, b):
            r = Num(0)
            for f, m in self.parts:
                ax = f.axes[1]
                r = r + bsum(["L"], lambda x: nz(f.fn(s, x)), lambda x: AND(ax.mem(x), m.fn(x) == b))
            if num(fill_value).t is not None and not core.is_zero(num(fill_value).t):
                unsup("fill value")
            return r
        out = Frame([w.snapshots, cols], fn)
        return out if self.stage == "sum" else out.T


def concat_relabelled(orig):
    def f(objs, axis=0, **k):
        objs = list(objs)
        if objs and all(isinstance(o, arr.RelabelFrame) for o in objs) and axis in (1, "columns") and not k:
            for o in objs:
                if o.f.axes[0].tag != "TA" or not arr.same(o.f.axes[0], W.cur.snapshots):
                    unsup("rows of the bus table")
            return BusTable([(o.f, o.m) for o in objs], "wide")
        return orig(objs, axis=axis, **k)
    return f


CA = [("Generator", "p", "bus"), ("Store", "p", "bus"), ("Load", "p", "bus"), ("StorageUnit", "p", "bus"), ("Link", "p0", "bus0")]


def body_post(losses):
    def body(ctx, w, S, f, meth):
        variables = {}
        for c in ("Line", "Transformer"):
            if losses:
                variables[f"{c}-loss"] = PItem(PSol(f"{c}-loss", w.solved, w.comp(c), c))
        n = PNet(w, S, PModel(w, variables))
        n.__dict__["_methods"].update(meth)
        g = f.__globals__
        pdm = g["pd"]
        if losses:  # the flows were written by assign_solution
            for c in ("Line", "Transformer"):
                for a in ("p0", "p1"):
                    ctx.forall(["L"], lambda x, c=c, a=a: IMP(w.mem(c, x), w.dyncol(c, a, x)))
        saved = pdm.concat
        pdm.concat = concat_relabelled(saved)
        try:
            if not call(ctx, f, n):
                return
        finally:
            pdm.concat = saved
        wgt = lambda s: w.weight("objective", s) * (w.pweight("objective", w.per(s, "TA")) if w.multi else Num(1))
        # prices per unit of objective weight, in the solved snapshots
        col, old = old_cell("Bus", "marginal_price")
        want = {"marginal_price": (col, lambda s, b: ite(w.solved.mem(s), num(old(s, b)) / wgt(s), num(old(s, b))))}
        # loads
        lcol, lold = old_cell("Load", "p")
        load = {"p": (lambda x: OR(lcol(x), w.mem("Load", x)),
                      lambda s, x: ite(AND(w.solved.mem(s), w.mem("Load", x)),
                                       nz(w.dense("Load", "p_set", s, x, "TA") * ite(w.stf("Load", "active")(x), Num(1), Num(0))),
                                       ite(lcol(x), nz(lold(s, x)), Num(0))))}
        has_load = ctx.branch(q_any(["L"], lambda l: w.mem("Load", l)))

        def injection(s, b):
            r = Num(0)
            for c, a, bus in CA + [("Link", f"p{i}", f"bus{i}") for i in w.ports]:
                cc, v = load["p"] if (c == "Load" and has_load) else old_cell(c, a)
                sg = (lambda x: Num(-1)) if c == "Link" else (lambda x, c=c: w.st(c, "sign", x))
                r = r + bsum(["L"], lambda x: nz(num(v(s, x)) * sg(x)), lambda x: AND(zb(cc(x)), w.mem(c, x), w.st(c, bus, x) == b))
            return r
        want["p"] = (lambda b: w.mem("Bus", b), injection)
        judge_tables(ctx, n, w, "Bus", want)
        judge_tables(ctx, n, w, "Load", load if has_load else {})
        for c in ("Line", "Transformer"):
            d = {}
            if losses:
                for a in ("p0", "p1"):
                    cc, v = old_cell(c, a)
                    d[a] = (cc, lambda s, x, v=v: ite(w.solved.mem(s), num(v(s, x)) + nz(value(f"{c}-loss", s, x)) * Num(z3.RealVal("1/2")), num(v(s, x))))
            judge_tables(ctx, n, w, c, d)
        for c in ("Generator", "Store", "StorageUnit", "Link"):
            judge_tables(ctx, n, w, c, {})
        ctx._record("no static column is written", "refuted" if n.sstore else "proved", str(sorted(n.sstore)))
    return body


def tasks():
    out = []
    for c in VARS:
        cfgs = [dict(only=(c,))]
        if c == "Link":
            cfgs = [dict(only=(c,)), dict(only=(c,), ports=("1", "2"))]
        for cfg in cfgs:
            p = ",ports=2" if "ports" in cfg else ""
            for losses in ((False, True) if c in ("Line", "Transformer") else (False,)):
                out.append(PostTask("assign_solution", f"{c}{p}{',losses' if losses else ''}", body_solution(c, True, losses), cfg))
            if not p:
                out.append(PostTask("assign_solution", f"{c},no variables", body_solution(c, False, False), cfg))
    out.append(PostTask("assign_duals", "prices", body_duals(False)))
    out.append(PostTask("assign_duals", "all duals", body_duals(True)))
    for cfg in (dict(), dict(multi=True), dict(ports=("1", "2"))):
        for losses in (False, True):
            lab = ",".join(f"{k}={v}" for k, v in cfg.items())
            out.append(PostTask("post_processing", f"{lab or 'single'}{',losses' if losses else ''}", body_post(losses), cfg))
    return out
