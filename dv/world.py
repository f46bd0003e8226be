"""
The symbolic network handed to the code under verification, and the loader that
executes the real source of /repo against the symbolic pandas / numpy / xarray /
linopy model (arr.py).

Loading: the module source is read from /repo on every run, compiled unchanged
and executed with `__import__` redirected (pandas, numpy, xarray, linopy, scipy
-> symbolic model; pypsa.* -> loaded the same way or, for callees that have their
own contract, replaced by that contract) and `len` / `range` able to handle
symbolic sizes.  Nothing else is changed or dropped.
"""
from __future__ import annotations

import ast
import builtins
import functools
import os
import sys
import types
import warnings

from dv.core import z3

from dv import arr, core
from dv.arr import (DA, EMB, Coords, FirstOf, Frame, Idx, Lab, LA, LinExpr, NP, Scal, Series, SInt, Var, as_da, as_idx,
                    axis_sum, b_and, b_not, b_or, binop, check_same, ConDef, implied, lab_of, mems, mkscal, named,
                    reify, same, select, sel_axis, tob, to_da, unsup)
from dv.core import (AND, B, FALSE, IMP, INF, NANNUM, NOT, OR, QF, R, SB, TRUE, Ctx, I, L, Num, Unsupported, bsum,
                     fresh, is_false, is_true, ite, num, q_all, q_any, qf, rv, strlab, uf, zb)
from dv.specs import opt as SP

REPO = os.environ.get("DV_REPO", "/repo")
import pandas as realpd  # noqa: E402
import numpy as realnp  # noqa: E402


# ---------------------------------------------------------------- attributes
@functools.lru_cache(None)
def attrs(c):
    f = {"Generator": "generators", "Line": "lines", "Transformer": "transformers", "Link": "links", "Store": "stores",
         "StorageUnit": "storage_units", "Load": "loads", "Bus": "buses", "Carrier": "carriers",
         "ShuntImpedance": "shunt_impedances", "GlobalConstraint": "global_constraints", "LineType": "line_types",
         "TransformerType": "transformer_types", "SubNetwork": "sub_networks"}[c]
    d = realpd.read_csv(f"{REPO}/pypsa/data/component_attrs/{f}.csv", index_col=0, keep_default_na=False)
    out = {}
    for a, r in d.iterrows():
        if a == "name":
            continue
        kind = {"string": "lab", "boolean": "bool", "float": "num", "int": "num", "series": "num",
                "static or series": "num", "geometry": "geo"}.get(str(r["type"]), "num")
        df = str(r["default"])
        nan = kind == "num" and df.lower() in ("nan", "n/a", "")
        varying = "series" in str(r["type"])
        static = str(r["type"]) != "series"
        out[a] = (kind, nan, static, varying, str(r["status"]))
    return out


COMPS = ["Generator", "Line", "Transformer", "Link", "Store", "StorageUnit", "Load", "Bus", "Carrier",
         "ShuntImpedance", "LineType", "TransformerType"]
LISTNAME = {"generators": "Generator", "lines": "Line", "transformers": "Transformer", "links": "Link",
            "stores": "Store", "storage_units": "StorageUnit", "loads": "Load", "buses": "Bus",
            "carriers": "Carrier", "shunt_impedances": "ShuntImpedance", "line_types": "LineType",
            "transformer_types": "TransformerType"}


class W:
    """One symbolic scenario: facts about snapshots, periods and component tables."""

    cur: "W" = None

    def __init__(self, multi=False, multi_index=None, losses=0, linearized=False, rolling=False, ports=("1",),
                 custom=(), opaque_activity=True, glc=None, buscols=(), nonneg=(), only=None):
        self.only = only  # component classes (of SP.NOM) which may have assets; None: all
        self.multi, self.losses, self.linearized, self.rolling = multi, losses, linearized, rolling
        self.multi_index = multi if multi_index is None else multi_index
        self.ports, self.custom, self.opaque = tuple(ports), set(custom), opaque_activity
        self.glc, self.buscols, self.nonneg = glc, tuple(buscols), nonneg
        W.cur = self

    def start(self):
        """state and facts at the beginning of a path"""
        W.cur = self
        ctx = Ctx.cur
        self._idx = {}
        self._reif = {}
        self.N, self.NA = z3.Int("N"), z3.Int("NA")
        N, NA = self.N, self.NA
        ctx.fact(N >= 1)
        ctx.fact(NA >= N)
        ctx.fact(INF > 0)
        self.sns = Idx("snapshot", "T", lambda t: AND(t >= 0, t < N), ("sns",), self.multi_index)
        self.snapshots = Idx("snapshot", "TA", lambda t: AND(t >= 0, t < NA), ("snapshots",), self.multi_index)
        ctx.forall(["T"], lambda t: IMP(self.sns.mem(t), AND(EMB(t) >= 0, EMB(t) < NA)))
        ctx.forall(["T", "T"], lambda t, u: IMP(AND(self.sns.mem(t), self.sns.mem(u), t < u), EMB(t) < EMB(u)))
        z = EMB(z3.IntVal(0))
        ctx.fact(z > 0 if self.rolling else z == 0)
        self.K = z3.Int("K")
        if self.losses == "K":
            ctx.fact(self.K >= 1)
        if self.multi_index:
            self.inP = uf("inP", ("P",), B)
            self.perA = uf("perA", ("TA",), I)
            ctx.forall(["TA"], lambda s: IMP(self.snapshots.mem(s), self.inP(self.perA(s))))
            # a period is never the marker for "no period" (NaN after a shift)
            ctx.forall(["TA"], lambda s: IMP(self.snapshots.mem(s), self.perA(s) != arr.NOLAB_INT))
            ctx.forall(["TA", "TA"], lambda s, u: IMP(AND(self.snapshots.mem(s), self.snapshots.mem(u), s <= u),
                                                      self.perA(s) <= self.perA(u)))
            self.periods_all = Idx("period", "P", lambda p: self.inP(p), ("periods",))
            wit = uf("perwit", ("P",), I)
            sp = uf("snsper", ("P",), B)
            ctx.forall(["P"], lambda p: IMP(sp(p), AND(self.sns.mem(wit(p)), self.per(wit(p), "T") == p, self.inP(p))))
            ctx.forall(["T"], lambda t: IMP(self.sns.mem(t), sp(self.per(t, "T"))))
            self.P = Idx("period", "P", lambda p: sp(p), ("snsperiods",))
            self._snsper = sp
        self.nonneg_facts()

    def nonneg_facts(self):
        for c, a in self.nonneg:
            f = self.stf(c, a)
            Ctx.cur.forall(["L"], lambda x, f=f, c=c: IMP(self.mem(c, x), f(x) >= 0))

    # ---- snapshots / periods
    def per(self, t, tag):
        f = uf("perA", ("TA",), I)
        return f(EMB(t)) if tag == "T" else f(t)

    def period_index(self, idx):
        if idx.tag == "TA" and idx.base == ("snapshots",):
            p = self._reify("allper", ("P",), lambda p: q_any(["TA"], lambda s: AND(self.snapshots.mem(s), self.perA(s) == p)))
            return Idx("period", "P", lambda l: p(l), ("snapshotperiods",))
        if idx.tag == "T" and idx.base == ("sns",):
            return self.P
        unsup("periods of a snapshot subset")

    def _reify(self, key, tags, fn):
        if key not in self._reif:
            self._reif[key] = reify(tags, fn, key)
        return self._reif[key]

    def prev(self, ax, l):
        if ax.tag == "T":
            if ax.base != ("sns",):
                unsup("shift on a snapshot subset")
            return l >= 1, l - 1
        if ax.tag == "P":
            # previous period of the optimised periods
            pv, has = uf("prevP", ("P",), I), uf("hasprevP", ("P",), B)
            if "prevP" not in self._reif:
                self._reif["prevP"] = 1
                m = self.P.mem
                Ctx.cur.forall(["P"], lambda p: IMP(has(p), AND(m(pv(p)), pv(p) < p)))
                Ctx.cur.forall(["P", "P"], lambda p, q: IMP(AND(m(p), m(q), q < p), AND(has(p), q <= pv(p))))
            if ax.base not in (("snsperiods",),):
                unsup("shift on a period subset")
            return has(l), pv(l)
        unsup("shift")

    def lastp(self):
        f = uf("lastp", ("P",), I)
        if "lastp" not in self._reif:
            self._reif["lastp"] = 1
            m = self.sns.mem
            Ctx.cur.forall(["P"], lambda p: IMP(self._snsper(p), AND(m(f(p)), self.per(f(p), "T") == p)))
            Ctx.cur.forall(["T"], lambda t: IMP(m(t), t <= f(self.per(t, "T"))))
        return f

    def roll_src(self, ax, t):
        if ax.base == ("sns",):
            return z3.If(t == 0, self.N - 1, t - 1)
        if ax.base and ax.base[0] == "sns@":
            f = self.lastp()
            p = self.per(t, "T")
            return z3.If(AND(t >= 1, self.per(t - 1, "T") == p), t - 1, f(p))
        unsup("roll on a subset")

    def last_present(self, ax, i, pres, tags):
        """
        (last, has): last(.., t, ..) is the greatest position u <= t of the axis with pres(.., u, ..), if any.
        t may be any integer.  Definitional axioms, shared by syntactically equal predicates.
        """
        ctx = Ctx.cur
        if ctx.binder_consts():
            unsup("ffill inside a generic loop")
        probe = [arr.canon(t) if n == i else z3.Const(f"k:{n}:{t}", core.SORTS[t]) for n, t in enumerate(tags)]
        p = pres(*probe)
        key = None
        if not isinstance(p, QF) or p.kind == "atom":
            p = qf(p).args[0]
            g = z3.simplify(AND(ax.mem(probe[i]), p))
            key = ("last", i, tuple(tags), tuple(sorted(core._conjuncts(g, {}))))
            if key in self._reif:
                return self._reif[key]
        ctx.nlast += 1
        k = ctx.nlast
        last = uf(f"last{k}", tuple(tags), I)
        has = uf(f"haslast{k}", tuple(tags), B)
        m = ax.mem

        def a1(*ls):
            t, la = ls[i], last(*ls)
            at = ls[:i] + (la,) + ls[i + 1:]
            return QF("or", (qf(NOT(has(*ls))), QF("and", (qf(AND(m(la), la <= t)), qf(pres(*at))))))

        def a2(*ls):
            u, ls = ls[-1], ls[:-1]
            at = ls[:i] + (u,) + ls[i + 1:]
            return QF("or", (qf(NOT(AND(m(u), u <= ls[i]))), qf(b_not(pres(*at))), qf(AND(has(*ls), u <= last(*ls)))))
        ctx.forall(tags, a1)
        ctx.forall(list(tags) + [ax.tag], a2)
        if key is not None:
            self._reif[key] = (last, has)
        return last, has

    def last_pos(self, ax):
        if ax.base == ("sns",):
            return self.N - 1
        if ax.base and ax.base[0] == "sns@":
            f = self.lastp()
            t = z3.Int("anyT")
            m = ax.mem(t)
            return f(_period_of(m))
        unsup("last element of a subset")

    # ---- components
    def memf(self, c):
        if self.only is not None and c in SP.NOM and c not in self.only:
            return lambda x: FALSE
        return uf(f"in.{c}", ("L",), B)

    def mem(self, c, x):
        return self.memf(c)(x)

    def comp(self, c):
        if c not in self._idx:
            f = self.memf(c)
            self._idx[c] = Idx(c, "L", lambda x: f(x), ("comp", c))
        return self._idx[c]

    def arbitrary_subset(self, c):
        """any subset of the assets of c, in any order"""
        self._nsub = getattr(self, "_nsub", 0) + 1
        k = f"sub{self._nsub}"
        f = uf("in." + k, ("L",), B)
        full = self.comp(c)
        return Idx(c, "L", lambda x: AND(full.mem(x), f(x)), ("subset", k))

    def stf(self, c, a):
        k = self.kind(c, a)
        return uf(f"{c}.{a}", ("L",), {"num": R, "bool": B, "lab": L}[k])

    def kind(self, c, a):
        t = attrs(c).get(a)
        if t is None:
            if c == "Link" and a.startswith("bus"):
                return "lab"
            return "num"
        if t[0] == "geo":
            unsup("geometry attribute")
        return t[0]

    def can_nan(self, c, a):
        t = attrs(c).get(a)
        if t is None:
            return (c, a) in self.custom
        return t[1]

    def has_static(self, c, a):
        t = attrs(c).get(a)
        if t is not None and t[2] and a != "p_set_dummy":
            return True
        if c in ("Line", "Transformer") and a in ("x_pu_eff", "r_pu_eff", "x_pu", "r_pu"):
            return True
        if c == "Link" and any(a == f"bus{p}" or a == f"efficiency{p}" for p in self.ports if p != "1"):
            return True
        return (c, a) in self.custom

    def st(self, c, a, x):
        k = self.kind(c, a)
        v = self.stf(c, a)(x)
        if k == "num":
            nan = uf(f"nan.{c}.{a}", ("L",), B)(x) if self.can_nan(c, a) else FALSE
            return Num(v, (), nan)
        return v

    def columns(self, c):
        cols = [a for a, t in attrs(c).items() if t[2] and t[0] != "geo"]
        if c == "Link":
            for p in self.ports:
                if p != "1":
                    cols += [f"bus{p}", f"efficiency{p}"]
        cols += sorted(a for cc, a in self.custom if cc == c)
        if c == "Bus":
            cols += [x for x in self.buscols if x not in cols]
        return cols

    # dynamic data
    def has_dyn(self, c, a):
        t = attrs(c).get(a)
        if t is not None:
            return t[3]
        if c == "Link" and a.startswith("efficiency") and a[10:] in self.ports:
            return True
        if c == "Link" and a.startswith("p") and a[1:] in self.ports:
            return True
        return ("dyn", c, a) in self.custom

    def dyncol(self, c, a, x):
        if (c, a) in (("Generator", "status"), ("Link", "status")) and self.rolling:
            pass
        return AND(uf(f"dyncol.{c}.{a}", ("L",), B)(x), self.mem(c, x))

    def dynA(self, c, a, s, x):
        v = uf(f"{c}_t.{a}", ("TA", "L"), R)(s, x)
        nan = uf(f"nan.{c}_t.{a}", ("TA", "L"), B)(s, x) if (("dyn", c, a) in self.custom or self.can_nan(c, a)) else FALSE
        return Num(v, (), nan)

    def dense(self, c, a, t, x, tag="T"):
        s = EMB(t) if tag == "T" else t
        if not self.has_dyn(c, a):
            return self.st(c, a, x)
        return ite(self.dyncol(c, a, x), self.dynA(c, a, s, x), self.st(c, a, x))

    # activity
    def active_in(self, c, x, p):
        if self.opaque:
            f = uf(f"act.{c}", ("P", "L"), B)
            key = f"actfact.{c}"
            if key not in self._reif:
                self._reif[key] = 1
            return f(p, x)
        return self.active_def(c, x, p)

    is_period = None

    def active_any(self, c, x, mem=None):
        f, wit = uf(f"actany.{c}", ("L",), B), uf(f"actanywit.{c}", ("L",), I)
        if f"actany.{c}" not in self._reif:
            self._reif[f"actany.{c}"] = 1
            m = self.P.mem
            Ctx.cur.forall(["L"], lambda x: IMP(f(x), AND(m(wit(x)), self.active_in(c, x, wit(x)))))
            Ctx.cur.forall(["P", "L"], lambda p, x: IMP(AND(m(p), self.active_in(c, x, p)), f(x)))
        return f(x)

    def active_def(self, c, x, p):
        b, l = self.st(c, "build_year", x).t, self.st(c, "lifetime", x).t
        pr = z3.ToReal(p)
        return AND(self.stf(c, "active")(x), b <= pr, pr < b + l)

    def active(self, c, t, x, tag="T"):
        if self.multi:
            return self.active_in(c, x, self.per(t, tag))
        return self.stf(c, "active")(x)

    # ---- weights
    def weight(self, col, s):
        return Num(uf(f"w.{col}", ("TA",), R)(s))

    def pweight(self, col, p):
        return Num(uf(f"pw.{col}", ("P",), R)(p))

    # ---- variables of the model (contracts of variables.py)
    def variables(self, S):
        if not hasattr(self, "_vars") or self._vars_for is not S:
            self._vars_for = S
            v = {}
            for c, a in SP.DISPATCH + [("Store", "p")]:
                v.update({s.name: (s, ("any", c)) for s in SP.var_operational(S, c, a)})
            for c in SP.NOM:
                v.update({s.name: (s, ("ext", c)) for s in SP.var_nominal(S, c)})
                v.update({s.name: (s, ("mod", c)) for s in SP.var_modular(S, c)})
            for c in ("Generator", "Link"):
                v.update({s.name: (s, ("com", c)) for s in SP.var_uc(S, c)})
            for c in SP.PASSIVE:
                if self.losses:
                    v.update({s.name: (s, ("any", c)) for s in SP.var_loss(S, c)})
            v.update({s.name: (s, ("spill", "StorageUnit")) for s in SP.var_spill(S)})
            self._vars = v
        return self._vars

    def exists(self, S, name):
        """formula: the model contains a variable of this name"""
        spec, (how, c) = self.variables(S)[name]
        m = lambda x: self.mem(c, x)
        if how == "any":
            return q_any(["L"], m)
        if how == "ext":
            return q_any(["L"], lambda x: AND(m(x), SP.ext(S, c, x)))
        if how == "com":
            return q_any(["L"], lambda x: AND(m(x), SP.com(S, c, x)))
        if how == "mod":
            return q_any(["L"], lambda x: AND(m(x), spec.dom(x)))
        return q_any(["T", "L"], lambda t, x: AND(self.sns.mem(t), m(x), S.gt(S.dense(c, "inflow", t, x), 0)))


def _period_of(m):
    """p in a membership term  0<=t<N and per(t)==p"""
    for e in arr.conj(m):
        if z3.is_eq(e) and e.arg(0).sort() == I:
            a, b = e.arg(0), e.arg(1)
            if "perA" in a.sexpr():
                return b
            if "perA" in b.sexpr():
                return a
    unsup("period of a subset")


# ---------------------------------------------------------------- model values
VARFN: dict = {}


def var_value(S, name, *key):
    """value of a model variable under the arbitrary valuation; 0 where absent"""
    w = W.cur
    vs = w.variables(S)
    if name not in vs:
        return Num(0), FALSE
    spec, _ = vs[name]
    tags = tuple(a.tag for a in spec.axes)
    f = uf("v." + name, tags, R)
    dom = AND(*[a.mem(l) for a, l in zip(spec.axes, key)], zb(spec.dom(*key)))
    return ite(dom, Num(f(*key)), Num(0)), dom


def dims_of(name):
    c, a = name.split("-", 1)
    if a in SP.NOM.values() and a == SP.NOM.get(c) or a == "n_mod":
        return [f"{c}-ext"]
    if a in ("status", "start_up", "shut_down"):
        return ["snapshot", f"{c}-com"]
    return ["snapshot", c]


class SymModel:
    def __init__(self, S):
        self.S = S
        self.cons, self.vars_added = [], []
        self.variables = Variables(self)
        self._objective = None

    def __getitem__(self, name):
        w = W.cur
        name = str(name)
        vs = w.variables(self.S)
        if name not in vs:
            if any(name.startswith(c) for c in COMPS):
                raise KeyError(name)
            unsup(f"variable {name}")
        if not Ctx.cur.branch(w.exists(self.S, name)):
            raise KeyError(name)
        spec, (how, c) = vs[name]
        axes = []
        for a, d in zip(spec.axes, dims_of(name)):
            if a.tag == "T":
                axes.append(a)
            else:
                memf = {"any": lambda x: TRUE, "spill": lambda x: TRUE,
                        "ext": lambda x: SP.ext(self.S, c, x), "com": lambda x: SP.com(self.S, c, x),
                        "mod": lambda x: zb(spec.dom(x))}[how]
                axes.append(a.clone(name=d, mem=lambda x, a=a, memf=memf: AND(a.mem(x), zb(memf(x)))))
        f = lambda *k: var_value(self.S, name, *k)[0]
        p = lambda *k: var_value(self.S, name, *k)[1]
        return Var(axes, f, pres=p, vname=name)

    def linexpr(self, *terms):
        return linexpr(terms)

    def add_constraints(self, lhs, sign=None, rhs=None, name=None, coords=None, mask=None):
        if isinstance(lhs, ConDef):
            if sign is not None:
                unsup("constraint with sign and definition")
            sign, e = lhs.sign, lhs.expr
            if not isinstance(e, LinExpr):
                unsup("constraint expression")
            self._record(name, e, sign, TRUE, mask)
            return
        if isinstance(lhs, (tuple, list)):
            lhs = linexpr(lhs)
        if not isinstance(lhs, LinExpr):
            unsup(f"constraint on {type(lhs)}")
        sign = "=" if sign == "==" else sign
        nan = None
        if isinstance(rhs, LA) and not rhs.linopy and rhs.axes:
            r = as_da_dims(rhs, lhs.axes)
            extra = set(a.name for a in r.axes) - set(a.name for a in lhs.axes)
            if extra:
                unsup(f"right-hand side has extra dimensions {extra}")
            # linopy reindexes the right-hand side to the expression
            for i, a in enumerate(list(r.axes)):
                la = next(x for x in lhs.axes if x.name == a.name)
                if not same(a, la):
                    r2 = arr.reindex_axis(r, i, la)
                    r = DA(r2.axes, r2.fn, r.kind)
            pos = [next(k for k, x in enumerate(lhs.axes) if x.name == a.name) for a in r.axes]
            rf = r.fn
            nan = lambda *ls: num(rf(*[ls[k] for k in pos])).nan
            lf = lhs.fn
            e = LinExpr(lhs.axes, lambda *ls: num(lf(*ls)) - strip(num(rf(*[ls[k] for k in pos]))), pres=lhs.pres)
        elif isinstance(rhs, (int, float, Num)) or isinstance(rhs, Scal) or isinstance(rhs, SInt) or (isinstance(rhs, LA) and not rhs.linopy) or hasattr(rhs, "dtype"):
            v = num(rhs)
            nan = (lambda *ls: v.nan) if not is_false(v.nan) else None
            lf = lhs.fn
            e = LinExpr(lhs.axes, lambda *ls: num(lf(*ls)) - strip(v), pres=lhs.pres)
        elif isinstance(rhs, LinExpr):
            e = lhs - rhs
        else:
            unsup(f"right-hand side {type(rhs)}")
        self._record(name, e, sign, nan, mask)

    def _record(self, name, e, sign, nan, mask):
        if name is None:
            unsup("unnamed constraint")
        axes = list(e.axes)
        if mask is not None:
            if not isinstance(mask, LA):
                unsup("mask type")
            m = to_da(mask) if not isinstance(mask, DA) else mask
            names = [a.name for a in axes]
            for a in m.axes:
                if a.name not in names:
                    unsup(f"mask dimension {a.name} not among {names}")
                if not same(a, axes[names.index(a.name)]):
                    unsup("mask index differs from the expression's")
            pos = [names.index(a.name) for a in m.axes]
            mf = m.fn
            mk = lambda *ls: tob(mf(*[ls[k] for k in pos]))
        else:
            mk = None
        nanf = nan if callable(nan) else None

        def dom(*ls):
            d = mems(axes, ls)
            if mk is not None:
                d = b_and(d, mk(*ls))
            if nanf is not None:
                d = b_and(d, NOT(nanf(*ls)))
            return d
        Ctx.cur.no_binders(e, dom, axes)
        self.cons.append(dict(name=str(name), axes=axes, fn=e.fn, pres=e.pres, sign=sign, dom=dom))

    def add_variables(self, lower=None, upper=None, coords=None, name=None, mask=None, binary=False, integer=False, **k):
        if k:
            unsup(f"add_variables {list(k)}")
        w = W.cur
        axes = None
        if coords is not None:
            axes = [c if isinstance(c, Idx) else unsup("coords") for c in coords]
        else:
            for b in (lower, upper):
                if isinstance(b, LA) and b.axes:
                    axes = list(b.axes)
            axes = axes or []
        bad = [a.name for a in axes if a.name is None]
        if bad:
            unsup("unnamed dimension")

        def bound(b):
            if b is None:
                return None
            if isinstance(b, LA) and b.axes:
                d = as_da_dims(b, axes)
                for a in d.axes:
                    same_name = [x for x in axes if x.name == a.name]
                    check_same(a, same_name[0] if same_name else unsup("bound dims"))
                pos = [[x.name for x in axes].index(a.name) for a in d.axes]
                return lambda *ls: num(d.fn(*[ls[i] for i in pos]))
            return lambda *ls: num(b)
        mk = None
        if mask is not None:
            m = to_da(mask) if not isinstance(mask, DA) else mask
            names = [a.name for a in axes]
            for a in m.axes:
                if a.name not in names or not same(a, axes[names.index(a.name)]):
                    unsup("variable mask")
            pos = [names.index(a.name) for a in m.axes]
            mk = lambda *ls: tob(m.fn(*[ls[i] for i in pos]))

        def dom(*ls):
            d = mems(axes, ls)
            return d if mk is None else b_and(d, mk(*ls))
        self.vars_added.append(dict(name=name, axes=axes, lower=bound(lower), upper=bound(upper), dom=dom,
                                    kind="binary" if binary else "integer" if integer else "continuous"))
        lo = bound(lower)
        if name == "objective_constant":
            return ConstVar(lo())
        return None

    @property
    def objective(self): return self._objective
    @objective.setter
    def objective(self, v): self._objective = v


class ConstVar(Var):
    """variable fixed to a value"""

    def __init__(self, v):
        f = uf("v.objective_constant", (), R)
        super().__init__([], lambda: Num(f), pres=lambda: TRUE)


def strip(v):
    return Num(v.t, v.sums)


class Variables:
    def __init__(self, m): self.m = m
    def __contains__(self, name):
        vs = W.cur.variables(self.m.S)
        if name not in vs:
            unsup(f"variable {name}")
        return bool(W.cur.exists(self.m.S, name))
    def __getitem__(self, name): return self.m[name]


def as_da_dims(x, like):
    """linopy as_dataarray(x, coords, dims): unnamed axes take the dims by position"""
    if isinstance(x, DA):
        return x
    if isinstance(x, NP):
        return to_da(x, like)
    axes = []
    for i, a in enumerate(x.axes):
        if a.name is None:
            if i >= len(like):
                unsup("unnamed axis")
            a = a.rename(like[i].name)
        axes.append(a)
    return DA(axes, x.fn, x.kind, x.ltag)


def linexpr(terms):
    r = None
    for t in terms:
        if isinstance(t, tuple) and len(t) == 2:
            co, v = t
            if not isinstance(v, LinExpr):
                unsup("linexpr term")
            if isinstance(co, LA) and not isinstance(co, DA) and co.axes:
                co = as_da_dims(co, v.axes)
            e = v * co
        elif isinstance(t, LinExpr):
            e = t
        else:
            unsup("linexpr term")
        if not isinstance(e, LinExpr):
            unsup("linexpr term type")
        r = e if r is None else r + e
    return r


# ---------------------------------------------------------------- static tables
class Columns(list):
    """names of static columns; concrete"""

    @property
    def str(self): return ColStr(self)
    def __getitem__(self, k):
        if isinstance(k, list) and k and all(isinstance(x, bool) for x in k):
            return Columns([c for c, b in zip(self, k) if b])
        r = list.__getitem__(self, k)
        return r


class ColStr:
    def __init__(self, c): self.c = c
    def startswith(self, p): return [x.startswith(p) for x in self.c]


class StaticFrame:
    """n.static(c), possibly restricted to a subset of its rows"""

    def __init__(self, c, idx=None, full=True):
        self.c = c
        self.idx = idx if idx is not None else W.cur.comp(c)
        self._over = {}

    @property
    def index(self): return self.idx.clone()
    @property
    def columns(self): return Columns(W.cur.columns(self.c))
    @property
    def empty(self): return self.idx.empty
    @property
    def size(self): return arr.Size([self.idx])
    @property
    def loc(self): return arr.Loc(self)
    at = loc

    def __contains__(self, a): return W.cur.has_static(self.c, a)
    def __iter__(self): return iter(W.cur.columns(self.c))

    def _col(self, a):
        w = W.cur
        if a not in self:
            raise KeyError(a)
        k = w.kind(self.c, a)
        full = w.comp(self.c)
        idx, c = self.idx, self.c
        if idx is full or implied(idx.mem(arr.canon("L")), full.mem(arr.canon("L"))):
            fn = lambda x: w.st(c, a, x)
        else:
            fn = lambda x: arr.miss(full.mem(x), w.st(c, a, x))
        s = Series([idx], fn, k, "L")
        s.name = a
        return s

    def __getitem__(self, k):
        if callable(k) and not isinstance(k, (LA, Idx)):
            k = k(self)
        if isinstance(k, str):
            return self._col(k)
        if isinstance(k, Series) and k.kind == "bool":
            r = sel_axis(self.idx, k)
            return StaticFrame(self.c, r[1])
        if isinstance(k, (list, tuple)) and all(isinstance(x, str) for x in k):
            return StaticCols(self, list(k))
        unsup(f"static[{type(k)}]")

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        if W.cur.has_static(self.c, a):
            return self._col(a)
        if a in ("iterrows", "assign", "drop", "groupby", "copy", "filter", "merge", "join", "apply", "items", "sort_index",
                 "drop_duplicates", "to_xarray", "T", "values", "isnull", "notnull", "get"):
            unsup(f"static.{a}")
        raise AttributeError(a)

    def get(self, a, default=None):
        return self._col(a) if a in self else default

    def _loc(self, k):
        if isinstance(k, tuple):
            r, c = k
            if isinstance(c, str):
                return self._col(c).loc[r]
            unsup("static.loc")
        if callable(k) and not isinstance(k, (LA, Idx)):
            k = k(self)
        r = sel_axis(self.idx, k)
        if r[0] == "pt":
            unsup("static row")
        return StaticFrame(self.c, r[1])

    def _setloc(self, k, v): unsup("assignment to the static table")
    def __setitem__(self, k, v): unsup("assignment to the static table")

    def reindex(self, idx=None, index=None, **k):
        if k:
            unsup("static.reindex")
        idx = idx if idx is not None else index
        return StaticFrame(self.c, as_idx(idx))

    def eval(self, expr):
        fr = sys._getframe(1)
        env = _caller_env(fr)
        return Evaler(self, env).run(expr)

    def query(self, expr):
        fr = sys._getframe(1)
        env = _caller_env(fr)
        r = Evaler(self, env).run(expr)
        if isinstance(r, Series) and r.kind == "bool":
            return self[r]
        unsup("query result")


class StaticCols:
    def __init__(self, f, cols): self.f, self.cols = f, cols

    def notnull(self): return StaticColsB(self, lambda v: NOT(v.nan) if isinstance(v, Num) else TRUE)
    notna = notnull
    def isnull(self): return StaticColsB(self, lambda v: v.nan if isinstance(v, Num) else FALSE)


class StaticColsB:
    def __init__(self, s, f): self.s, self.f = s, f

    def any(self, axis=0):
        if axis not in (1, "columns"):
            unsup("any over rows")
        cols = [self.s.f._col(c) for c in self.s.cols]
        return Series([self.s.f.idx], lambda x: OR(*[self.f(c.fn(x)) for c in cols]), "bool")

    def all(self, axis=0):
        if axis not in (1, "columns"):
            unsup("all over rows")
        cols = [self.s.f._col(c) for c in self.s.cols]
        return Series([self.s.f.idx], lambda x: AND(*[self.f(c.fn(x)) for c in cols]), "bool")


def _caller_env(fr):
    env = dict(fr.f_globals)
    env.update(fr.f_locals)
    return env


class Evaler:
    """pandas query / eval expressions on a static table"""

    def __init__(self, f, env): self.f, self.env = f, env

    def run(self, expr):
        tree = ast.parse(expr.strip().replace("@", "__AT__"), mode="eval").body
        return self.ev(tree)

    def ev(self, e):
        if isinstance(e, ast.BoolOp):
            r = self.ev(e.values[0])
            for v in e.values[1:]:
                x = self.ev(v)
                r = (r & x) if isinstance(e.op, ast.And) else (r | x)
            return r
        if isinstance(e, ast.UnaryOp):
            v = self.ev(e.operand)
            if isinstance(e.op, ast.Not) or isinstance(e.op, ast.Invert):
                return ~v
            return -v
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left), self.ev(e.right)
            op = {ast.Add: lambda: a + b, ast.Sub: lambda: a - b, ast.Mult: lambda: a * b, ast.Div: lambda: a / b,
                  ast.Pow: lambda: a ** b, ast.BitAnd: lambda: a & b, ast.BitOr: lambda: a | b}.get(type(e.op))
            return op() if op else unsup("eval operator")
        if isinstance(e, ast.Compare):
            out = None
            left = self.ev(e.left)
            for op, c in zip(e.ops, e.comparators):
                right = self.ev(c)
                r = self.cmp(type(op), left, right)
                out = r if out is None else out & r
                left = right
            return out
        if isinstance(e, ast.Name):
            if e.id.startswith("__AT__"):
                v = self.env[e.id[6:]]
                return v
            if e.id in self.f:
                return self.f._col(e.id)
            if e.id == "inf":
                return float("inf")
            unsup(f"name {e.id} in eval")
        if isinstance(e, ast.Attribute):
            return getattr(self.ev(e.value), e.attr)
        if isinstance(e, ast.Constant):
            return e.value
        if isinstance(e, ast.List):
            return [self.ev(x) for x in e.elts]
        unsup("eval syntax")

    def cmp(self, op, a, b):
        if op in (ast.In, ast.NotIn):
            r = a.isin(b)
            return ~r if op is ast.NotIn else r
        if isinstance(b, Lab):
            b = mkscal(Num(z3.ToReal(b.t))) if b.tag == "P" and isinstance(a, Series) and a.kind == "num" else b
        if isinstance(a, Lab):
            a2 = mkscal(Num(z3.ToReal(a.t))) if a.tag == "P" else a
            a = a2
        flip = {ast.Lt: ast.Gt, ast.LtE: ast.GtE, ast.Gt: ast.Lt, ast.GtE: ast.LtE}
        if not isinstance(a, LA) or (not a.axes and isinstance(b, LA) and b.axes):
            a, b, op = b, a, flip.get(op, op)
        return {ast.Lt: lambda: a < b, ast.LtE: lambda: a <= b, ast.Gt: lambda: a > b, ast.GtE: lambda: a >= b,
                ast.Eq: lambda: a == b, ast.NotEq: lambda: a != b}[op]()


class DynDict:
    def __init__(self, c): self.c = c

    def __contains__(self, a): return W.cur.has_dyn(self.c, a)
    def keys(self):
        w = W.cur
        return [a for a in attrs(self.c) if w.has_dyn(self.c, a)] + [a for k in w.custom if len(k) == 3 and k[1] == self.c for a in [k[2]]]
    def __iter__(self): return iter(self.keys())
    def get(self, a, default=None): return self[a] if a in self else default

    def __getitem__(self, a):
        w, c = W.cur, self.c
        if a not in self:
            raise KeyError(a)
        cols = Idx(c, "L", lambda x: w.dyncol(c, a, x), ("dyncol", c, a))
        return Frame([w.snapshots, cols], lambda s, x: w.dynA(c, a, s, x))

    def __getattr__(self, a):
        if a.startswith("_"):
            raise AttributeError(a)
        return self[a]


class WeightFrame:
    def __init__(self, kind): self.kind = kind

    def __getitem__(self, col):
        w = W.cur
        if self.kind == "sw":
            if not isinstance(col, str):
                unsup("weightings[]")
            return Series([w.snapshots], lambda s: w.weight(col, s))
        return Series([w.periods_all], lambda p: w.pweight(col, p))

    def __getattr__(self, a):
        if a in ("objective", "stores", "generators", "years"):
            return self[a]
        raise AttributeError(a)

    @property
    def loc(self): return arr.Loc(self)

    def _loc(self, k):
        return WeightSel(self, k)


class WeightSel:
    """weightings restricted to some snapshots / multiplied by period weights"""

    def __init__(self, base, k, mulby=None): self.base, self.k, self.mulby = base, k, mulby
    def mul(self, o, level=None, axis=None):
        if level != 0 or self.mulby is not None:
            unsup("weightings.mul")
        return WeightSel(self.base, self.k, o)

    def __getitem__(self, col):
        s = self.base[col].loc[self.k]
        return s if self.mulby is None else s.mul(self.mulby, level=0)

    def __getattr__(self, a):
        if a in ("objective", "stores", "generators", "years"):
            return self[a]
        raise AttributeError(a)


class SymNetwork:
    def __init__(self, w, S):
        d = self.__dict__
        d["_w"], d["_S"] = w, S
        d["model"] = SymModel(S)
        d["written"] = {}
        d["_methods"] = {}

    def static(self, c): return StaticFrame(c)
    df = static
    def dynamic(self, c): return DynDict(c)
    pnl = dynamic

    def __setattr__(self, k, v):
        self.written[k] = v
        self.__dict__[k] = v

    def __getattr__(self, a):
        w = self.__dict__["_w"]
        if a in self.__dict__["_methods"]:
            return functools.partial(self._methods[a], self)
        if a in LISTNAME:
            return StaticFrame(LISTNAME[a])
        if a.endswith("_t") and a[:-2] in LISTNAME:
            return DynDict(LISTNAME[a[:-2]])
        if a == "snapshots":
            return w.snapshots.clone()
        if a == "investment_periods":
            if not w.multi_index:
                unsup("investment periods of a single-period model")
            return w.periods_all
        if a == "snapshot_weightings":
            return WeightFrame("sw")
        if a == "investment_period_weightings":
            return WeightFrame("pw")
        if a == "_multi_invest":
            return int(w.multi)
        if a == "_linearized_uc":
            return int(w.linearized)
        if a == "passive_branch_components":
            return {"Line", "Transformer"}
        if a == "branch_components":
            return ["Line", "Link", "Transformer"]
        if a == "one_port_components":
            return {"Generator", "Load", "Store", "StorageUnit", "ShuntImpedance"}
        if a == "global_constraints":
            return w.glc
        if a == "component" or a == "components":
            return lambda c: SymComponent(self, c)
        if a.startswith("__"):
            raise AttributeError(a)
        unsup(f"network attribute {a}")


class SymComponent:
    def __init__(self, n, c): self.n, self.name = n, c
    @property
    def static(self): return self.n.static(self.name)
    @property
    def dynamic(self): return self.n.dynamic(self.name)
    @property
    def n_save(self): return self.n
    def __getattr__(self, a):
        if a == "get_active_assets":
            f = self.n._methods.get("component.get_active_assets")
            return functools.partial(f, self)
        raise AttributeError(a)


# ---------------------------------------------------------------- shims
class Dummy:
    """an import that the verified functions do not use"""

    def __init__(self, name): object.__setattr__(self, "_n", name)
    def __getattr__(self, a):
        if a.startswith("__") and a.endswith("__") and not a.startswith("__version"):
            raise AttributeError(a)
        return Dummy(f"{self._n}.{a}")
    def __call__(self, *a, **k):
        raise Unsupported(f"call of {self._n}")
    def __mro_entries__(self, bases): return (object,)
    def __or__(self, o): return self
    __ror__ = __or__
    def __getitem__(self, k): return self


def shim_type(name, check, construct=None, **ns):
    class M(type):
        def __instancecheck__(cls, x): return check(x)
        def __call__(cls, *a, **k):
            if construct is None:
                unsup(f"construct {name}")
            return construct(*a, **k)
        def __getattr__(cls, a):
            if a.startswith("__"):
                raise AttributeError(a)
            return Dummy(f"{name}.{a}")
    return M(name, (), ns)


class RepeatList:
    def __init__(self, lst, k): self.lst, self.k = lst, k


class SymRange:
    def __init__(self, a, b): self.a, self.b = a, b

    def __iter__(self):
        ctx = Ctx.cur
        w = W.cur
        a, b = _int(self.a), _int(self.b)
        if not ctx.branch(qf(a < b)):
            return
        st = ctx.snapshot()
        ctx.assume(qf(OR(a != 1, b != w.K + 1)))
        r, _ = ctx.check(timeout=3000)
        ctx.restore(st)
        if r == z3.unsat:
            g = z3.Int("kgen")
        else:
            g = fresh("k", "K")
        ctx.open_binder(g, None, "K")
        ctx.assume(qf(AND(g >= a, g < b)))
        yield SInt(g)
        ctx.close_binder(g)


def _int(x):
    return x.t if isinstance(x, SInt) else z3.IntVal(int(x))


def sym_len(x):
    if isinstance(x, Idx):
        w = W.cur
        if x.tag == "T" and x.base == ("sns",):
            return SInt(w.N)
        if x.tag == "TA" and x.base == ("snapshots",):
            return SInt(w.NA)
        return SymLen(x)
    if isinstance(x, RevPrefix):
        return SInt(x.start)
    if isinstance(x, Frame) or isinstance(x, Series):
        return sym_len(x.axes[0])
    if isinstance(x, StaticFrame):
        return SymLen(x.idx)
    return builtins.len(x)


class SymLen:
    """number of elements of an index; comparisons with 0 only"""

    def __init__(self, idx): self.idx = idx
    def __eq__(s, o): return s.idx.empty if isinstance(o, int) and o == 0 else (True if isinstance(o, SymLen) and same(s.idx, o.idx) else unsup("length compare"))
    def __gt__(s, o): return s.idx.empty.neg() if o == 0 else unsup("length compare")
    def __ne__(s, o): return s.idx.empty.neg() if o == 0 else unsup("length compare")
    def __bool__(s): return bool(s.idx.empty.neg())
    def __rmul__(s, lst): return RepeatList(lst, s)
    __hash__ = object.__hash__


def sym_range(*a):
    if any(isinstance(x, (SInt, SymLen)) for x in a):
        if len(a) == 1:
            a = (0, a[0])
        if len(a) > 2:
            unsup("range step")
        return SymRange(*a)
    return builtins.range(*a)


class RevPrefix:
    """frame.iloc[:start][::-1]: rows before the horizon, latest first (0/1 data)"""

    def __init__(self, w, start, cols, fn, reverse=True):
        self.w, self.start, self.cols, self.fn, self.reverse = w, start, cols, fn, reverse
    def reindex(self, columns=None):
        if columns is None or not arr.subset(columns, self.cols):
            unsup("prefix reindexed to unknown columns")
        return RevPrefix(self.w, self.start, columns, self.fn, self.reverse)
    def astype(self, ty):
        if ty is not bool and ty is not int and ty is not float:
            unsup("astype")
        return self
    def __invert__(self):
        f = self.fn
        return RevPrefix(self.w, self.start, self.cols, lambda s, x: NOT(f(s, x)), self.reverse)
    def cumsum(self): return RevCum(self) if self.reverse else unsup("forward cumsum")
    def __getitem__(self, k):
        if isinstance(k, slice) and k.start is None and k.stop is None and k.step == -1:
            return RevPrefix(self.w, self.start, self.cols, self.fn, not self.reverse)
        if isinstance(k, RevCumEq) and k.p.fn is self.fn and self.reverse:
            return RevRun(self)
        unsup("prefix selection")


class RevCum:
    def __init__(self, p): self.p = p
    def eq(self, ref, axis=None):
        if axis != 0 or not isinstance(ref, SymRange):
            unsup("prefix cumsum compare")
        a, b = _int(ref.a), _int(ref.b)
        st = Ctx.cur.snapshot()
        Ctx.cur.assume(qf(OR(a != 1, b != self.p.start + 1)))
        r, _ = Ctx.cur.check(timeout=3000)
        Ctx.cur.restore(st)
        if r != z3.unsat:
            unsup("prefix reference")
        return RevCumEq(self.p)


class RevCumEq:
    def __init__(self, p): self.p = p


class RevRun:
    """rows while the running count equals the position: leading run of ones"""

    def __init__(self, p): self.p = p
    def sum(self):
        p = self.p
        r = run_length(p.start, p.fn, "run")
        return Series([p.cols], lambda x: Num(z3.ToReal(r(x))))


def run_length(start, fn, hint):
    """R(x): number of rows start-1, start-2, ... for which fn holds without interruption"""
    ctx = Ctx.cur
    ctx.nlast += 1
    r = uf(f"{hint}{ctx.nlast}", ("L",), I)
    ctx.forall(["L"], lambda x: AND(r(x) >= 0, r(x) <= start, OR(r(x) == start, NOT(fn(start - 1 - r(x), x)))))
    ctx.forall(["TA", "L"], lambda s, x: IMP(AND(s < start, s > start - 1 - r(x)), fn(s, x)))
    return r


def empty_idx(name=None, tag="L"):
    return Idx(name, tag, lambda l: FALSE, ("empty",))


def mk_index(x=None, name=None, **k):
    if isinstance(x, Idx):
        return x.clone(name=name) if name is not None else x
    if x is None or (isinstance(x, (list, tuple)) and not x):
        return empty_idx(name)
    if isinstance(x, (list, tuple)) or isinstance(x, LA):
        i = as_idx(x)
        return i.rename(name) if name is not None else i
    unsup("pd.Index")


def mk_series(data=None, index=None, name=None, dtype=None, **k):
    if isinstance(data, Series) and index is None:
        return data
    if isinstance(index, Idx):
        if isinstance(data, LA):
            if len(data.axes) == 1 and isinstance(data, NP):
                check_same(data.axes[0], index, True)
                return Series([index], data.fn, data.kind, data.ltag)
            if not data.axes:
                return Series([index], lambda x: data.fn(), data.kind, data.ltag)
        e = arr.scalar_el(data)
        if isinstance(data, bool):
            return Series([index], lambda x: zb(data), "bool")
        if e is not None:
            return Series([index], lambda x: e)
    unsup("pd.Series")


def _sub(v, g, l):
    if isinstance(v, Num):
        return v.subst([(g, l)])
    if isinstance(v, QF):
        return arr.subst_qf(v, g, l)
    return z3.substitute(v, (g, l))


def mk_frame(data=None, index=None, columns=None, dtype=None, **k):
    if data is None:
        cols = columns if isinstance(columns, Idx) else empty_idx() if columns is None or builtins.len(columns) == 0 else unsup("frame columns")
        return Frame([index, cols], lambda a, b: NANNUM)
    if isinstance(data, RepeatList):
        if builtins.len(data.lst) == 1 and isinstance(data.lst[0], SymRange) and isinstance(columns, Idx) and isinstance(index, Idx):
            r = data.lst[0]
            a, b = _int(r.a), _int(r.b)
            w = W.cur
            if columns.base != ("sns",):
                unsup("frame of ranges")
            st = Ctx.cur.snapshot()
            Ctx.cur.assume(qf(b - a != w.N))
            res, _ = Ctx.cur.check(timeout=3000)
            Ctx.cur.restore(st)
            if res != z3.unsat:
                unsup("range length")
            return Frame([index, columns], lambda x, t: Num(z3.ToReal(a + t)))
        unsup("frame of lists")
    if isinstance(data, dict):
        return frame_dict(data, index)
    if isinstance(data, NP) and builtins.len(data.axes) == 2:
        check_same(data.axes[0], index, True)
        check_same(data.axes[1], columns, True)
        return Frame([index, columns], data.fn, data.kind, data.ltag)
    if isinstance(data, (DA, Frame)) and builtins.len(data.axes) == 2 and index is None and columns is None:
        return Frame(data.axes, data.fn, data.kind, data.ltag)
    if isinstance(index, Idx) and isinstance(columns, Idx):
        if isinstance(data, bool):
            return Frame([index, columns], lambda a, b: zb(data), "bool")
        e = arr.scalar_el(data)
        if e is not None:
            return Frame([index, columns], lambda a, b: e)
    unsup("pd.DataFrame")


def frame_dict(data, index):
    """dict of one generic key -> frame over the whole key index"""
    if not data:
        return Frame([index, empty_idx()], lambda a, b: NANNUM)
    (k, v), = data.items() if builtins.len(data) == 1 else unsup("dict of several columns")
    if not isinstance(k, Lab):
        unsup("dict with concrete keys")
    b = Ctx.cur.binder_of(k.t)
    if b is None:  # a single key
        cols = Idx(None, k.tag, lambda l: l == k.t, ("one", k.t.get_id()))
        if isinstance(v, Series):
            f = v.fn
            return Frame([v.axes[0], cols], lambda a, c: f(a), v.kind, v.ltag)
        unsup("dict of one scalar")
    if b.idx is None:
        unsup("dict key is not a loop variable")
    b.use()
    cols = b.idx
    if isinstance(v, Scal) or (isinstance(v, LA) and not v.axes):
        f = v.fn
        return Frame([index, cols], lambda a, c: _sub(f(), k.t, c), v.kind, v.ltag)
    if isinstance(v, Series):
        ax = v.axes[0]
        if index is not None:
            check_same(ax, index)
        if not Ctx.cur.free_of(ax, k.t):
            unsup("rows depend on the column key")
        f = v.fn
        return Frame([ax, cols], lambda a, c: _sub(f(a), k.t, c), v.kind, v.ltag)
    unsup("dict of columns")


def pd_concat(objs, axis=0, names=None, keys=None, **k):
    if isinstance(objs, dict):
        if axis != 1:
            unsup("concat of a dict along rows")
        return frame_dict(objs, None)
    objs = list(objs)
    if axis in (1, "columns") and all(isinstance(o, Frame) for o in objs):
        r = objs[0]
        for o in objs[1:]:
            if not same(r.axes[0], o.axes[0]):
                unsup("concat of frames with different rows")
            a, b = r.axes[1], o.axes[1]
            g = fresh("dj", a.tag)
            st = Ctx.cur.snapshot()
            Ctx.cur.assume(qf(AND(a.mem(g), b.mem(g))))
            res, _ = Ctx.cur.check(timeout=4000)
            Ctx.cur.restore(st)
            if res != z3.unsat:
                unsup("concat may duplicate columns")
            fr, fo = r.fn, o.fn
            cols = a.clone(mem=lambda l, a=a, b=b: OR(a.mem(l), b.mem(l)), base=("append", a.base, b.base), name=a.name if a.name == b.name else None)
            r = Frame([r.axes[0], cols], lambda t, x, a=a, fr=fr, fo=fo: arr.ite_any(a.mem(x), fr(t, x), fo(t, x)), r.kind, r.ltag)
        return r
    unsup("pd.concat")


def np_tile(x, reps):
    if isinstance(x, Series) and isinstance(reps, tuple) and builtins.len(reps) == 2 and reps[1] == 1:
        n = reps[0]
        w = W.cur
        if isinstance(n, SInt) and n.t.eq(w.N):
            idx = w.sns
        elif isinstance(n, SInt) and n.t.eq(w.NA):
            idx = w.snapshots
        elif isinstance(n, SymLen):
            idx = n.idx
        else:
            unsup("tile")
        return NP([idx, x.axes[0]], lambda t, l: x.fn(l), x.kind, x.ltag)
    unsup("tile")


def np_isnan(x):
    if isinstance(x, LA):
        return x.isnull()
    if isinstance(x, (Lab, SInt)):
        return False
    if isinstance(x, Num):
        return SB(x.nan)
    return bool(realnp.isnan(x))


def np_isfinite(x):
    if isinstance(x, LA):
        return x._map(lambda v: AND(NOT(num(v).nan), num(v).z3() != INF, num(v).z3() != -INF), "bool")
    return bool(realnp.isfinite(x))


def np_where(c, a, b):
    if isinstance(c, LA):
        base = c._map(lambda v: v, "bool")
        av = a if isinstance(a, LA) else None
        if isinstance(a, LA):
            return a.where(c, b)
        if isinstance(b, LA):
            return b.where(~c, a)
        ea, eb = arr.scalar_el(a), arr.scalar_el(b)
        return c._map(lambda v: arr.ite_any(tob(v), num(ea), num(eb)), "num")
    unsup("np.where")


def xr_DataArray(x, coords=None, dims=None, name=None, **k):
    if coords is not None or k:
        unsup("DataArray with coords")
    if isinstance(x, DA):
        return x
    if isinstance(x, LA) and not x.axes:
        return DA([], x.fn, x.kind, x.ltag)
    if isinstance(x, (Series, Frame)):
        return to_da(x)
    if isinstance(x, (int, float, Num, SInt)):
        v = num(x)
        return DA([], lambda: v)
    unsup(f"DataArray of {type(x)}")


def xr_concat(objs, dim=None, **k):
    fam = Ctx.cur.family(list(objs))
    if fam is None:
        unsup("xarray concat")
    g, idx, e = fam
    return arr.concat_existing(e, g, idx, dim if isinstance(dim, str) else unsup("concat dim"))


def functional(name):
    def f(x, *a, **k):
        if isinstance(x, LA) and not a and not k:
            fn = uf("np." + name, ("R",), R) if False else z3.Function("np." + name, R, R)
            return x._map(lambda v: Num(fn(num(v).z3()), (), num(v).nan))
        unsup(f"np.{name}")
    return f


def np_sqrt(x):
    if isinstance(x, (int, float)):
        return mkscal(Num(z3.Sqrt(rv(x)))) if False else mkscal(Num(SQRT(rv(x))))
    if isinstance(x, LA):
        return x._map(lambda v: Num(SQRT(num(v).z3()), (), num(v).nan))
    unsup("sqrt")


SQRT = z3.Function("SQRT", R, R)

TYPE_SERIES = shim_type("Series", lambda x: isinstance(x, Series), mk_series)
TYPE_FRAME = shim_type("DataFrame", lambda x: isinstance(x, (Frame, StaticFrame)), mk_frame)
TYPE_INDEX = shim_type("Index", lambda x: isinstance(x, Idx), mk_index)
TYPE_MULTI = shim_type("MultiIndex", lambda x: isinstance(x, Idx) and x.multi)
TYPE_DA = shim_type("DataArray", lambda x: isinstance(x, DA), xr_DataArray)
TYPE_LIN = shim_type("LinearExpression", lambda x: isinstance(x, LinExpr))
TYPE_NDARRAY = shim_type("ndarray", lambda x: isinstance(x, NP))


def mod(name, **kw):
    m = types.ModuleType(name)
    m.__dict__.update(kw)
    m.__getattr__ = lambda a: (_ for _ in ()).throw(AttributeError(a)) if a.startswith("__") else Dummy(f"{name}.{a}")
    return m


def np_atleast_1d(x):
    if isinstance(x, (Lab, SInt, int, Scal)):
        return [x]
    return x


PD = mod("pandas", Series=TYPE_SERIES, DataFrame=TYPE_FRAME, Index=TYPE_INDEX, MultiIndex=TYPE_MULTI, concat=pd_concat,
         read_csv=realpd.read_csv, isna=np_isnan, isnull=np_isnan, notnull=lambda x: ~np_isnan(x), IndexSlice=realpd.IndexSlice,
         options=Dummy("pd.options"), Timestamp=realpd.Timestamp, DatetimeIndex=shim_type("DatetimeIndex", lambda x: False))
NPM = mod("numpy", inf=float("inf"), nan=float("nan"), isnan=np_isnan, isfinite=np_isfinite, tile=np_tile, sqrt=np_sqrt,
          pi=mkscal(Num(z3.Const("PI", R))), atleast_1d=np_atleast_1d, where=np_where, ndarray=TYPE_NDARRAY,
          sign=functional("sign"), cos=functional("cos"), sin=functional("sin"),
          absolute=lambda x: abs(x), abs=lambda x: abs(x), maximum=lambda a, b: a.clip(lower=b) if isinstance(a, LA) else b.clip(lower=a),
          minimum=lambda a, b: a.clip(upper=b) if isinstance(a, LA) else b.clip(upper=a), number=realnp.number,
          float64=float, bool_=bool, integer=realnp.integer, floating=realnp.floating)
XR = mod("xarray", DataArray=TYPE_DA, concat=xr_concat, Dataset=Dummy("Dataset"))
LINOPY = mod("linopy", LinearExpression=TYPE_LIN, merge=arr.merge, Model=Dummy("Model"), QuadraticExpression=Dummy("QuadraticExpression"),
             Variable=shim_type("Variable", lambda x: isinstance(x, Var)))
FILL = {"labels": -1, "lower": float("nan"), "upper": float("nan")}
LINOPY.variables = mod("linopy.variables", FILL_VALUE=FILL)
LINOPY.expressions = mod("linopy.expressions", merge=arr.merge, LinearExpression=TYPE_LIN)
SHIMS = {"pandas": PD, "numpy": NPM, "xarray": XR, "linopy": LINOPY, "linopy.expressions": LINOPY.expressions,
         "linopy.variables": LINOPY.variables, "scipy": Dummy("scipy"), "scipy.sparse": Dummy("scipy.sparse"),
         "networkx": Dummy("networkx"), "numpy.linalg": Dummy("numpy.linalg")}
REAL_OK = {"logging", "collections", "collections.abc", "typing", "functools", "itertools", "operator", "os", "pathlib",
           "deprecation", "warnings", "re", "__future__", "dataclasses", "time", "math", "abc", "copy", "types", "weakref", "string",
           "contextlib", "enum", "packaging", "packaging.version"}
LOADED_OK = {"pypsa.common", "pypsa.descriptors", "pypsa.components.descriptors", "pypsa.optimization.common",
             "pypsa.optimization.constraints", "pypsa.optimization.variables", "pypsa.optimization.global_constraints",
             "pypsa.optimization.optimize", "pypsa.pf", "pypsa.deprecations"}


class Loader:
    """executes /repo source files; one instance per verification run"""

    def __init__(self): self.mods = {}

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path = os.path.join(REPO, *name.split(".")) + ".py"
        if not os.path.exists(path):
            raise Unsupported(f"module {name} not found")
        src = open(path).read()
        m = types.ModuleType(name)
        m.__file__ = path
        b = dict(builtins.__dict__)
        b["__import__"] = self.imp
        b["len"], b["range"] = sym_len, sym_range
        b["sum"] = sym_sum
        b["isinstance"] = isinstance
        m.__dict__["__builtins__"] = b
        self.mods[name] = m
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            code = compile(src, path, "exec")
        exec(code, m.__dict__)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals["__name__"].rsplit(".", level)[0]
            name = f"{pkg}.{name}" if name else pkg
        if name in SHIMS:
            if fromlist or "." not in name:
                return SHIMS[name]
            return SHIMS[name.split(".")[0]]
        if name == "pypsa.version":
            return mod("pypsa.version", __version_semver__="99.0.0")
        if name == "pandas.api.types":
            return mod("pandas.api.types", is_list_like=lambda x: isinstance(x, (list, tuple, set, dict, LA, Idx)))
        if name in LOADED_OK:
            m = self.load(name)
            return m if fromlist else m
        if name in REAL_OK:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        return Dummy(name)


def sym_sum(xs, start=0):
    r = start
    for x in xs:
        r = x if isinstance(r, int) and r == 0 and isinstance(x, LA) else r + x
    return r
