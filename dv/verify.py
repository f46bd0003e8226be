"""
Deductive verification of the functions in /repo against their contracts.

For every (function, configuration) pair the function body - compiled from the
current source of /repo - is executed on symbolic labelled arrays along every
feasible path; at the end of each path the constraints / variables it added to
the model are compared with the contract: each comparison is one obligation for
z3.  Callees that have a contract of their own are replaced by it (CALLEES).
"""
from __future__ import annotations

import logging
import os
import sys
import time
import traceback

from dv.core import z3

from dv import arr, core, world
from dv.arr import EMB, Frame, Idx, Lab, Series, unsup
from dv.core import (AND, FALSE, IMP, NOT, OR, QF, TRUE, Ctx, Num, PathAbort, Unsupported, explore, fresh, is_false, num, qf)
from dv.world import Loader, SymNetwork, W

logging.disable(logging.CRITICAL)


# ---------------------------------------------------------------- callee contracts
def c_activity_mask(n, c, sns=None, index=None):
    """ensures result[t, x] == active(c, t, x), rows sns, columns index or all"""
    w = W.cur
    rows = w.snapshots if sns is None else arr.as_idx(sns, sns.tag)
    cols = w.comp(c).clone(name=w.comp(c).name)
    if index is not None:
        k = arr.canon("L")
        if not arr.implied(index.mem(k), cols.mem(k)):
            unsup("activity mask of assets outside the component table")
        cols = index
    tag = rows.tag
    return Frame([rows, cols], lambda t, x: w.active(c, t, x, tag), "bool")


def c_dense(n, c, attr, snapshots=None, inds=None):
    """ensures result[t, x] == time series value where a column exists, static value otherwise"""
    w = W.cur
    if not w.has_static(c, attr):
        raise KeyError(attr)
    rows = w.snapshots if snapshots is None else snapshots
    cols = w.comp(c)
    if inds is not None:
        cols = cols.intersection(inds).clone(name=c)
    tag = rows.tag
    return Frame([rows, cols], lambda t, x: w.dense(c, attr, t, x, tag), w.kind(c, attr))


def c_active_assets(n, c, investment_period=None):
    """ensures result[x] == active, and within lifetime in (any of) the period(s)"""
    w = W.cur
    cols = w.comp(c)
    ip = investment_period
    if ip is None:
        return Series([cols], lambda x: w.st(c, "active", x), "bool")
    if isinstance(ip, Lab) and ip.tag == "P":
        return Series([cols], lambda x: w.active_in(c, x, ip.t), "bool")
    if isinstance(ip, (int, float)):
        return Series([cols], lambda x: w.active_in(c, x, z3.IntVal(int(ip))), "bool")
    if isinstance(ip, Idx) and ip.tag == "P":
        if not arr.same(ip, w.P):
            unsup("activity in a subset of periods")
        return Series([cols], lambda x: w.active_any(c, x), "bool")
    if isinstance(ip, arr.Scal):
        return Series([cols], lambda x: w.active_in(c, x, arr.lab_of(ip)), "bool")
    unsup("get_active_assets argument")


def c_as_index(n, values, network_attribute, force_subset=True):
    """ensures the given snapshots (all of them by default)"""
    if network_attribute != "snapshots":
        unsup("as_index attribute")
    if values is None:
        return n.snapshots
    if not isinstance(values, Idx):
        unsup("as_index values")
    return values


CALLEES = {"as_index": c_as_index, "get_activity_mask": c_activity_mask, "get_switchable_as_dense": c_dense, "get_active_assets": c_active_assets}
INLINE = ["get_extendable_i", "get_non_extendable_i", "get_committable_i"]


def load(modname, stubs=True, keep=()):
    ld = Loader()
    d = ld.load("pypsa.descriptors")
    m = ld.load(modname)
    orig = {k: getattr(d, k) for k in CALLEES if k != "as_index"}
    orig["as_index"] = ld.load("pypsa.common").as_index
    if stubs:
        for mm in list(ld.mods.values()):
            for k, v in list(mm.__dict__.items()):
                for nm, o in orig.items():
                    if v is o and nm not in keep:
                        mm.__dict__[k] = CALLEES[nm]
    meth = {k: getattr(d, k) for k in INLINE}
    meth["get_active_assets"] = c_active_assets
    meth["get_switchable_as_dense"] = c_dense
    meth["component.get_active_assets"] = lambda comp, investment_period=None: c_active_assets(comp.n, comp.name, investment_period)
    return ld, m, meth


# ---------------------------------------------------------------- obligations
def axis_perm(spec_axes, con_axes):
    """position in spec order of every axis of the constraint"""
    if len(spec_axes) != len(con_axes):
        return None
    out, used = [], set()
    for a in con_axes:
        c = [i for i, s in enumerate(spec_axes) if s.tag == a.tag and i not in used]
        if len(c) != 1:
            return None
        out.append(c[0])
        used.add(c[0])
    return out


def zf(x):
    """formula from bool / z3 / QF"""
    if isinstance(x, QF):
        return x
    return qf(x)


def conj(*xs):
    r = qf(TRUE)
    for x in xs:
        x = zf(x)
        if x.kind == "atom" and core.is_true(x.args[0]):
            continue
        r = x if (r.kind == "atom" and core.is_true(r.args[0])) else QF("and", (r, x))
    return r


class Judge:
    """collects the obligations of one path"""

    def __init__(self, ctx, vac):
        self.ctx, self.vac = ctx, vac

    def sub(self, f):
        """run proofs without recording; returns (ok, recorded)"""
        c = self.ctx
        saved, c.obligations = c.obligations, []
        try:
            ok = f()
            return ok, c.obligations
        finally:
            c.obligations = saved

    def con(self, spec, recs):
        ctx = self.ctx
        ls = [fresh("x" + a.tag, a.tag) for a in spec.axes]
        want = conj(*[a.mem(l) for a, l in zip(spec.axes, ls)], spec.when, spec.dom(*ls))
        if spec.name not in self.vac:
            st = ctx.snapshot()
            ctx.assume(want)
            r, _ = ctx.check(timeout=4000)
            ctx.restore(st)
            if r != z3.unsat:
                self.vac.add(spec.name)
        mine = [r for r in recs if r["name"] == spec.name]
        if not mine:
            ctx.prove(f"{spec.name}: present wherever required", want.neg())
            return
        if len(mine) > 1:
            ctx._record(f"{spec.name}: added once", "refuted", f"added {len(mine)} times")
            return
        r = mine[0]
        perm = axis_perm(spec.axes, r["axes"])
        if perm is None:
            ctx._record(f"{spec.name}: dimensions", "refuted", f"dimensions {[a.name for a in r['axes']]} tags {[a.tag for a in r['axes']]}")
            return
        cl = [ls[i] for i in perm]
        dom = zf(r["dom"](*cl))
        pres = zf(r["pres"](*cl))
        st = ctx.snapshot()
        ctx.assume(want)
        ctx.prove(f"{spec.name}: present wherever required", dom)
        ctx.restore(st)
        st = ctx.snapshot()
        ctx.assume(conj(dom, pres))
        ctx.prove(f"{spec.name}: absent elsewhere", want)
        ctx.restore(st)
        st = ctx.snapshot()
        ctx.assume(conj(want, dom))
        a, b = num(r["fn"](*cl)), num(spec.expr(*ls))
        nm = f"{spec.name}: same inequality"
        if r["sign"] == spec.sign:
            ok, obs = self.sub(lambda: ctx.prove_eq(nm, a, b))
            if not ok and spec.sign == "=":
                ok2, obs2 = self.sub(lambda: ctx.prove_eq(nm, -a, b))
                if ok2:
                    obs = obs2
            ctx.obligations += obs
        elif {r["sign"], spec.sign} == {"<=", ">="}:
            ctx.prove_eq(nm, -a, b)
        else:
            ctx._record(nm, "refuted", f"sign {r['sign']} instead of {spec.sign}")
        ctx.restore(st)

    def var(self, spec, recs):
        ctx = self.ctx
        ls = [fresh("x" + a.tag, a.tag) for a in spec.axes]
        want = conj(*[a.mem(l) for a, l in zip(spec.axes, ls)], spec.when, spec.dom(*ls))
        if spec.name not in self.vac:
            st = ctx.snapshot()
            ctx.assume(want)
            r, _ = ctx.check(timeout=4000)
            ctx.restore(st)
            if r != z3.unsat:
                self.vac.add(spec.name)
        mine = [r for r in recs if r["name"] == spec.name]
        if not mine:
            ctx.prove(f"variable {spec.name}: present wherever required", want.neg())
            return
        if len(mine) > 1:
            ctx._record(f"variable {spec.name}: added once", "refuted", "")
            return
        r = mine[0]
        perm = axis_perm(spec.axes, r["axes"])
        if perm is None:
            ctx._record(f"variable {spec.name}: dimensions", "refuted", str([a.name for a in r["axes"]]))
            return
        cl = [ls[i] for i in perm]
        dom = zf(r["dom"](*cl))
        for nm, hyp, goal in (("present wherever required", want, dom), ("absent elsewhere", dom, want)):
            st = ctx.snapshot()
            ctx.assume(hyp)
            ctx.prove(f"variable {spec.name}: {nm}", goal)
            ctx.restore(st)
        ctx._record(f"variable {spec.name}: domain type", "proved" if r["kind"] == spec.kind else "refuted", f"{r['kind']} / {spec.kind}")
        want_names = tuple(world.dims_of(spec.name)) if spec.name != "StorageUnit-spill" else None
        if want_names and tuple(a.name for a in r["axes"]) != want_names:
            ctx._record(f"variable {spec.name}: dimension names", "refuted", str([a.name for a in r["axes"]]))
        st = ctx.snapshot()
        ctx.assume(want)
        ctx.assume(dom)
        for side, dflt in (("lower", -core.INF), ("upper", core.INF)):
            if r["kind"] == "binary":
                continue
            s = getattr(spec, side)
            b = num(s(*ls)) if s else Num(dflt)
            a = r[side](*cl) if r[side] else Num(dflt)
            ctx.prove_eq(f"variable {spec.name}: {side} bound", num(a), b)
        ctx.restore(st)

    def series(self, name, r, rows, want):
        ctx = self.ctx
        if not isinstance(r, Series):
            unsup(f"result is a {type(r).__name__}")
        ax = r.axes[0]
        if ax.tag != rows.tag:
            ctx._record(f"{name}: dimensions", "refuted", ax.tag)
            return
        l = fresh("x" + rows.tag, rows.tag)
        for nm, a, b in (("contains everything requested", rows, ax), ("contains nothing else", ax, rows)):
            st = ctx.snapshot()
            ctx.assume(a.mem(l))
            ctx.prove(f"{name}: {nm}", zf(b.mem(l)))
            ctx.restore(st)
        st = ctx.snapshot()
        ctx.assume(rows.mem(l))
        v, w = r.fn(l), want(l)
        if isinstance(v, Num):
            ctx.prove_eq(f"{name}: values", v, num(w))
            ctx.prove(f"{name}: missing values", zf(OR(AND(v.nan, num(w).nan), AND(NOT(v.nan), NOT(num(w).nan)))))
        else:
            v, w = zf(v), zf(w)
            for nm, a, b in (("true where required", w, v), ("true only where required", v, w)):
                s2 = ctx.snapshot()
                ctx.assume(a)
                ctx.prove(f"{name}: {nm}", b)
                ctx.restore(s2)
        ctx.restore(st)

    def frame(self, name, fr, rows, cols, want, order=True):
        """fr is a table over exactly rows x cols with fr[t, x] == want(t, x)"""
        ctx = self.ctx
        if not isinstance(fr, Frame):
            unsup(f"result is a {type(fr).__name__}")
        if [a.tag for a in fr.axes] != [rows.tag, cols.tag]:
            ctx._record(f"{name}: dimensions", "refuted", str([a.tag for a in fr.axes]))
            return
        for what, ax, sp in (("rows", fr.axes[0], rows), ("columns", fr.axes[1], cols)):
            l = fresh("x" + sp.tag, sp.tag)
            for nm, a, b in (("contain everything requested", sp, ax), ("contain nothing else", ax, sp)):
                st = ctx.snapshot()
                ctx.assume(a.mem(l))
                ctx.prove(f"{name}: {what} {nm}", zf(b.mem(l)))
                ctx.restore(st)
            if order or what == "rows":
                if ax.base != sp.base:
                    ctx._record(f"{name}: order of {what}", "refuted" if ax.base and ax.base[0] == "sorted" else "unknown", f"{ax.base} instead of {sp.base}")
                else:
                    ctx._record(f"{name}: order of {what}", "proved", "simplifier")
        t, x = fresh("xt", rows.tag), fresh("xx", cols.tag)
        st = ctx.snapshot()
        ctx.assume(AND(rows.mem(t), cols.mem(x)))
        v, w = fr.fn(t, x), want(t, x)
        if isinstance(v, Num):
            ctx.prove_eq(f"{name}: values", v, num(w))
            ctx.prove(f"{name}: missing values", zf(OR(AND(v.nan, num(w).nan), AND(NOT(v.nan), NOT(num(w).nan)))))
        else:
            v, w = core.zb(v), core.zb(w)
            ctx.prove(f"{name}: values", zf(OR(AND(v, w), AND(NOT(v), NOT(w)))))
        ctx.restore(st)

    def objective(self, n, S):
        """linear and quadratic part, constant and sense of the objective"""
        from dv.specs import opt as SP
        ctx, m = self.ctx, n.model
        o = m.objective
        if o is None:
            ctx._record("an objective is set", "refuted", "")
            return
        if not isinstance(o, arr.LinExpr) or o.axes:
            unsup(f"objective is a {type(o).__name__}")
        const = num(SP.objective_constant(S))
        ctx.prove_eq("objective constant", num(n.objective_constant), const)
        mine = [v for v in m.vars_added if v["name"] == "objective_constant"]
        cv = Num(0)
        if mine:
            cv = Num(core.uf("v.objective_constant", (), core.R))
            for side in ("lower", "upper"):
                ctx.prove_eq(f"objective constant: {side} bound", num(mine[0][side]()), const)
        else:
            ctx.prove("objective constant is part of the model unless it is zero", zf(num(n.objective_constant).eq(0)))
        ctx.prove_eq("objective", num(o.fn()), SP.objective(S) + SP.objective_quadratic(S) - cv)

    def unexpected(self, recs, known, what):
        ctx = self.ctx
        for r in recs:
            if r["name"] in known:
                continue
            ls = [fresh("x" + a.tag, a.tag) for a in r["axes"]]
            g = zf(r["dom"](*ls))
            if "pres" in r:
                g = conj(g, r["pres"](*ls))
            ctx.prove(f"no {what} {r['name']}", g.neg())


# ---------------------------------------------------------------- tasks
class Task:
    def __init__(self, mod, fn, cfg, call, cons=None, vars=None, judge=None, focus=None, label=None, weight=1, load=None, pre=None, raises=None, may_raise=None):
        self.may_raise = may_raise or {}  # exception type -> (J, S) -> obligations under which it is acceptable
        self.mod, self.fn, self.cfg, self.call, self.cons, self.vars, self.judge = mod, fn, cfg, call, cons, vars, judge
        self.focus, self.label, self.weight = focus, label or "", weight
        self.load = load or {}
        self.pre = pre
        self.assumes = [d.strip() for d in [getattr(pre, "__doc__", None)] if d]
        self.raises = raises or {}  # exception type -> S -> condition under which the contract demands it

    @property
    def name(self):
        c = ",".join(f"{k}={v}" for k, v in self.cfg.items() if k not in ("glc",))
        return f"{self.mod}.{self.fn}[{self.label}{';' if self.label and c else ''}{c}]"


def run_task(t: Task, budget):
    from dv.sym import SymS
    t0 = time.time()
    core.STATS.update(solver_s=0.0, queries=0, sliced=0, paths=0)
    deadline = t0 + budget
    res = dict(function=t.name, obligations=[], undecided=None, paths=0, solver_s=0.0, queries=0, sliced=0)
    vac, names = set(), set()
    try:
        ld, m, meth = load(t.mod, **t.load)
        f = getattr(m, t.fn)
        w = W(**t.cfg)

        def run(ctx):
            w.start()
            S = SymS(w)
            n = SymNetwork(w, S)
            n.__dict__["_methods"].update(meth)
            if t.pre:
                t.pre(S, w, ctx)
            J = Judge(ctx, vac)
            try:
                out = t.call(f, n, w, S)
            except (KeyError, ValueError, IndexError) as e:
                tb = traceback.extract_tb(e.__traceback__)
                loc = [x for x in tb if world.REPO in x.filename]
                if type(e) in t.may_raise and loc:
                    t.may_raise[type(e)](J, S)
                    return
                if type(e) in t.raises and loc:
                    ctx.prove(f"{type(e).__name__} only when the contract demands it", t.raises[type(e)](S))
                    return
                ctx.prove(f"no {type(e).__name__} ({e}) at {os.path.relpath(loc[-1].filename, world.REPO)}:{loc[-1].name}" if loc else f"no {type(e).__name__} {e}", FALSE)
                return
            for ty, cond in t.raises.items():
                ctx.prove(f"{ty.__name__} whenever the contract demands it", zf(cond(S)).neg())
            if t.judge:
                t.judge(J, out, n, w, S)
            cons = t.cons(S) if t.cons else []
            vs = t.vars(S) if t.vars else []
            names.update(s.name for s in cons + vs)
            for s in cons:
                J.con(s, n.model.cons)
            for s in vs:
                J.var(s, n.model.vars_added)
            J.unexpected(n.model.cons, {s.name for s in cons}, "constraint")
            J.unexpected([v for v in n.model.vars_added if v["name"] != "objective_constant"], {s.name for s in vs}, "variable")
            if not ctx.obligations:
                ctx._record("nothing is added", "proved", "no constraint or variable was created on this path")

        outs = explore(run, focus=t.focus, deadline=deadline)
        for ctx, _ in outs:
            for nm, st, det in ctx.obligations:
                res["obligations"].append((nm, st, det))
        for nm in names - vac:
            res["obligations"].append((f"{nm}: contract not vacuous", "unknown", "no explored path requires it"))
    except Unsupported as e:
        tb = traceback.extract_tb(e.__traceback__)
        loc = [x for x in tb if world.REPO in x.filename]
        where = f"{os.path.relpath(loc[-1].filename, world.REPO)}:{loc[-1].lineno}" if loc else ""
        res["undecided"] = f"outside the verified subset: {e} {where}"
        res["tb"] = traceback.format_exc()
    except z3.Z3Exception as e:
        res["undecided"] = f"solver: {e}"
        res["tb"] = traceback.format_exc()
    except Exception as e:  # engine limitation
        res["undecided"] = f"{type(e).__name__}: {e}"
        res["tb"] = traceback.format_exc()
    res.update(paths=core.STATS["paths"], solver_s=core.STATS["solver_s"], queries=core.STATS["queries"], sliced=core.STATS["sliced"],
               seconds=time.time() - t0)
    return res


def _one(a):
    prop, i, budget = a
    from dv import tasks
    t = tasks.TASKS[prop]()[i]
    return i, t.execute(budget) if hasattr(t, "execute") else run_task(t, budget)


def run(prop, spec, tier, budget=None):
    """verify every task of a property in parallel; result for dv.run"""
    import multiprocessing as mp
    from dv import tasks
    from dv import verify as me
    budget = budget or (300 if tier == "quick" else 780)
    t0 = time.time()
    ts = tasks.TASKS[prop]()
    order = sorted(range(len(ts)), key=lambda i: -ts[i].weight)
    pool = mp.get_context("spawn").Pool(min(8, os.cpu_count() or 1), maxtasksperchild=6)
    got = {}
    try:
        it = pool.imap_unordered(me._one, [(prop, i, budget * 0.8) for i in order], chunksize=1)
        for _ in order:
            left = budget - (time.time() - t0)
            try:
                i, r = it.next(timeout=max(0.1, left))
            except mp.TimeoutError:
                break
            got[i] = r
    finally:
        pool.terminate()
        pool.join()
    out = dict(obligations=[], functions=[], undecided=[], assumptions=[], solver_s=0.0, queries=0, paths=0, z3=z3.get_version_string())
    for i, t in enumerate(ts):
        r = got.get(i)
        if r is None:
            out["undecided"].append(dict(function=t.name, reason="time budget"))
            continue
        if r["undecided"]:
            out["undecided"].append(dict(function=t.name, reason=r["undecided"][:300]))
        n = {"proved": 0, "refuted": 0, "unknown": 0}
        for nm, st, det in r["obligations"]:
            n[st] += 1
            out["obligations"].append(dict(function=t.name, name=nm, status=st, detail=det if st != "proved" else ("simplifier" if "simpl" in det else "")))
        if not r["obligations"] and not r["undecided"]:
            out["undecided"].append(dict(function=t.name, reason="no obligation generated"))
        out["functions"].append(dict(function=t.name, **n, paths=r["paths"], seconds=round(r["seconds"], 2)))
        out["solver_s"] += r["solver_s"]
        out["queries"] += r["queries"]
        out["paths"] += r["paths"]
        for a in t.assumes:
            if a not in out["assumptions"]:
                out["assumptions"].append(a)
    out["deductive_wall_s"] = round(time.time() - t0, 1)
    return out


if __name__ == "__main__":  # python -m dv.verify C02 [index-or-substring]
    from dv import tasks
    from dv import verify as me
    prop = sys.argv[1]
    sel = sys.argv[2] if len(sys.argv) > 2 else ""
    ts = tasks.TASKS[prop]()
    ids = [i for i, t in enumerate(ts) if sel in t.name]
    if len(ids) == 1 or os.environ.get("DV_SERIAL"):
        rs = [me._one((prop, i, 600))[1] for i in ids]
    else:
        import multiprocessing as mp
        with mp.get_context("spawn").Pool(8, maxtasksperchild=1) as p:
            rs = [x[1] for x in p.map(me._one, [(prop, i, 600) for i in ids], chunksize=1)]
    tot = {}
    shown = 0
    for r in rs:
        n = {s: sum(1 for o in r["obligations"] if o[1] == s) for s in ("proved", "refuted", "unknown")}
        for k, v in n.items():
            tot[k] = tot.get(k, 0) + v
        clean = not r["undecided"] and not n["refuted"] and not n["unknown"]
        tot["clean" if clean else "unclean"] = tot.get("clean" if clean else "unclean", 0) + 1
        if clean and len(ids) > 8 and r["seconds"] < 60:
            continue
        shown += 1
        if shown > int(os.environ.get("MAXT", 12)):
            continue
        print(f"{r['function'][20:]}: {n} paths={r['paths']} q={r['queries']} {r['seconds']:.1f}s", r["undecided"] or "")
        if r["undecided"] and (len(ids) == 1 or os.environ.get("TB")):
            print("\n".join(r.get("tb").splitlines()[-int(os.environ.get("TB", 14)):]))
        k = 0
        for o in r["obligations"]:
            if o[1] != "proved":
                k += 1
                if k <= int(os.environ.get("MAXO", 4)):
                    print("    ", o[1], o[0], o[2][:int(os.environ.get("W", 200))])
    print(tot)
