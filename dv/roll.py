"""
C21, deductive part: `optimize_with_rolling_horizon` (pypsa/optimization/abstract.py).

The loop over windows is run for the first window and for one generic later window i >= 1 (an arbitrary state of the
result tables before each, `n.optimize` replaced by its contract: it overwrites the result tables and nothing else).
Obligations: which snapshots each window optimises, the storage levels it starts from, that nothing else of the network
is changed, that all arguments are passed on, and (a lemma over the window contract) that every snapshot is covered.

Iterations must share no local variables (checked on the function's syntax tree); otherwise the function is undecided.
"""
from __future__ import annotations

import ast
import builtins
import inspect
import textwrap
import time
import traceback

from dv import arr, core, post, world
from dv.arr import Lab, Scal, Series, SInt, mkscal, unsup
from dv.core import AND, B, FALSE, IMP, NOT, OR, SB, Ctx, Num, Unsupported, explore, fresh, num, q_any, qf, uf, z3
from dv.world import SymNetwork

A = "pypsa.optimization.abstract"
POS = "TA"


def snap(k):
    """label of the k-th requested snapshot"""
    return uf("requested", ("TA",), core.I)(k)


def it(x):
    if isinstance(x, SInt):
        return x.t
    if isinstance(x, bool) or not isinstance(x, int):
        unsup("integer expected")
    return z3.IntVal(x)


class Window:
    def __init__(self, lo, hi): self.lo, self.hi = lo, hi
    def __getitem__(self, k): return "snapshot"
    def __len__(self): unsup("len of a window")


class Seq:
    """the requested snapshots, in order"""

    def __init__(self, M): self.M = M

    def __getitem__(self, k):
        M = self.M
        if isinstance(k, slice):
            if k.step is not None:
                unsup("stepped slice")
            lo = z3.IntVal(0) if k.start is None else it(k.start)
            hi = M if k.stop is None else it(k.stop)
            norm = lambda t: z3.If(t < 0, z3.If(t + M < 0, 0, t + M), z3.If(t > M, M, t))
            return Window(norm(lo), norm(hi))
        t = it(k)
        pos = z3.If(t < 0, t + M, t)
        if not Ctx.cur.branch(qf(AND(pos >= 0, pos < M))):
            raise IndexError("snapshot position out of range")
        return Lab(snap(pos), "TA")

    @property
    def size(self): return SInt(self.M)


class Steps:
    """range(a, b, step) with symbolic arguments: first element and one generic later element"""

    def __init__(self, a, b, step): self.a, self.b, self.step = a, b, step

    def gen(self):
        c = Ctx.cur
        for later in (False, True):
            i = fresh("window", core.I) if later else z3.IntVal(0)
            st = self.a + i * self.step if later else self.a
            if later:
                c.fact(i >= 1)
                s = fresh("start", core.I)
                c.fact(s == st)
                c.fact(s >= self.a + self.step)
                st = s
            want = (i * (c.net.h - c.net.o) if later else z3.IntVal(0)) < c.net.M
            if not c.branch(qf(st < self.b)):
                c.prove("no window is left out", NOT(want))
            else:
                c.prove("no window begins after the last snapshot", want)
                c.windows += 1
                c.net.begin(st, i)
                yield SInt(i), SInt(st)
                c.net.end()

    def __iter__(self): return (s for _, s in self.gen())


def s_len(x):
    if isinstance(x, Seq):
        return SInt(x.M)
    if isinstance(x, Steps):
        return SInt(fresh("nwindows", core.I))
    return world.sym_len(x)


def s_range(*a):
    if all(isinstance(x, int) for x in a):
        return range(*a)
    a = [it(x) for x in a]
    if len(a) == 1:
        return Steps(z3.IntVal(0), a[0], z3.IntVal(1))
    return Steps(a[0], a[1], a[2] if len(a) == 3 else z3.IntVal(1))


def s_enumerate(x, start=0):
    if isinstance(x, Steps):
        return ((i if not start else i + start, s) for i, s in x.gen())
    return builtins.enumerate(x, start)


def ext(x, y, f):
    return SInt(z3.If(f(it(x), it(y)), it(x), it(y))) if isinstance(x, SInt) or isinstance(y, SInt) else None


def s_min(*a, **k):
    if len(a) == 2 and not k:
        r = ext(*a, lambda x, y: x <= y)
        if r is not None:
            return r
    return builtins.min(*a, **k)


def s_max(*a, **k):
    if len(a) == 2 and not k:
        r = ext(*a, lambda x, y: x >= y)
        if r is not None:
            return r
    return builtins.max(*a, **k)


class RStatic(post.MStatic):
    def __setattr__(self, a, v):
        if a in ("c", "n", "idx", "_over"):
            object.__setattr__(self, a, v)
        else:
            self._assign(a, v)

    def _assign(self, a, v):
        ix = self.idx
        if isinstance(v, arr.LA) and len(v.axes) == 1 and not isinstance(v, arr.NP):
            f, ax = v.fn, v.axes[0]
            self.n.sstore[self.c, a] = Series([ix], lambda x: arr.miss(ax.mem(x), f(x)), v.kind, v.ltag)
        else:
            unsup("assignment of a static column")

    def __setitem__(self, a, v): self._assign(a, v)


class Status:
    def __init__(self, ok): self.ok = ok
    def __eq__(self, o): return SB(self.ok) if o == "ok" else unsup("status")
    def __ne__(self, o): return SB(NOT(self.ok)) if o == "ok" else unsup("status")
    __hash__ = object.__hash__
    def __str__(self): return "status"
    __format__ = lambda s, f: "status"


class RNet(post.PNet):
    def __init__(self, w, S):
        super().__init__(w, S, None)
        d = self.__dict__
        del d["model"]
        d["calls"], d["version"], d["open"] = [], 0, False

    def static(self, c): return RStatic(c, self)
    df = static

    def __getattr__(self, a):
        if a == "snapshots":
            return self.requested
        if a in world.LISTNAME:
            return RStatic(world.LISTNAME[a], self)
        if a == "optimize":
            return self.do_optimize
        return post.PNet.__getattr__(self, a)

    def __setattr__(self, a, v): self.ctx._record(f"attribute {a} of the network is not changed", "refuted", "")

    def begin(self, start, i):
        d = self.__dict__
        d["start"], d["i"], d["calls"] = start, i, []
        d["before"] = {}
        d["open"] = True
        self.havoc()

    def havoc(self):
        """arbitrary content of the result tables"""
        w = self._w
        self.store.clear()
        self.__dict__["version"] += 1
        v = self.version
        for c, a in (("Store", "e"), ("StorageUnit", "state_of_charge")):
            fn = uf(f"{c}_t.{a}@{v}", ("TA", "L"), core.R)
            self.store[c] = {a: post.MFrame([w.snapshots, w.comp(c)], lambda s, x, fn=fn: Num(fn(s, x)))}
            self.before[c] = fn

    def do_optimize(self, *args, **kw):
        self.calls.append((args, kw))
        self.check(args, kw)
        self.havoc()
        ok = z3.Bool(f"ok{self.version}")
        return Status(ok), "condition"

    def check(self, args, kw):
        ctx, w = self.ctx, self._w
        M, h = self.M, self.h
        later = self.i.get_id() != z3.IntVal(0).get_id()
        nm = "later window" if later else "first window"
        snaps = args[0] if args else kw.get("snapshots")
        if len(args) > 1 or not isinstance(snaps, Window):
            unsup("arguments of optimize")
        rest = {k: v for k, v in kw.items() if k != "snapshots"}
        ctx._record(f"{nm}: all further arguments are passed on", "proved" if rest == self.kwargs else "refuted", str(rest))
        step = h - self.o
        ctx.prove(f"{nm}: starts after (length - overlap) snapshots per earlier window", snaps.lo == (self.i * step if later else z3.IntVal(0)))
        ctx.prove(f"{nm}: has the given length unless cut off at the last snapshot", snaps.hi == z3.If(self.start + h < M, self.start + h, M))
        if later:
            lab = snap(self.start - 1)
        for c, tab, col in (("Store", "e", "e_initial"), ("StorageUnit", "state_of_charge", "state_of_charge_initial")):
            x = fresh("x", "L")
            sp = ctx.snapshot()
            ctx.fact(w.mem(c, x))
            got = self.sstore.get((c, col))
            want = Num(uf(f"{c}_t.{tab}@{self.version}", ("TA", "L"), core.R)(lab, x)) if later else w.st(c, col, x)
            g = num(got.fn(x)) if got is not None else w.st(c, col, x)
            ctx.prove(f"{nm}: {c}.{col} not missing", NOT(g.nan))
            ctx.prove_eq(f"{nm}: {c}.{col} is the level stored for the snapshot before" if later else f"{nm}: {c}.{col} as given", Num(g.t, g.sums), Num(want.t, want.sums))
            ctx.restore(sp)
        other = sorted(k for k in self.sstore if k not in (("Store", "e_initial"), ("StorageUnit", "state_of_charge_initial")))
        ctx._record(f"{nm}: no other static column is changed", "refuted" if other else "proved", str(other))

    def end(self):
        self.__dict__["open"] = False
        self.ctx._record("every window is optimised once", "proved" if len(self.calls) == 1 else "refuted", f"{len(self.calls)} calls")


def carried(fn):
    """local names which an iteration of the loop may read from an earlier one"""
    tree = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
    out = set()
    for loop in ast.walk(tree):
        if isinstance(loop, ast.While):
            return {"while loop"}
        if not isinstance(loop, ast.For):
            continue
        tgt = {x.id for x in ast.walk(loop.target) if isinstance(x, ast.Name)}
        seen = set(tgt)

        def visit(stmts, seen):
            for st in stmts:
                reads = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
                stores = {x.id for x in ast.walk(st) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
                aug = {x.target.id for x in ast.walk(st) if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name)}
                if isinstance(st, (ast.If, ast.With, ast.Try, ast.For)):
                    head = getattr(st, "test", None)
                    hr = {x.id for x in ast.walk(head) if isinstance(x, ast.Name)} if head is not None else set()
                    early.update((hr & all_stores) - seen)
                    branches = []
                    its = {x.id for x in ast.walk(st.iter) if isinstance(x, ast.Name)} if isinstance(st, ast.For) else set()
                    early.update((its & all_stores) - seen)
                    mine = {x.id for x in ast.walk(st.target) if isinstance(x, ast.Name)} if isinstance(st, ast.For) else set()
                    for blk in ("body", "orelse", "finalbody"):
                        s2 = set(seen) | mine
                        visit(getattr(st, blk, []) or [], s2)
                        branches.append(s2)
                    if isinstance(st, ast.If):
                        seen |= branches[0] & branches[1]
                    elif isinstance(st, ast.With):
                        seen |= branches[0]
                else:
                    early.update((reads & all_stores) - seen)
                    early.update(aug - seen)
                    seen |= stores
        all_stores = {x.id for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        early = set()
        visit(loop.body, seen)
        out |= early
        names = [x for b in loop.body for x in ast.walk(b) if isinstance(x, ast.Name)]
        # collections filled by the loop: an iteration may add to them, nothing else
        grow = {}
        for b in loop.body:
            for x in ast.walk(b):
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) and x.func.attr in MUTATORS:
                    grow.setdefault(x.func.value.id, []).append((x.func.value, x.func.attr))
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name):
                    grow.setdefault(x.value.id, []).append((x.value, "[]"))
        for k, sites in grow.items():
            if k in all_stores:
                continue  # covered above
            if any(a not in ("append", "extend", "add") for _, a in sites) or len([x for x in names if x.id == k]) > len(sites):
                out.add(k)
        # names bound in the loop and used after it
        for k in all_stores | tgt:
            after = [x for x in ast.walk(tree) if isinstance(x, ast.Name) and x.id == k and x.lineno > loop.end_lineno]
            stores = [x.lineno for x in after if isinstance(x.ctx, ast.Store)]
            if any(isinstance(x.ctx, ast.Load) and not any(l < x.lineno for l in stores) for x in after):
                out.add(k)
    return out


MUTATORS = {"append", "extend", "insert", "add", "update", "pop", "clear", "remove", "setdefault", "popitem", "discard", "sort", "reverse", "appendleft"}


class RollTask:
    weight = 1
    mod, fn, cfg = A, "optimize_with_rolling_horizon", {}
    assumes = ["C21: `n.optimize` overwrites result tables only (its contracts: C01-C09); after it the level tables have a value for every store and storage unit in the optimised snapshots"]

    def __init__(s, given): s.given, s.name = given, f"{A}.optimize_with_rolling_horizon[{'given snapshots' if given else 'all snapshots'}]"

    def execute(s, budget):
        from dv.sym import SymS
        from dv.verify import load
        t0 = time.time()
        core.STATS.update(solver_s=0.0, queries=0, sliced=0, paths=0)
        res = dict(function=s.name, obligations=[], undecided=None, paths=0, solver_s=0.0, queries=0, sliced=0)
        try:
            ld, m, meth = load(A)
            f = getattr(m, s.fn)
            c = carried(f)
            if c:
                raise Unsupported(f"state carried from one window to the next: {sorted(c)}")
            f.__globals__["__builtins__"].update(len=s_len, range=s_range, enumerate=s_enumerate, min=s_min, max=s_max)
            w = post.PW()
            seen = [0]

            def run(ctx):
                w.start()
                S = SymS(w)
                n = RNet(w, S)
                ctx.net, ctx.windows = n, 0
                M, h, o = z3.Int("M"), z3.Int("horizon"), z3.Int("overlap")
                ctx.fact(M >= 1)
                ctx.fact(o >= 0)
                seq = Seq(M)
                n.__dict__.update(ctx=ctx, M=M, h=h, o=o, requested=seq if not s.given else None, kwargs=dict(solver_name="x", extra=1))
                try:
                    out = f(n, seq if s.given else None, SInt(h), SInt(o), **n.kwargs)
                except ValueError:
                    ctx.prove("ValueError only when the overlap is not smaller than the length", h <= o)
                    return
                except (KeyError, IndexError) as e:
                    ctx.prove(f"no {type(e).__name__}: {e}", FALSE)
                    return
                ctx.prove("an overlap which is not smaller than the length is rejected", h > o)
                seen[0] += ctx.windows
                ctx._record("the loop is not left early", "refuted" if n.open else "proved", "")
                if not ctx.windows:
                    ctx.prove("at least one window", FALSE)
                ctx._record("returns the network", "proved" if out is n else "refuted", "")
            for ctx, _ in explore(run, deadline=t0 + budget):
                res["obligations"] += ctx.obligations
            # lemma over the window contract: every requested snapshot is in the window that starts last before it
            z = z3.Solver()
            M, h, o, k, i = z3.Ints("M h o k i")
            z.add(h > o, o >= 0, k >= 0, k < M, i >= 0, i * (h - o) <= k, k < i * (h - o) + (h - o))
            z.add(z3.Not(z3.And(i * (h - o) < M, k < z3.If(i * (h - o) + h < M, i * (h - o) + h, M))))
            r = z.check()
            res["obligations"].append(("lemma: every requested snapshot lies in a window", "proved" if r == z3.unsat else "unknown", ""))
            if not seen[0]:
                res["undecided"] = "no window reached"
        except Unsupported as e:
            res["undecided"] = f"outside the verified subset: {e}"
            res["tb"] = traceback.format_exc()
        except Exception as e:  # engine limitation
            res["undecided"] = f"{type(e).__name__}: {e}"
            res["tb"] = traceback.format_exc()
        res.update(paths=core.STATS["paths"], solver_s=core.STATS["solver_s"], queries=core.STATS["queries"], seconds=time.time() - t0)
        return res


def tasks(): return [RollTask(False), RollTask(True)]
