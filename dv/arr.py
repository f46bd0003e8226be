"""
Symbolic labelled arrays: the verifier's model of pandas, xarray, numpy and
linopy objects.  An array is a closure from label terms to element terms over
named axes (Idx); an index is a membership predicate over an infinite label
sort, so nothing here is bounded in the number of components or snapshots.
"""
from __future__ import annotations

import itertools

import z3

from dv.core import (AND, B, FALSE, IMP, NANNUM, NOT, OR, QF, R, SB, TRUE, Ctx, I, L, Num, Unsupported, bsum, fresh,
                     is_false, is_true, ite, num, q_all, q_any, qf, rv, strlab, uf, zb)


def unsup(msg):
    raise Unsupported(msg)


# ------------------------------------------------------------- label scalars
EMB = uf("emb", ("T",), I)  # position in optimised snapshots -> position in n.snapshots


class Lab:
    """A label handed to the code under verification."""

    __slots__ = ("t", "tag")

    def __init__(self, t, tag):
        self.t, self.tag = t, tag

    def _cmp(s, o):
        if isinstance(o, Lab):
            if s.tag == o.tag:
                return s.t, o.t
            if {s.tag, o.tag} == {"T", "TA"}:
                f = lambda z: EMB(z.t) if z.tag == "T" else z.t
                return f(s), f(o)
            unsup(f"compare labels {s.tag} {o.tag}")
        if isinstance(o, str):
            return s.t, strlab(o)
        if isinstance(o, int) and s.tag == "P":
            return s.t, z3.IntVal(o)
        if isinstance(o, z3.ExprRef):
            return s.t, o
        unsup(f"compare label with {type(o)}")

    def __eq__(s, o):
        if o is None:
            return False
        a, b = s._cmp(o)
        return SB(a == b)

    def __ne__(s, o):
        if o is None:
            return True
        a, b = s._cmp(o)
        return SB(a != b)

    def __hash__(s): return hash((s.tag, s.t.get_id()))
    def __str__(s): return str(s.t)
    __repr__ = __str__
    def __format__(s, f): return str(s.t)


class SInt:
    """symbolic int"""

    def __init__(s, t):
        s.t = t if isinstance(t, z3.ExprRef) else z3.IntVal(t)

    def _o(s, o):
        return o.t if isinstance(o, SInt) else o

    def __add__(s, o): return SInt(s.t + s._o(o))
    __radd__ = __add__
    def __sub__(s, o): return SInt(s.t - s._o(o))
    def __rsub__(s, o): return SInt(s._o(o) - s.t)
    def __eq__(s, o): return SB(s.t == s._o(o))
    def __ne__(s, o): return SB(s.t != s._o(o))
    def __lt__(s, o): return SB(s.t < s._o(o))
    def __le__(s, o): return SB(s.t <= s._o(o))
    def __gt__(s, o): return SB(s.t > s._o(o))
    def __ge__(s, o): return SB(s.t >= s._o(o))
    def __neg__(s): return SInt(-s.t)
    def __hash__(s): return s.t.get_id()
    def __str__(s): return str(s.t)
    __repr__ = __str__
    def __format__(s, f): return str(s.t)
    def __index__(s): raise Unsupported("concrete value of a symbolic integer")
    def _sc(s): return mkscal(Num(z3.ToReal(s.t)))
    def __truediv__(s, o): return s._sc() / (o._sc() if isinstance(o, SInt) else o)
    def __rtruediv__(s, o): return o / s._sc()
    def __mul__(s, o):
        if isinstance(o, int):
            return SInt(s.t * o)
        if isinstance(o, list):
            from dv.world import RepeatList
            return RepeatList(o, s)
        return s._sc() * (o._sc() if isinstance(o, SInt) else o)
    __rmul__ = __mul__
    def __pow__(s, o): return s._sc() ** o
    def __bool__(s): return bool(SB(s.t != 0))
    def __as_num__(s): return Num(z3.ToReal(s.t))


def canon(tag):
    return z3.Const("k:" + tag, I if tag != "L" else L)


# ------------------------------------------------------------- reification
_reif = [0]


def reify(tags, fn, hint="reif"):
    """z3 predicate p(labels) equivalent to the quantified formula fn(labels)."""
    probe = fn(*[canon(t) for t in tags])
    if not isinstance(probe, QF) or probe.kind == "atom":
        return lambda *ls: zb(qf(fn(*ls)).args[0])
    _reif[0] += 1
    p = uf(f"{hint}{_reif[0]}", tuple(tags), B) if tags else fresh(hint, B)
    if not tags:
        Ctx.cur.assume(QF("or", (qf(NOT(p)), qf(fn()))))
        Ctx.cur.assume(QF("or", (qf(p), qf(fn()).neg())))
        return lambda: p
    Ctx.cur.forall(tags, lambda *ls: QF("and", (QF("or", (qf(NOT(p(*ls))), qf(fn(*ls)))),
                                                QF("or", (qf(p(*ls)), qf(fn(*ls)).neg())))))
    return lambda *ls: p(*ls)


def b_and(a, b):
    if isinstance(a, QF) or isinstance(b, QF):
        return QF("and", (qf(a), qf(b)))
    return AND(zb(a), zb(b))


def b_or(a, b):
    if isinstance(a, QF) or isinstance(b, QF):
        return QF("or", (qf(a), qf(b)))
    return OR(zb(a), zb(b))


def b_not(a):
    return a.neg() if isinstance(a, QF) else NOT(zb(a))


# ------------------------------------------------------------- indices
class Idx:
    """pandas.Index / MultiIndex facade: name, sort tag, membership, order token."""

    def __init__(self, name, tag, mem, base, multi=False):
        self.name, self.tag, self._mem, self.base, self.multi = name, tag, mem, base, multi
        self._cache = {}

    def mem(self, l):
        k = l.get_id()
        if k not in self._cache:
            self._cache[k] = (zb(self._mem(l)), l)
        return self._cache[k][0]

    def clone(self, **kw):
        d = dict(name=self.name, tag=self.tag, mem=self._mem, base=self.base, multi=self.multi)
        d.update(kw)
        r = Idx(d["name"], d["tag"], d["mem"], d["base"], d["multi"])
        return r

    # pandas API
    @property
    def names(self): return [self.name]
    def rename(self, name): return self.clone(name=name)
    def set_names(self, name): return self.clone(name=name)
    def copy(self, *a, **k): return self.clone(name=k.get("name", self.name))
    @property
    def empty(self): return q_all([self.tag], lambda l: NOT(self.mem(l)))
    @property
    def size(self): return Size([self])
    @property
    def values(self): return NP([self], lambda l: l, "lab")
    def to_list(self): return self
    tolist = to_list
    def to_numpy(self): return self.values
    def __len__(self): raise Unsupported("len of a symbolic index")
    def __bool__(self): raise Unsupported("truth of an index")

    def filt(self, pred, base=None):
        return self.clone(mem=lambda l: AND(self.mem(l), zb(pred(l))), base=base or self.base)

    def intersection(self, o, sort=False):
        o = as_idx(o, self.tag)
        return self.clone(mem=lambda l: AND(self.mem(l), o.mem(l)), name=self.name if self.name == o.name else None)

    def __and__(self, o): return self.intersection(o)

    def difference(self, o, sort=None):
        o = as_idx(o, self.tag)
        return self.clone(mem=lambda l: AND(self.mem(l), NOT(o.mem(l))), base=("sorted", self.tag),
                          name=self.name if self.name == o.name else None)

    def union(self, o, sort=None):
        o = as_idx(o, self.tag)
        return self.clone(mem=lambda l: OR(self.mem(l), o.mem(l)), base=("sorted", self.tag),
                          name=self.name if self.name == o.name else None)

    def append(self, o):
        o = as_idx(o, self.tag)
        return self.clone(mem=lambda l: OR(self.mem(l), o.mem(l)), base=("append", self.base, o.base),
                          name=self.name if self.name == o.name else None)

    def isin(self, o):
        o = as_idx(o, self.tag)
        return NP([self], lambda l: o.mem(l), "bool")

    def unique(self, level=None):
        if level is None:
            return self
        if level in ("period", 0) and self.tag in ("T", "TA") and self.multi:
            from dv.world import W
            return W.cur.period_index(self)
        unsup(f"unique({level})")

    def get_level_values(self, level):
        from dv.world import W
        if level in (0, "period") and self.multi:
            return Series([self], lambda l: W.cur.per(l, self.tag), "lab", ltag="P")
        unsup("get_level_values")

    def get_loc(self, lab):
        from dv.world import W
        if isinstance(lab, Lab):
            if self.tag == "TA" and lab.tag == "T":
                return SInt(EMB(lab.t))
            if self.tag == lab.tag and self.tag in ("T", "TA"):
                return SInt(lab.t)
            if lab.tag == "P" and self.multi:
                return PeriodSel(lab.t)
        if isinstance(lab, int) and self.multi:
            return PeriodSel(z3.IntVal(lab))
        if isinstance(lab, Scal) and self.multi:
            return PeriodSel(lab_of(lab))
        unsup("get_loc")

    def __getitem__(self, k):
        if isinstance(k, int):
            if self.tag in ("T", "TA") and k == 0 and self.base in (("sns",), ("snapshots",)):
                return Lab(z3.IntVal(0), self.tag)
            if k == 0:
                if not Ctx.cur.branch(q_any([self.tag], lambda l: self.mem(l))):
                    raise IndexError("index 0 is out of bounds for axis 0 with size 0")
                return FirstOf(self)
            unsup("positional index access")
        if isinstance(k, slice):
            if k == slice(None):
                return self
            if self.tag == "T" and k.stop is None and isinstance(k.start, int) and k.step is None and self.base == ("sns",):
                s = k.start
                return self.clone(mem=lambda l: AND(self.mem(l), l >= s), base=("sns", s))
            if self.tag == "TA" and k.stop is None and k.step is None and isinstance(k.start, (int, SInt)):
                s = k.start.t if isinstance(k.start, SInt) else k.start
                return self.clone(mem=lambda l: AND(self.mem(l), l >= s), base=("snapshots>=", str(s)))
            unsup("index slice")
        if isinstance(k, PeriodSel):
            from dv.world import W
            return self.clone(mem=lambda l: AND(self.mem(l), W.cur.per(l, self.tag) == k.p), base=("sns@", str(k.p)))
        if isinstance(k, LA) and k.kind == "bool" and len(k.axes) == 1:
            check_same(self, k.axes[0], positional=True)
            pred = reify([self.tag], lambda l: k.fn(l), "filt")
            return self.filt(pred)
        unsup(f"index[{type(k)}]")

    def __eq__(self, o):
        if isinstance(o, str):
            return NP([self], lambda l: l == strlab(o), "bool")
        if isinstance(o, Lab):
            return NP([self], lambda l: l == o.t, "bool")
        if isinstance(o, Idx):
            return o is self or NP([self], lambda l: o.mem(l), "bool")
        return NotImplemented

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else ~r

    __hash__ = object.__hash__

    def equals(self, o):
        if not isinstance(o, Idx) or o.tag != self.tag:
            return False
        return q_all([self.tag], lambda l: self.mem(l) == o.mem(l))

    def sort_values(self): return self.clone(base=("sorted", self.tag))

    def __contains__(self, l):
        if isinstance(l, str):
            return bool(SB(self.mem(strlab(l))))
        if isinstance(l, Lab):
            return bool(SB(self.mem(conv(l.t, l.tag, self.tag))))
        if isinstance(l, int) and self.tag == "P":
            return bool(SB(self.mem(z3.IntVal(l))))
        if isinstance(l, Scal):
            return bool(SB(self.mem(lab_of(l))))
        unsup("index contains")

    def __iter__(self):
        """one generic iteration (see generic-loop rule in DESIGN.md)"""
        ctx = Ctx.cur
        if not ctx.branch(q_any([self.tag], lambda l: self.mem(l))):
            return
        g = fresh("it" + self.tag, self.tag)
        ctx.open_binder(g, self)
        ctx.assume(qf(self.mem(g)))
        yield Lab(g, self.tag)
        ctx.close_binder(g)

    def map(self, f): unsup("Index.map")

    @property
    def str(self): unsup("Index.str")

    def to_series(self): return Series([self], lambda l: l, "lab")

    def __str__(self): return f"Idx({self.name})"


class PeriodSel:
    def __init__(self, p): self.p = p


def conv(l, frm, to):
    if frm == to:
        return l
    if frm == "T" and to == "TA":
        return EMB(l)
    unsup(f"label conversion {frm}->{to}")


def lab_of(x):
    if isinstance(x, Lab):
        return x.t
    if isinstance(x, str):
        return strlab(x)
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Scal):
        v = x.fn()
        if isinstance(v, z3.ExprRef):
            return v
        if isinstance(v, Num) and not v.sums:
            t = z3.simplify(v.t)
            if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL:
                return t.arg(0)
            return z3.ToInt(v.t)
    if isinstance(x, z3.ExprRef):
        return x
    unsup(f"label of {type(x)}")


class SetIdx(Idx):
    pass


def as_idx(o, tag="L"):
    if isinstance(o, Idx):
        if o.tag != tag:
            if o.tag == "T" and tag == "TA":
                unsup("T index as TA")
        return o
    if isinstance(o, (list, tuple, set)) and all(isinstance(x, (str, Lab)) for x in o):
        ls = [lab_of(x) for x in o]
        return Idx(None, tag, lambda l: OR(*[l == x for x in ls]), ("lit", tuple(map(str, o))))
    if isinstance(o, LA) and len(o.axes) == 1:
        if o.kind == "lab":  # set of values of a series
            ax = o.axes[0]
            p = reify([o.ltag], lambda v: q_any([ax.tag], lambda x: AND(ax.mem(x), o.fn(x) == v)), "vals")
            return Idx(None, o.ltag, lambda l: p(l), ("vals", id(o)))
    unsup(f"index from {type(o)}")


def same(i, j):
    if i is j:
        return True
    if i.tag != j.tag:
        return False
    k = canon(i.tag)
    a, b = i.mem(k), j.mem(k)
    if a.eq(b):
        return True
    g = fresh("same", i.tag)
    key = (a.sexpr(), b.sexpr())
    c = Ctx.cur.same_cache
    if key in c:
        return c[key]
    ok = Ctx.cur._light(qf(i.mem(g) == j.mem(g)))
    if not ok:
        st = Ctx.cur.snapshot()
        Ctx.cur.assume(qf(i.mem(g) != j.mem(g)))
        r, _ = Ctx.cur.check(timeout=4000)
        Ctx.cur.restore(st)
        ok = r == z3.unsat
    if ok:
        c[key] = True
    return ok


def check_same(i, j, positional=False):
    if not same(i, j):
        unsup(f"indices not provably equal: {i.name} / {j.name}")
    if positional and i.base != j.base:
        unsup(f"positional use of differently ordered indices {i.base} / {j.base}")


class Size:
    """array size; only its truth value is defined"""

    def __init__(self, axes): self.axes = axes
    def nonempty(self):
        return QF("and", tuple(q_any([a.tag], lambda l, a=a: a.mem(l)) for a in self.axes)) if self.axes else qf(True)
    def __bool__(self): return bool(self.nonempty())
    def __gt__(self, o): return self.nonempty() if o == 0 else unsup("size compare")
    def __eq__(self, o): return self.nonempty().neg() if o == 0 else unsup("size compare")
    def __ne__(self, o): return self.nonempty() if o == 0 else unsup("size compare")


# ------------------------------------------------------------- arrays
class LA:
    """labelled array"""

    linopy = False

    def __init__(self, axes, fn, kind="num", ltag="L", **kw):
        self.axes, self.fn, self.kind, self.ltag = list(axes), fn, kind, ltag
        self.name = kw.get("name")

    def mk(self, axes=None, fn=None, kind=None, ltag=None, cls=None):
        axes = self.axes if axes is None else axes
        cls = cls or (type(self) if type(self) not in (Frame, Series, Scal) or len(axes) == len(self.axes) else
                      {0: Scal, 1: Series, 2: Frame}[len(axes)])
        r = cls(axes, fn or self.fn, kind or self.kind, ltag or self.ltag)
        r.name = self.name
        return r

    def _map(self, f, kind=None):
        fn = self.fn
        return self.mk(fn=lambda *ls: f(fn(*ls)), kind=kind)

    # elementwise
    def __neg__(s): return s._map(lambda v: -num(v))
    def __pos__(s): return s
    def __invert__(s):
        if s.kind != "bool":
            unsup("invert of non-bool")
        return s._map(b_not)
    def __abs__(s): return s._map(lambda v: ite(num(v) >= 0, num(v), -num(v)))
    abs = __abs__

    def _bin(s, o, f, kind="num", rev=False, **kw):
        g = (lambda a, b: f(b, a)) if rev else f
        return binop(s, o, g, kind, **kw)

    def __add__(s, o): return s._bin(o, lambda a, b: num(a) + num(b))
    def __radd__(s, o): return s._bin(o, lambda a, b: num(a) + num(b), rev=True)
    def __sub__(s, o): return s._bin(o, lambda a, b: num(a) - num(b))
    def __rsub__(s, o): return s._bin(o, lambda a, b: num(a) - num(b), rev=True)
    def __mul__(s, o): return s._bin(o, lambda a, b: num(a) * num(b))
    def __rmul__(s, o): return s._bin(o, lambda a, b: num(a) * num(b), rev=True)
    def __truediv__(s, o): return s._bin(o, lambda a, b: num(a) / num(b))
    def __rtruediv__(s, o): return s._bin(o, lambda a, b: num(a) / num(b), rev=True)
    def __pow__(s, o): return s._bin(o, lambda a, b: num(a) ** b)
    def __rpow__(s, o): return s._bin(o, lambda a, b: num(a) ** num(b), rev=True)
    def __lt__(s, o): return s._bin(o, lambda a, b: num(a) < num(b), "bool")
    def __le__(s, o): return s._bin(o, lambda a, b: num(a) <= num(b), "bool")
    def __gt__(s, o): return s._bin(o, lambda a, b: num(a) > num(b), "bool")
    def __ge__(s, o): return s._bin(o, lambda a, b: num(a) >= num(b), "bool")
    def __eq__(s, o): return s._bin(o, el_eq, "bool")
    def __ne__(s, o): return s._bin(o, lambda a, b: b_not(el_eq(a, b)), "bool")
    def __and__(s, o): return s._bin(o, lambda a, b: b_and(tob(a), tob(b)), "bool")
    __rand__ = __and__
    def __or__(s, o): return s._bin(o, lambda a, b: b_or(tob(a), tob(b)), "bool")
    __ror__ = __or__
    def __matmul__(s, o): return matmul(s, o)
    __hash__ = object.__hash__

    def mul(s, o, axis=None, level=None, fill_value=None): return s._bin(o, lambda a, b: num(a) * num(b), axis=axis, level=level)
    multiply = mul
    def add(s, o, axis=None, **k): return s._bin(o, lambda a, b: num(a) + num(b), axis=axis)
    def sub(s, o, axis=None, **k): return s._bin(o, lambda a, b: num(a) - num(b), axis=axis)
    subtract = sub
    def div(s, o, axis=None, **k): return s._bin(o, lambda a, b: num(a) / num(b), axis=axis)
    divide = truediv = div
    def pow(s, o, axis=None): return s._bin(o, lambda a, b: num(a) ** num(b), axis=axis)
    def eq(s, o, axis=None): return s._bin(o, el_eq, "bool", axis=axis)
    def ne(s, o, axis=None): return s._bin(o, lambda a, b: b_not(el_eq(a, b)), "bool", axis=axis)
    def gt(s, o, axis=None): return s._bin(o, lambda a, b: num(a) > num(b), "bool", axis=axis)
    def ge(s, o, axis=None): return s._bin(o, lambda a, b: num(a) >= num(b), "bool", axis=axis)
    def lt(s, o, axis=None): return s._bin(o, lambda a, b: num(a) < num(b), "bool", axis=axis)
    def le(s, o, axis=None): return s._bin(o, lambda a, b: num(a) <= num(b), "bool", axis=axis)

    def isnull(s): return s._map(lambda v: v.nan if isinstance(v, Num) else FALSE, "bool")
    isna = isnull
    def notnull(s): return ~s.isnull()
    notna = notnull

    def fillna(s, v):
        if isinstance(v, LA):
            return binop(s, v, lambda a, b: ite(num(a).nan, num(b), Num(num(a).t, num(a).sums)), "num")
        return s._map(lambda a: ite(num(a).nan, num(v), Num(num(a).t, num(a).sums)) if isinstance(a, Num) else a)

    def clip(s, lower=None, upper=None, min=None, max=None, axis=None):
        lower = min if lower is None else lower
        upper = max if upper is None else upper
        r = s
        if lower is not None:
            r = r._bin(lower, lambda a, b: ite(num(a) < num(b), num(b), num(a)))
        if upper is not None:
            r = r._bin(upper, lambda a, b: ite(num(a) > num(b), num(b), num(a)))
        return r

    def astype(s, ty):
        if ty is bool:
            return s if s.kind == "bool" else s._map(lambda v: NOT(num(v).eq(0)), "bool")
        if ty in (float, int, "float", "int"):
            return s._map(num, "num") if ty in (float, "float") or s.kind == "bool" else s
        if ty is str:
            return s
        unsup(f"astype {ty}")

    def round(s, *a, **k): unsup("round")
    def copy(s, deep=True): return s.mk()

    @property
    def empty(s): return Size(s.axes).nonempty().neg()
    @property
    def size(s): return Size(s.axes)
    @property
    def ndim(s): return len(s.axes)
    @property
    def values(s): return NP(s.axes, s.fn, s.kind, s.ltag)
    def to_numpy(s): return s.values
    def item(s):
        if s.axes:
            unsup("item of array")
        return s
    def squeeze(s, *a, **k): return s

    # reductions to a formula
    def q_all(s): return q_all([a.tag for a in s.axes], lambda *ls: qf(b_or(b_not(mems(s.axes, ls)), tob(s.fn(*ls)))))
    def q_any(s): return q_any([a.tag for a in s.axes], lambda *ls: qf(b_and(mems(s.axes, ls), tob(s.fn(*ls)))))

    def reduce_axis(s, i, f):
        """f(tag, axis, elementfn) -> element, for axis i"""
        ax = s.axes[i]
        rest = s.axes[:i] + s.axes[i + 1:]
        fn = s.fn
        return rest, lambda *ls: f(ax, lambda l: fn(*ls[:i], l, *ls[i:]))


def tob(v):
    if isinstance(v, Num):
        return AND(NOT(v.nan), NOT(v.eq(0)))
    if isinstance(v, SB):
        return v.b
    return v


def mems(axes, ls):
    return AND(*[a.mem(l) for a, l in zip(axes, ls)])


def el_eq(a, b):
    if isinstance(a, str):
        a = strlab(a)
    if isinstance(b, str):
        b = strlab(b)
    if isinstance(a, Lab):
        a = a.t
    if isinstance(b, Lab):
        b = b.t
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and a.sort() == b.sort():
        return a == b
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef) and L in (a.sort(), b.sort()):
        return FALSE
    if a is None or b is None:
        return FALSE
    return num(a).eq(num(b))


def scalar_el(o):
    if isinstance(o, Lab):
        return o.t
    if isinstance(o, str):
        return strlab(o)
    if isinstance(o, SB):
        return o.b
    if isinstance(o, SInt):
        return Num(z3.ToReal(o.t))
    if isinstance(o, (int, float, Num)) or hasattr(o, "dtype"):
        return num(o)
    if isinstance(o, z3.ExprRef):
        return o
    return None


RANK = {"Scal": 0, "NP": 1, "Series": 2, "Frame": 3, "DA": 4, "LinExpr": 5, "Var": 5}


def rank(x):
    for k in type(x).__mro__:
        if k.__name__ in RANK:
            return RANK[k.__name__]
    unsup(f"operand {type(x)}")


def binop(a, b, f, kind="num", axis=None, level=None):
    if not isinstance(b, LA):
        e = scalar_el(b)
        if e is None:
            if b is None:
                unsup("operation with None")
            if hasattr(b, "as_la"):
                b = b.as_la(a)
            else:
                return NotImplemented
        else:
            fn = a.fn
            return lin_result(a, None, a.axes, lambda *ls: f(fn(*ls), e), kind, f)
    if not isinstance(a, LA):
        unsup("binop")
    if not b.axes:
        fa, fb = a.fn, b.fn
        if b.linopy and not a.linopy:
            return DA(a.axes, fa, a.kind)._lin(b, f) if False else lin_result(b, a, a.axes, lambda *ls: f(fa(*ls), fb()), kind, f)
        return lin_result(a, b, a.axes, lambda *ls: f(fa(*ls), fb()), kind, f)
    if not a.axes:
        fa, fb = a.fn, b.fn
        return lin_result(b, a, b.axes, lambda *ls: f(fa(), fb(*ls)), kind, f)
    ra, rb = rank(a), rank(b)
    if max(ra, rb) >= 4:  # xarray / linopy: by dimension name
        if ra < 4:
            a = to_da(a, b.axes)
        if rb < 4:
            b = to_da(b, a.axes)
        return named(a, b, f, kind)
    if isinstance(a, NP) or isinstance(b, NP):
        if isinstance(a, NP) and isinstance(b, NP) or len(a.axes) == len(b.axes):
            if len(a.axes) == 2 and len(b.axes) == 1:
                check_same(a.axes[1], b.axes[0], True)
                fa, fb = a.fn, b.fn
                return a.mk(fn=lambda i, j: f(fa(i, j), fb(j)), kind=kind)
            if len(a.axes) != len(b.axes):
                unsup("numpy broadcasting")
            for x, y in zip(a.axes, b.axes):
                check_same(x, y, True)
            fa, fb = a.fn, b.fn
            host = b if isinstance(a, NP) else a
            return host.mk(fn=lambda *ls: f(fa(*ls), fb(*ls)), kind=kind)
        if isinstance(a, Frame) and len(b.axes) == 1:
            i = 0 if axis in (0, "index") else 1
            check_same(a.axes[i], b.axes[0], True)
            fa, fb = a.fn, b.fn
            return a.mk(fn=lambda *ls: f(fa(*ls), fb(ls[i])), kind=kind)
        unsup("numpy/pandas broadcasting")
    return pandas_op(a, b, f, kind, axis, level)


def lin_result(host, other, axes, fn, kind, f):
    if host.linopy:
        pres = host.pres
        if other is not None and other.linopy:
            if other.axes:
                unsup("linopy scalar op")
            p2 = other.pres
            return LinExpr(axes, fn, pres=lambda *ls: b_or(pres(*ls), p2()))
        if len(axes) != len(host.axes):
            return LinExpr(axes, fn, pres=lambda *ls: pres())
        return LinExpr(axes, fn, pres=pres)
    r = host.mk(axes=axes, fn=fn, kind=kind)
    return r


def to_da(x, like=None):
    """pandas / numpy -> DataArray with dimension names"""
    if isinstance(x, NP):
        if like is None or len(like) != len(x.axes):
            unsup("numpy array without dimensions")
        out = []
        for a, l in zip(x.axes, like):
            check_same(a, l, True)
            out.append(l)
        return DA(out, x.fn, x.kind, x.ltag)
    axes = []
    for i, a in enumerate(x.axes):
        if a.name is None:
            axes.append(a.rename(f"dim_{i}"))
        else:
            axes.append(a)
    return DA(axes, x.fn, x.kind, x.ltag)


def named(a, b, f, kind):
    """broadcast by dimension name; equal indices required on shared dims"""
    axes = list(a.axes)
    pos = {x.name: i for i, x in enumerate(axes)}
    for y in b.axes:
        if y.name in pos:
            i = pos[y.name]
            if not same(axes[i], y):
                # xarray / linopy align to the inner / outer join: keep what both sides share
                axes[i] = align(axes[i], y, a, b)
        else:
            pos[y.name] = len(axes)
            axes.append(y)
    na = len(a.axes)
    ib = [pos[y.name] for y in b.axes]
    fa, fb = a.fn, b.fn
    fn = lambda *ls: f(fa(*ls[:na]), fb(*[ls[i] for i in ib]))
    if a.linopy or b.linopy:
        pa = (lambda *ls: a.pres(*ls[:na])) if a.linopy else None
        pb = (lambda *ls: b.pres(*[ls[i] for i in ib])) if b.linopy else None
        if kind == "bool":
            return DA(axes, fn, "bool")
        if pa and pb:
            return LinExpr(axes, fn, pres=lambda *ls: b_or(pa(*ls), pb(*ls)))
        return LinExpr(axes, fn, pres=pa or pb)
    return DA(axes, fn, kind)


def align(x, y, a, b):
    if a.linopy or b.linopy:
        unsup(f"linopy alignment of different indices on {x.name}")
    return x.clone(mem=lambda l: AND(x.mem(l), y.mem(l)))


def pandas_op(a, b, f, kind, axis, level):
    fa, fb = a.fn, b.fn
    if len(a.axes) == len(b.axes):
        outer = []
        allsame = True
        for x, y in zip(a.axes, b.axes):
            if same(x, y):
                outer.append(x)
            elif level == 0 and y.tag == "P" and x.multi:
                pass
            else:
                if x.tag != y.tag:
                    if level == 0 and y.tag == "P":
                        outer.append(x)
                        continue
                    unsup("pandas alignment across sorts")
                allsame = False
                outer.append(x.union(y))
        if level == 0 and b.axes[0].tag == "P":
            from dv.world import W
            tg = a.axes[0].tag
            return a.mk(fn=lambda t, *r: f(fa(t, *r), fb(W.cur.per(t, tg), *r)), kind=kind)
        if allsame:
            return a.mk(fn=lambda *ls: f(fa(*ls), fb(*ls)), kind=kind)
        return a.mk(axes=outer, kind=kind, fn=lambda *ls: miss(
            AND(*[x.mem(l) for x, l in zip(a.axes, ls)], *[y.mem(l) for y, l in zip(b.axes, ls)]), f(fa(*ls), fb(*ls))))
    if len(a.axes) == 1 and len(b.axes) == 2:
        r = pandas_op(b, a, lambda u, v: f(v, u), kind, axis, level)
        return r
    i = 0 if axis in (0, "index") else 1
    x, y = a.axes[i], b.axes[0]
    if level == 0 and y.tag == "P" and x.multi:
        from dv.world import W
        return a.mk(fn=lambda *ls: f(fa(*ls), fb(W.cur.per(ls[i], x.tag))), kind=kind)
    if same(x, y):
        return a.mk(fn=lambda *ls: f(fa(*ls), fb(ls[i])), kind=kind)
    if x.tag != y.tag:
        unsup(f"pandas alignment of {x.tag} with {y.tag}")
    ax = list(a.axes)
    ax[i] = x.union(y)
    return a.mk(axes=ax, kind=kind, fn=lambda *ls: miss(AND(x.mem(ls[i]), y.mem(ls[i])), f(fa(*ls), fb(ls[i]))))


def miss(cond, v):
    """v where cond, else missing"""
    if is_true(cond):
        return v
    if isinstance(v, Num):
        return Num(v.t, v.sums, OR(v.nan, NOT(cond)))
    if isinstance(v, QF):
        return QF("and", (qf(cond), v))
    if isinstance(v, z3.BoolRef):
        return AND(cond, v)
    return v


def matmul(a, b):
    """pandas dot product over the shared axis"""
    if isinstance(a, Frame) and isinstance(b, Series):
        check_same(a.axes[1], b.axes[0])
        ax = a.axes[1]
        return Series([a.axes[0]], lambda x: axis_sum(ax, lambda l: num(a.fn(x, l)) * num(b.fn(l))))
    if isinstance(a, Series) and isinstance(b, Series):
        check_same(a.axes[0], b.axes[0])
        ax = a.axes[0]
        return Scal([], lambda: axis_sum(ax, lambda l: num(a.fn(l)) * num(b.fn(l))))
    if isinstance(a, NP) or isinstance(b, NP):
        unsup("numpy matmul")
    unsup("matmul")


def axis_sum(ax, f):
    return bsum([ax.tag], lambda l: f(l), lambda l: ax.mem(l))


class Scal(LA):
    def __init__(self, axes, fn, kind="num", ltag="L", **k):
        super().__init__([], fn, kind, ltag)

    def __bool__(s):
        v = s.fn()
        if isinstance(v, QF):
            return bool(v)
        return bool(SB(tob(v)))

    def __as_num__(s): return num(s.fn())
    def __float__(s): unsup("float of symbolic scalar")
    def __format__(s, spec): return str(s.fn())
    def __str__(s): return str(s.fn())
    def __int__(s): return s
    def all(s, *a, **k): return s
    any = all
    def sum(s, *a, **k): return s
    def split(s, *a): unsup("split of symbolic string")
    def __hash__(s): return id(s)
    def item(s): return s
    def is_integer(s): unsup("is_integer")


def mkscal(v, kind=None, ltag="L"):
    if kind is None:
        kind = "num" if isinstance(v, Num) else "bool" if isinstance(v, (z3.BoolRef, QF)) else "lab"
    return Scal([], lambda: v, kind, ltag)


class NP(LA):
    """numpy view: positional, remembers the index it came from"""

    def all(s, *a, **k): return s.q_all()
    def any(s, *a, **k): return s.q_any()

    def sum(s, *a, **k):
        if len(s.axes) != 1:
            unsup("np sum")
        ax = s.axes[0]
        return mkscal(axis_sum(ax, lambda l: num(s.fn(l))))

    def __getitem__(s, k): unsup("numpy indexing")
    @property
    def T(s):
        if len(s.axes) == 2:
            f = s.fn
            return s.mk(axes=s.axes[::-1], fn=lambda i, j: f(j, i))
        return s
    @property
    def shape(s): unsup("shape")


class PandasBase(LA):
    def where(s, cond, other=None):
        other = NANNUM if other is None else other
        return where(s, cond, other)

    def mask(s, cond, other=None):
        return s.where(~cond, other)

    def rename_axis(s, name=None, columns=None, index=None, axis=None):
        ax = list(s.axes)
        if columns is not None:
            ax[1] = ax[1].rename(columns)
        if name is not None or index is not None:
            ax[0] = ax[0].rename(name if name is not None else index)
        return s.mk(axes=ax)

    def to_xarray(s): return to_da(s)

    def set_index_name(s, name): s.axes[0] = s.axes[0].rename(name)

    def map(s, m): return series_map(s, m)


class IndexProxy(Idx):
    """`df.index` whose .name can be assigned"""


def wrap_idx(owner, i):
    a = owner.axes[i]
    w = IndexView(a.name, a.tag, a._mem, a.base, a.multi)
    object.__setattr__(w, "_owner", (owner, i))
    w._cache = a._cache
    return w


class IndexView(Idx):
    def __setattr__(self, k, v):
        object.__setattr__(self, k, v)
        if k == "name" and "_owner" in self.__dict__:
            o, i = self._owner
            o.axes[i] = o.axes[i].rename(v)


def where(s, cond, other):
    """pandas/xarray where with same-axes or broadcast condition"""
    if isinstance(cond, (SB, QF, bool)):
        c = qf(cond)
        unsup("scalar where")
    if not isinstance(cond, LA):
        unsup("where condition")
    if isinstance(other, LA):
        pick = binop(s, other, lambda a, b: (a, b), s.kind)
        fn = pick.fn
        base = pick
        return binop(base, cond, lambda ab, c: ite_any(tob(c), ab[0], ab[1]), s.kind)
    e = scalar_el(other) if not isinstance(other, Num) else other
    if isinstance(other, bool):
        e = zb(other)
    return binop(s, cond, lambda a, c: ite_any(tob(c), a, e), s.kind)


def ite_any(c, a, b):
    if isinstance(c, QF):
        c = reify([], lambda: c, "cond")()
    if isinstance(a, QF) or isinstance(b, QF):
        return QF("or", (QF("and", (qf(c), qf(a))), QF("and", (qf(NOT(c)), qf(b)))))
    return ite(c, a, b)


class Loc:
    def __init__(self, o, kind="loc"): self.o, self.kind = o, kind
    def __getitem__(self, k): return self.o._loc(k) if self.kind == "loc" else self.o._iloc(k)
    def __setitem__(self, k, v):
        if self.kind != "loc":
            unsup("iloc assignment")
        self.o._setloc(k, v)


def sel_axis(ax, key):
    """select labels on one axis: returns ('idx', Idx, labelmap) or ('pt', label)"""
    if isinstance(key, Lab):
        return "pt", conv(key.t, key.tag, ax.tag)
    if isinstance(key, str) and ax.tag == "L":
        return "pt", strlab(key)
    if isinstance(key, z3.ExprRef):
        return "pt", key
    if isinstance(key, Scal):
        return "pt", lab_of(key)
    if isinstance(key, int) and ax.tag == "P":
        return "pt", z3.IntVal(key)
    if isinstance(key, slice) and key == slice(None):
        return "idx", ax, None
    if isinstance(key, Idx):
        if key.tag == ax.tag:
            return "idx", key, None
        if key.tag == "T" and ax.tag == "TA":
            return "idx", key, EMB
        unsup(f"select {ax.tag} axis with {key.tag} index")
    if isinstance(key, LA) and len(key.axes) == 1:
        if key.kind == "bool":
            if isinstance(key, Series):
                if not same(ax, key.axes[0]):
                    # pandas reindexes a boolean Series key to the axis
                    unsup("boolean key with different index")
            else:
                check_same(ax, key.axes[0], True)
            pred = reify([ax.tag], lambda l: tob(key.fn(l)), "sel")
            return "idx", ax.filt(pred), None
        if key.kind == "lab" and isinstance(key, NP):
            i = as_idx(key, ax.tag)
            return "idx", i, None
        if key.kind == "lab":
            return "idx", as_idx(key, ax.tag), None
    if isinstance(key, (list, tuple)) and all(isinstance(x, (str, Lab)) for x in key):
        return "idx", as_idx(list(key), ax.tag), None
    if callable(key):
        unsup("callable selection")
    unsup(f"selection with {type(key)}")


def select(s, keys):
    """positional-per-axis label selection"""
    axes, plan = [], []
    for ax, k in zip(s.axes, keys):
        r = sel_axis(ax, k)
        if r[0] == "pt":
            plan.append(("pt", r[1], ax))
        else:
            plan.append(("ax", r[2], ax, r[1]))
            axes.append(r[1])
    fn = s.fn

    def new(*ls):
        it = iter(ls)
        args, cond = [], []
        for p in plan:
            if p[0] == "pt":
                args.append(p[1])
            else:
                l = next(it)
                l2 = p[1](l) if p[1] is not None else l
                args.append(l2)
                if p[3] is not p[2]:
                    cond.append((p[2], l2, p[3], l))
        return fn(*args)
    return axes, new


class Series(PandasBase):
    def __init__(self, axes, fn, kind="num", ltag="L", **k):
        super().__init__(axes, fn, kind, ltag, **k)

    @property
    def index(s): return wrap_idx(s, 0)
    @index.setter
    def index(s, v):
        check_same(s.axes[0], v, True)
        s.axes[0] = v
    @property
    def loc(s): return Loc(s)
    at = loc
    @property
    def iloc(s): return Loc(s, "iloc")

    def _loc(s, k):
        if callable(k) and not isinstance(k, (LA, Idx, Lab)):
            k = k(s)
        axes, fn = select(s, [k])
        return s.mk(axes=axes, fn=fn)

    def __getitem__(s, k): return s._loc(k)

    def _iloc(s, k):
        if isinstance(k, SInt) and s.axes[0].tag == "TA":
            from dv.world import W
            t = z3.If(k.t < 0, k.t + W.cur.NA, k.t)
            fn = s.fn
            return mkscal(fn(t))
        unsup("Series.iloc")

    def _setloc(s, k, v):
        ax = s.axes[0]
        r = sel_axis(ax, k)
        old = s.fn
        vf = value_fn(v, [r[1]] if r[0] == "idx" else [])
        if r[0] == "pt":
            s.fn = lambda l: ite_any(l == r[1], vf(), old(l))
        else:
            s.fn = lambda l: ite_any(r[1].mem(l), vf(l), old(l))

    def __setitem__(s, k, v): s._setloc(k, v)

    def reindex(s, idx=None, fill_value=None, **k):
        idx = k.get("index", idx)
        return reindex_axis(s, 0, idx, fill_value)

    def rename(s, name=None, **k):
        r = s.mk()
        r.name = name
        return r

    def to_frame(s, name=None):
        return ToFrame(s, name)

    def sum(s, *a, **k):
        ax = s.axes[0]
        return mkscal(axis_sum(ax, lambda l: num(s.fn(l))))

    def all(s, *a, **k): return s.q_all()
    def any(s, *a, **k): return s.q_any()

    def isin(s, o):
        o = as_idx(o, s.ltag)
        return s._map(lambda v: o.mem(v), "bool")

    def unique(s): return as_idx(s)
    def dropna(s):
        ax = s.axes[0].filt(lambda l: NOT(num(s.fn(l)).nan))
        return s.mk(axes=[ax])

    def eq_(s, o): return s == o

    def groupby(s, by, **k): return GroupBy(s, 0, by)
    def replace(s, a, b): return s._map(lambda v: ite(el_eq(v, a), num(b), num(v)) if s.kind == "num" else unsup("replace"))

    def max(s): return ExtremumScal(s, True)
    def min(s): return ExtremumScal(s, False)
    def items(s):
        for l in s.axes[0]:
            yield l, mkscal(s.fn(l.t), s.kind, s.ltag)
    def __iter__(s):
        for l in s.axes[0]:
            yield mkscal(s.fn(l.t), s.kind, s.ltag)
    def keys(s): return s.index
    def nunique(s): unsup("nunique")
    @property
    def str(s): unsup("Series.str")
    @property
    def T(s): return s


class ExtremumScal:
    """max()/min() of an array; only comparisons are defined"""

    def __init__(self, s, mx): self.s, self.mx = s, mx

    def _c(self, o, op, universal):
        m = op(self.s, o)
        return m.q_all() if universal else m.q_any()

    def __le__(self, o): return self._c(o, lambda a, b: a <= b, self.mx)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b, self.mx)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, not self.mx)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, not self.mx)


class ColExtremum:
    """DataFrame.max()/min(): per-column extremum; comparisons with scalars"""

    def __init__(self, f, mx): self.f, self.mx = f, mx

    def _c(self, o, op, universal):
        m = op(self.f, o)
        return m.all() if universal else m.any()

    def __le__(self, o): return self._c(o, lambda a, b: a <= b, self.mx)
    def __lt__(self, o): return self._c(o, lambda a, b: a < b, self.mx)
    def __gt__(self, o): return self._c(o, lambda a, b: a > b, not self.mx)
    def __ge__(self, o): return self._c(o, lambda a, b: a >= b, not self.mx)


def value_fn(v, axes):
    """closure giving the assigned value at labels of the selected axes"""
    if isinstance(v, LA):
        if not v.axes:
            return lambda *ls: v.fn()
        if len(v.axes) == 1 and len(axes) >= 1:
            ax = axes[-1]
            if not same(v.axes[0], ax):
                if isinstance(v, Series):
                    return lambda *ls: miss(v.axes[0].mem(ls[-1]), v.fn(ls[-1]))
                unsup("assignment of differently indexed array")
            if not isinstance(v, Series):
                check_same(v.axes[0], ax, True)
            return lambda *ls: v.fn(ls[-1])
        if len(v.axes) == len(axes):
            return lambda *ls: miss(mems(v.axes, ls), v.fn(*ls))
        unsup("assignment shape")
    e = scalar_el(v)
    if isinstance(v, bool):
        e = zb(v)
    if e is None:
        unsup(f"assign {type(v)}")
    return lambda *ls: e


def reindex_axis(s, i, idx, fill_value=None):
    if idx is None:
        return s
    if isinstance(idx, LA):
        idx = as_idx(idx, s.axes[i].tag)
    ax = s.axes[i]
    fn = s.fn
    f = None
    if idx.tag != ax.tag:
        if idx.tag == "T" and ax.tag == "TA":
            f = EMB
        else:
            unsup(f"reindex {ax.tag} with {idx.tag}")
    axes = list(s.axes)
    axes[i] = idx

    def new(*ls):
        l = f(ls[i]) if f is not None else ls[i]
        a = ls[:i] + (l,) + ls[i + 1:]
        v = fn(*a)
        if fill_value is not None:
            return ite_any(ax.mem(l), v, num(fill_value) if s.kind == "num" else zb(fill_value))
        return miss_sub(idx, ls[i], ax, l, v)
    return s.mk(axes=axes, fn=new)


def miss_sub(idx, l, ax, l2, v):
    """missing where l in idx but not in ax; skip the flag when idx subset of ax is evident"""
    if idx is ax:
        return v
    m = ax.mem(l2)
    g = idx.mem(l)
    if implied(g, m):
        return v
    return miss(m, v)


def conj(e):
    if z3.is_and(e):
        out = []
        for c in e.children():
            out += conj(c)
        return out
    return [e]


def implied(g, m):
    if is_true(m) or g.eq(m):
        return True
    cs = conj(g)
    return all(any(x.eq(c) for c in cs) for x in conj(m))


def subset(a, b):
    """index a is contained in index b (syntactically, or proved by the solver)"""
    k = canon(a.tag)
    if implied(a.mem(k), b.mem(k)):
        return True
    k = fresh("k", a.tag)
    ctx = Ctx.cur
    if ctx._light(qf(IMP(a.mem(k), b.mem(k)))):
        return True
    st = ctx.snapshot()
    ctx.assume(qf(AND(a.mem(k), NOT(b.mem(k)))))
    r, _ = ctx.check(timeout=3000)
    ctx.restore(st)
    return r == z3.unsat


class ToFrame:
    """ser.to_frame(col).reindex(columns=cols).ffill(axis=1): expand_series idiom"""

    def __init__(self, s, name): self.s, self.nm = s, name

    def reindex(self, columns=None):
        s = self.s
        first = self.nm
        return ExpandFrame(s, first, columns)


class ExpandFrame:
    def __init__(self, s, first, cols): self.s, self.first, self.cols = s, first, cols

    def ffill(self, axis=None):
        if axis not in (1, "columns"):
            unsup("ffill axis")
        f, c = self.first, self.cols
        if isinstance(f, FirstOf) and same(f.idx, c):
            pass
        elif not (isinstance(f, Lab) and f.tag == c.tag == "T" and c.base == ("sns",) and z3.is_int_value(f.t) and f.t.as_long() == 0):
            unsup("expand_series pattern")
        s = self.s
        return Frame([s.axes[0], self.cols], lambda a, b: s.fn(a))


class FirstOf:
    """first element of an index (position 0)"""

    def __init__(self, idx): self.idx = idx


class Frame(PandasBase):
    @property
    def index(s): return wrap_idx(s, 0)
    @index.setter
    def index(s, v):
        if isinstance(v, Idx):
            check_same(s.axes[0], v, True)
            s.axes[0] = v
    @property
    def columns(s): return wrap_idx(s, 1)
    @columns.setter
    def columns(s, v):
        check_same(s.axes[1], v, True)
        s.axes[1] = v

    def axes_(s): return s.axes
    @property
    def loc(s): return Loc(s)
    at = loc
    @property
    def iloc(s): return Loc(s, "iloc")

    def _loc(s, k):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        k = tuple(x(s) if callable(x) and not isinstance(x, (LA, Idx, Lab)) else x for x in k)
        axes, fn = select(s, k)
        return s.mk(axes=axes, fn=fn)

    def _iloc(s, k):
        if isinstance(k, SInt) and s.axes[0].tag == "TA":
            from dv.world import W
            t = z3.If(k.t < 0, k.t + W.cur.NA, k.t)
            fn = s.fn
            return Series([s.axes[1]], lambda x: fn(t, x), s.kind, s.ltag)
        if isinstance(k, slice) and k.start is None and k.step is None and isinstance(k.stop, SInt) and s.axes[0].tag == "TA":
            from dv.world import W, RevPrefix
            return RevPrefix(W.cur, k.stop.t, s.axes[1], lambda r, x: num(s.fn(r, x)).z3() == 1, reverse=False)
        unsup("Frame.iloc")

    def _setloc(s, k, v):
        if not isinstance(k, tuple):
            k = (k, slice(None))
        rs = [sel_axis(a, x) for a, x in zip(s.axes, k)]
        free = [r[1] for r in rs if r[0] == "idx"]
        vf = value_fn(v, free)
        old = s.fn

        def new(*ls):
            cond, args = [], []
            for r, l in zip(rs, ls):
                if r[0] == "pt":
                    cond.append(l == r[1])
                else:
                    if r[2] is not None:
                        unsup("assignment through snapshot subset")
                    cond.append(r[1].mem(l))
                    args.append(l)
            return ite_any(AND(*cond), coerce(vf(*args), s.kind), old(*ls))
        s.fn = new

    def __getitem__(s, k):
        if isinstance(k, (Idx, list)) or (isinstance(k, LA) and k.kind == "lab"):
            axes, fn = select(s, (slice(None), k))
            return s.mk(axes=axes, fn=fn)
        if isinstance(k, (Lab, str)):
            axes, fn = select(s, (slice(None), k))
            return s.mk(axes=axes, fn=fn)
        if isinstance(k, LA) and k.kind == "bool":
            if len(k.axes) == 2:
                return s.where(k)
            axes, fn = select(s, (k, slice(None)))
            return s.mk(axes=axes, fn=fn)
        if callable(k):
            return s[k(s)]
        unsup("Frame[]")

    def reindex(s, index=None, columns=None, fill_value=None, level=None, axis=None):
        if level is not None:
            if level not in (0, "period") or columns is not None or not isinstance(index, Idx) or not index.multi or s.axes[0].tag != "P":
                unsup("reindex level")
            from dv.world import W
            ax, f, tag = s.axes[0], s.fn, index.tag
            per = lambda t: W.cur.per(t, tag)
            return s.mk(axes=[index, s.axes[1]], fn=lambda t, x: miss(ax.mem(per(t)), f(per(t), x)) if not (s.kind == "bool" and is_true(z3.simplify(zb(ax.mem(per(t)))))) else f(per(t), x))
        if axis in (1, "columns"):
            index, columns = None, index
        r = s
        if index is not None:
            r = reindex_axis(r, 0, index, fill_value)
        if columns is not None:
            r = reindex_axis(r, 1, columns, fill_value)
        return r

    @property
    def T(s):
        fn = s.fn
        return Frame(s.axes[::-1], lambda a, b: fn(b, a), s.kind, s.ltag)

    transpose = lambda s: s.T

    def all(s, axis=0):
        if axis is None:
            return s.q_all()
        i = 1 if axis in (1, "columns") else 0
        rest, fn = s.reduce_axis(i, lambda ax, f: q_all([ax.tag], lambda l: b_or(NOT(ax.mem(l)), tob(f(l)))))
        return Series(rest, fn, "bool")

    def any(s, axis=0):
        if axis is None:
            return s.q_any()
        i = 1 if axis in (1, "columns") else 0
        rest, fn = s.reduce_axis(i, lambda ax, f: q_any([ax.tag], lambda l: b_and(ax.mem(l), tob(f(l)))))
        return Series(rest, fn, "bool")

    def sum(s, axis=0):
        i = 1 if axis in (1, "columns") else 0
        rest, fn = s.reduce_axis(i, lambda ax, f: axis_sum(ax, lambda l: num(f(l))))
        return Series(rest, fn, "num")

    def max(s, axis=0): return ColExtremum(s, True)
    def min(s, axis=0): return ColExtremum(s, False)
    def groupby(s, by=None, level=None, axis=0): return GroupBy(s, 0 if axis == 0 else 1, by)

    def cumsum(s, axis=0):
        return cumsum(s, 0)

    def rename(s, columns=None, index=None):
        if isinstance(columns, Series):
            return RelabelFrame(s, columns)
        unsup("Frame.rename")

    def stack(s): unsup("stack")
    def filter(s, **k): unsup("filter")
    def dropna(s, **k): unsup("dropna")
    def items(s):
        for l in s.axes[1]:
            yield l, s[l]


def coerce(v, kind):
    if kind == "num" and isinstance(v, z3.BoolRef):
        return num(v)
    return v


class RelabelFrame:
    """frame whose columns were renamed by a (non-injective) label map"""

    def __init__(self, f, m): self.f, self.m = f, m


class GroupBy:
    def __init__(self, s, i, by):
        self.s, self.i = s, i
        if not isinstance(by, LA) or len(by.axes) != 1 or by.kind != "lab":
            unsup("groupby key")
        self.by = by
        check_same(s.axes[i], by.axes[0])

    def sum(self):
        s, i, by = self.s, self.i, self.by
        ax = s.axes[i]
        p = reify([by.ltag], lambda b: q_any([ax.tag], lambda x: AND(ax.mem(x), by.fn(x) == b)), "grp")
        gax = Idx(by.name, by.ltag, lambda b: p(b), ("grouped", id(self)))
        axes = s.axes[:i] + [gax] + s.axes[i + 1:]
        fn = s.fn

        def new(*ls):
            b = ls[i]
            return bsum([ax.tag], lambda x: num(fn(*ls[:i], x, *ls[i + 1:])),
                        lambda x: AND(ax.mem(x), by.fn(x) == b))
        return s.mk(axes=axes, fn=new)


def series_map(s, m):
    if isinstance(m, Series):
        ax = m.axes[0]
        return Series(s.axes, lambda l: miss(ax.mem(s.fn(l)), m.fn(s.fn(l))), m.kind, m.ltag)
    unsup("Series.map")


_cum = [0]


def cumsum(s, i):
    """cumulative sum over the snapshot (T) or period (P) axis; only ==1 / !=1 tests on 0/1 data"""
    ax = s.axes[i]
    if s.kind != "bool":
        unsup("cumsum of non-boolean")
    return CumSum(s, i)


def within(axes, pres):
    """pres restricted to labels of the axes"""
    def f(*ls):
        p = pres(*ls)
        m = AND(*[a.mem(l) for a, l in zip(axes, ls)])
        if isinstance(p, QF) and p.kind != "atom":
            return QF("and", (qf(m), p))
        return AND(m, qf(p).args[0])
    return f


class CumSum(LA):
    """running count of a boolean array; comparisons with 1 give 'first true so far'"""

    def __init__(self, s, i):
        super().__init__(s.axes, None, "num")
        self.s, self.i = s, i

    def mk(self, **k): unsup("cumsum arithmetic")

    def _is_one(self):
        """exactly one true at positions <= l"""
        s, i = self.s, self.i
        ax = s.axes[i]

        from dv.world import W
        last, has = W.cur.last_present(ax, i, within(s.axes, s.fn), [a.tag for a in s.axes])

        def fn(*ls):  # there is a true position, and none before it
            return AND(has(*ls), NOT(has(*ls[:i], last(*ls) - 1, *ls[i + 1:])))
        return fn

    def __eq__(self, o):
        if o != 1:
            unsup("cumsum compare")
        p = self._is_one()
        return type(self.s)(self.axes, lambda *ls: p(*ls), "bool")

    def eq(self, o, **k): return self == o
    def __ne__(self, o): return ~(self == o)
    __hash__ = object.__hash__


# ------------------------------------------------------------- xarray
class Coords:
    def __init__(self, a): self.a = a
    def __getitem__(self, k):
        for x in self.a.axes:
            if x.name == k:
                return x
        if k in ("period",):
            from dv.world import W
            for x in self.a.axes:
                if x.multi:
                    return DA([x], lambda t: W.cur.per(t, x.tag), "lab", "P")
        unsup(f"coords[{k}]")
    def __contains__(self, k): return any(x.name == k for x in self.a.axes)


class XBase(LA):
    """operations shared by DataArray, Variable and LinearExpression"""

    @property
    def dims(s): return tuple(a.name for a in s.axes)
    coord_dims = dims
    @property
    def coords(s): return Coords(s)
    @property
    def indexes(s): return {a.name: a for a in s.axes}
    def dimi(s, d):
        for i, a in enumerate(s.axes):
            if a.name == d:
                return i
        unsup(f"no dimension {d} in {s.dims}")

    def rename(s, m=None, **k):
        m = {**(m or {}), **k} if not isinstance(m, str) else {}
        return s.rebuild([a.rename(m.get(a.name, a.name)) for a in s.axes], s.fn, getattr(s, "pres", None))

    def sel(s, m=None, drop=None, **k):
        m = {**(m or {}), **k}
        keys = [slice(None)] * len(s.axes)
        for d, v in m.items():
            i = s.dimi(d)
            if isinstance(v, tuple) and len(v) == 2 and isinstance(v[1], slice):
                v = s.axes[i][PeriodSel(lab_of(v[0]))]
            if isinstance(v, LA) and not isinstance(v, NP) and v.kind == "lab" and len(v.axes) == 1:
                v = as_idx(v, s.axes[i].tag)
            keys[i] = v
        return s._selk(keys)

    def _selk(s, keys):
        axes, fn = select(s, keys)
        # xarray keeps the dimension name
        out = []
        j = 0
        for a, k in zip(s.axes, keys):
            r = sel_axis(a, k)
            if r[0] == "idx":
                out.append(axes[j].rename(a.name))
                j += 1
        if s.linopy:
            dummy = LA(s.axes, s.pres)
            _, pr = select(dummy, keys)
            return s.rebuild(out, fn, pr)
        return s.rebuild(out, fn, None)

    @property
    def loc(s): return Loc(s)

    def _loc(s, k):
        if isinstance(k, dict):
            return s.sel(k)
        if not isinstance(k, tuple):
            k = (k,)
        k = list(k) + [slice(None)] * (len(s.axes) - len(k))
        return s._selk(k)

    def __getitem__(s, k):
        return s._loc(k)

    def _setloc(s, k, v): unsup("xarray assignment")

    def transpose(s, *dims):
        order = [d for d in dims if d is not ...]
        names = order + [a.name for a in s.axes if a.name not in order]
        perm = [s.dimi(d) for d in names]
        fn = s.fn
        inv = [names.index(a.name) for a in s.axes]
        pr = getattr(s, "pres", None)
        return s.rebuild([s.axes[i] for i in perm], lambda *ls: fn(*[ls[i] for i in inv]),
                         (lambda *ls: pr(*[ls[i] for i in inv])) if pr else None)

    def shift_pos(s, i, k, absent):
        """value at position t-k (k=1), `absent` outside"""
        ax = s.axes[i]
        if k != 1:
            unsup("shift by more than one")
        if ax.tag not in ("T", "P"):
            unsup("shift along unordered axis")
        from dv.world import W
        fn = s.fn

        def new(*ls):
            has, prev = W.cur.prev(ax, ls[i])
            return has, fn(*ls[:i], prev, *ls[i + 1:]), (ls[:i] + (prev,) + ls[i + 1:])
        return new

    def reindex_like(s, o):
        r = s
        for a in o.axes:
            for i, x in enumerate(r.axes):
                if x.name == a.name:
                    r = DA(reindex_axis(r, i, a).axes, reindex_axis(r, i, a).fn, s.kind)
        return r


class DA(XBase):
    def __init__(self, axes, fn, kind="num", ltag="L", **k):
        super().__init__(axes, fn, kind, ltag)

    def rebuild(s, axes, fn, pres=None): return DA(axes, fn, s.kind, s.ltag)

    def where(s, cond, other=None, drop=False):
        return where(s, as_da(cond), NANNUM if other is None else (as_da(other) if isinstance(other, LA) else other))

    def sum(s, dim=None, **k):
        if dim is None:
            tags = [a.tag for a in s.axes]
            return DA([], lambda: bsum(tags, lambda *ls: num(s.fn(*ls)), lambda *ls: mems(s.axes, ls)))
        i = s.dimi(dim)
        rest, fn = s.reduce_axis(i, lambda ax, f: axis_sum(ax, lambda l: num(f(l))))
        return DA(rest, fn)

    def any(s, dim=None): return s._red(dim, False)
    def all(s, dim=None): return s._red(dim, True)

    def _red(s, dim, al):
        if dim is None:
            return s.q_all() if al else s.q_any()
        i = s.dimi(dim)
        if al:
            rest, fn = s.reduce_axis(i, lambda ax, f: q_all([ax.tag], lambda l: b_or(NOT(ax.mem(l)), tob(f(l)))))
        else:
            rest, fn = s.reduce_axis(i, lambda ax, f: q_any([ax.tag], lambda l: b_and(ax.mem(l), tob(f(l)))))
        return DA(rest, fn, "bool")

    def cumsum(s, dim): return cumsum(s, s.dimi(dim))

    def shift(s, m=None, fill_value=None, **k):
        m = {**(m or {}), **k}
        (d, n), = m.items()
        i = s.dimi(d)
        new = s.shift_pos(i, n, None)

        def fn(*ls):
            has, v, _ = new(*ls)
            if s.kind == "lab":
                return ite(has, v, NOLAB_INT) if s.ltag != "L" else unsup("shift of labels")
            return miss(has, v) if s.kind == "num" else AND(has, v)
        return DA(s.axes, fn, s.kind, s.ltag)

    def reindex(s, m=None, **k):
        m = {**(m or {}), **k}
        fv = m.pop("fill_value", None)
        r = s
        for d, idx in m.items():
            i = r.dimi(d)
            q = reindex_axis(r, i, as_idx(idx, r.axes[i].tag).rename(d), fv)
            r = DA(q.axes, q.fn, s.kind, s.ltag)
        return r

    def to_pandas(s):
        return {1: Series, 2: Frame}[len(s.axes)](s.axes, s.fn, s.kind, s.ltag)
    to_series = to_pandas
    to_dataframe = to_pandas
    def to_index(s): return s.axes[0]
    def assign_coords(s, *a, **k): unsup("assign_coords")
    def unique(s): unsup("unique")
    @property
    def data(s): return s.values


NOLAB_INT = z3.IntVal(-10**9)


def as_da(x, like=None):
    if isinstance(x, (DA,)) or (isinstance(x, LA) and x.linopy):
        return x
    if isinstance(x, LA):
        if not x.axes:
            return x
        return to_da(x, like)
    return x


# ------------------------------------------------------------- linopy
class LinExpr(XBase):
    """
    linopy expression: value under an arbitrary valuation of the variables plus
    `pres` (some term refers to a variable that exists at these labels).
    """

    linopy = True

    def __init__(self, axes, fn, kind="num", ltag="L", pres=None, **k):
        super().__init__(axes, fn, "num")
        self.pres = pres or (lambda *ls: FALSE)

    def mk(self, axes=None, fn=None, kind=None, ltag=None, cls=None):
        if kind == "bool":
            return ConDef(self.axes, fn)
        return LinExpr(self.axes if axes is None else axes, fn or self.fn, pres=self.pres)

    def rebuild(s, axes, fn, pres=None): return LinExpr(axes, fn, pres=pres or s.pres)

    def _map(s, f, kind=None): return LinExpr(s.axes, lambda *ls: f(s.fn(*ls)), pres=s.pres)

    def __mul__(s, o):
        if isinstance(o, LA) and o.linopy:
            return Quad.make(s, o)
        return LA.__mul__(s, o)
    __rmul__ = __mul__

    def mul(s, o, **k): return s * o

    def _cmp(s, o, sign):
        e = s - o if not (isinstance(o, (int, float)) and o == 0) else s
        return ConDef(e, sign)

    def __le__(s, o): return s._cmp(o, "<=")
    def __ge__(s, o): return s._cmp(o, ">=")
    def __eq__(s, o): return s._cmp(o, "=")
    __hash__ = object.__hash__

    @property
    def vars(s): return VarsView(s)
    @property
    def data(s): return s
    @property
    def const(s): unsup("const")

    def sum(s, dim=None, **k):
        if dim is None:
            tags = [a.tag for a in s.axes]
            ax = s.axes
            return LinExpr([], lambda: bsum(tags, lambda *ls: num(s.fn(*ls)), lambda *ls: mems(ax, ls)),
                           pres=lambda: q_any(tags, lambda *ls: b_and(mems(ax, ls), s.pres(*ls))))
        i = s.dimi(dim)
        rest, fn = s.reduce_axis(i, lambda ax, f: axis_sum(ax, lambda l: num(f(l))))
        ax = s.axes[i]
        return LinExpr(rest, fn, pres=lambda *ls: q_any([ax.tag], lambda l: b_and(ax.mem(l), s.pres(*ls[:i], l, *ls[i:]))))

    def shift(s, m=None, **k):
        m = {**(m or {}), **k}
        (d, n), = m.items()
        i = s.dimi(d)
        new = s.shift_pos(i, n, None)
        pr = s.pres

        def fn(*ls):
            has, v, _ = new(*ls)
            return ite(has, num(v), Num(0))

        def pres(*ls):
            has, _, full = new(*ls)
            return b_and(has, pr(*full))
        return s.like(s.axes, fn, pres)

    def like(s, axes, fn, pres): return LinExpr(axes, fn, pres=pres)

    def where(s, cond, other=None):
        """linopy/xarray where: absent where the condition fails (or `other`)"""
        cond = as_da(cond, s.axes)
        if isinstance(cond, LA) and cond.kind != "bool":
            unsup("where condition kind")
        ref = named(DA(s.axes, lambda *ls: ls, "num"), cond, lambda a, c: (a, tob(c)), "num")
        axes = ref.axes
        n = len(s.axes)
        rf = ref.fn
        if other is not None and isinstance(other, LA) and other.linopy:
            perm = [other.dimi(a.name) for a in s.axes]
            if len(other.axes) != n:
                unsup("where other shape")
            for a in s.axes:
                check_same(a, other.axes[other.dimi(a.name)])

            def arg(ls):
                out = [None] * n
                for k, i in enumerate(perm):
                    out[i] = ls[k]
                return out
            of, op = (lambda *ls: other.fn(*arg(ls))), (lambda *ls: other.pres(*arg(ls)))
        else:
            of, op = (lambda *ls: Num(0)), (lambda *ls: FALSE)
        sf, sp = s.fn, s.pres

        def fn(*ls):
            c = rf(*ls)[1]
            return ite_any(c, num(sf(*ls[:n])), num(of(*ls[:n])))

        def pres(*ls):
            c = rf(*ls)[1]
            return b_or(b_and(c, sp(*ls[:n])), b_and(b_not(c), op(*ls[:n])))
        return s.like(axes, fn, pres)

    def roll(s, m=None, **k):
        m = {**(m or {}), **k}
        (d, n), = m.items()
        i = s.dimi(d)
        ax = s.axes[i]
        if n != 1:
            unsup("roll")
        from dv.world import W
        f, pr = s.fn, s.pres
        src = lambda ls: ls[:i] + (W.cur.roll_src(ax, ls[i]),) + ls[i + 1:]
        return s.like(s.axes, lambda *ls: f(*src(ls)), lambda *ls: pr(*src(ls)))

    def ffill(s, dim):
        """last present value at or before the position"""
        i = s.dimi(dim)
        ax = s.axes[i]
        if ax.tag != "T":
            unsup("ffill axis")
        from dv.world import W
        last, has = W.cur.last_present(ax, i, within(s.axes, s.pres), [a.tag for a in s.axes])
        f = s.fn

        def fn(*ls):
            return ite(has(*ls), num(f(*ls[:i], last(*ls), *ls[i + 1:])), Num(0))
        return s.like(s.axes, fn, lambda *ls: has(*ls))

    def isel(s, m=None, **k):
        m = {**(m or {}), **k}
        (d, n), = m.items()
        i = s.dimi(d)
        if n != -1:
            unsup("isel")
        from dv.world import W
        lastpos = W.cur.last_pos(s.axes[i])
        f, pr = s.fn, s.pres
        ax = s.axes[:i] + s.axes[i + 1:]
        return LinExpr(ax, lambda *ls: f(*ls[:i], lastpos, *ls[i:]), pres=lambda *ls: pr(*ls[:i], lastpos, *ls[i:]))

    def rolling(s, m=None, **k):
        m = {**(m or {}), **k}
        (d, n), = m.items()
        return Rolling(s, s.dimi(d), n)

    def groupby(s, by, **k): return LinGroup(s, by)

    def reindex(s, m=None, **k):
        m = {**(m or {}), **k}
        fv = m.pop("fill_value", None)
        r = s
        for d, idx in m.items():
            i = r.dimi(d)
            ax = r.axes[i]
            idx = as_idx(idx, ax.tag).rename(d)
            f, pr = r.fn, r.pres
            axes = list(r.axes)
            axes[i] = idx
            r = LinExpr(axes, lambda *ls, f=f, ax=ax, i=i: ite(ax.mem(ls[i]), num(f(*ls)), Num(0)),
                        pres=lambda *ls, pr=pr, ax=ax, i=i: b_and(ax.mem(ls[i]), pr(*ls)))
        return r

    def assign_coords(s, *a, **k): unsup("assign_coords")
    def to_linexpr(s, coefficient=1): return s * coefficient
    def drop_vars(s, *a, **k): return s
    def to_pandas(s): return VarFrame(s)


class VarFrame:
    """variable.to_pandas(): frame of variables"""

    def __init__(self, v): self.v = v


class Rolling:
    def __init__(self, s, i, n): self.s, self.i, self.n = s, i, n

    def sum(self):
        s, i = self.s, self.i
        ax = s.axes[i]
        if ax.tag != "T" or ax.base != ("sns",):
            unsup("rolling axis")
        n = self.n
        if isinstance(n, Scal):
            k = num(n.fn()).t
        else:
            k = num(n).t
        f, pr = s.fn, s.pres

        def fn(*ls):
            t = ls[i]
            return bsum(["T"], lambda u: num(f(*ls[:i], u, *ls[i + 1:])),
                        lambda u: AND(ax.mem(u), u <= t, z3.ToReal(t - u) < k))
        return LinExpr(s.axes, fn, pres=lambda *ls: q_any(["T"], lambda u: b_and(
            AND(ax.mem(u), u <= ls[i], z3.ToReal(ls[i] - u) < k), pr(*ls[:i], u, *ls[i + 1:]))))


class LinGroup:
    def __init__(self, s, by):
        self.s = s
        if isinstance(by, DA) or isinstance(by, Series):
            self.by = by
        else:
            unsup("linopy groupby key")
        # the grouped dimension is the one of the key's index
        cand = [i for i, a in enumerate(s.axes) if a.name == by.axes[0].name]
        if not cand:
            cand = [i for i, a in enumerate(s.axes) if a.tag == by.axes[0].tag and same(a, by.axes[0])]
            if not (isinstance(by, Series) and cand):
                unsup("groupby dimension")
        self.i = cand[0]
        check_same(s.axes[self.i], by.axes[0])

    def sum(self):
        s, i, by = self.s, self.i, self.by
        ax = s.axes[i]
        p = reify([by.ltag], lambda b: q_any([ax.tag], lambda x: AND(ax.mem(x), by.fn(x) == b)), "grp")
        nm = by.name
        gax = Idx(nm, by.ltag, lambda b: p(b), ("grouped", id(self)))
        # linopy puts the group dimension last-but-term; order is irrelevant for named dims
        axes = s.axes[:i] + [gax] + s.axes[i + 1:]
        f, pr = s.fn, s.pres
        return LinExpr(axes, lambda *ls: bsum([ax.tag], lambda x: num(f(*ls[:i], x, *ls[i + 1:])),
                                              lambda x: AND(ax.mem(x), by.fn(x) == ls[i])),
                       pres=lambda *ls: q_any([ax.tag], lambda x: b_and(AND(ax.mem(x), by.fn(x) == ls[i]),
                                                                        pr(*ls[:i], x, *ls[i + 1:]))))


class VarsView:
    """expr.vars; only `== -1` then .all('_term')"""

    def __init__(self, s): self.s = s
    def __eq__(self, o):
        if o != -1:
            unsup("vars compare")
        return VarsAbsent(self.s)
    __hash__ = object.__hash__


class VarsAbsent:
    def __init__(self, s): self.s = s
    def all(self, dim):
        if dim not in ("_term", ["_term"]):
            unsup("vars all")
        s = self.s
        return DA(s.axes, lambda *ls: b_not(s.pres(*ls)), "bool")


class Var(LinExpr):
    def __init__(self, axes, fn, kind="num", ltag="L", pres=None, vname=None, **k):
        super().__init__(axes, fn, pres=pres)
        self.vname = vname

    def __mul__(s, o):
        if isinstance(o, LA) and not o.linopy and len(o.axes) == 1:
            i = next((i for i, a in enumerate(s.axes) if a.name == o.axes[0].name), None)
            if i is not None and not s.axes[i].mem(canon(s.axes[i].tag)).eq(o.axes[0].mem(canon(s.axes[i].tag))) and subset(o.axes[0], s.axes[i]):
                # Variable.to_linexpr joins the labels of both: a term without coefficient (NaN), which no model matrix
                # and no model file contains
                y, fo = o.axes[0], o.fn
                o = DA([s.axes[i]], lambda l: ite(y.mem(l), num(fo(l)), Num(0)))
        return LinExpr.__mul__(s, o)
    __rmul__ = __mul__

    def like(s, axes, fn, pres): return Var(axes, fn, pres=pres)
    def rebuild(s, axes, fn, pres=None): return Var(axes, fn, pres=pres or s.pres)
    @property
    def labels(s): unsup("labels")


class Quad:
    """product of two variables, kept as a formal value"""

    @staticmethod
    def make(a, b):
        return named(a, b, lambda x, y: num(x) * num(y), "num")


class ConDef:
    """anonymous constraint  expr sign 0"""

    def __init__(self, expr, sign): self.expr, self.sign = expr, sign


def merge(exprs, *more, dim="_term", cls=None, join=None, **kw):
    ctx = Ctx.cur
    if isinstance(exprs, LinExpr):
        exprs = [exprs]
    exprs = list(exprs) + list(more)
    if not exprs:
        raise IndexError("merge of nothing")
    if dim == "_term":
        r = exprs[0]
        if isinstance(r, Var):
            r = LinExpr(r.axes, r.fn, pres=r.pres)
        for e in exprs[1:]:
            r = outer_add(r, e, join)
        return r
    # concatenation along a new dimension: list must be a generic family
    fam = ctx.family(exprs)
    if fam is None:
        unsup("merge along a dimension of a non-generic list")
    g, idx, e = fam
    if any(a.name == dim for a in e.axes):
        return concat_existing(e, g, idx, dim)
    ax = idx.rename(dim)
    f, pr = e.fn, e.pres
    sub = lambda v, l: v.subst([(g, l)]) if isinstance(v, Num) else (z3.substitute(v, (g, l)) if isinstance(v, z3.ExprRef) else subst_qf(v, g, l))
    return LinExpr(e.axes + [ax], lambda *ls: sub(num(f(*ls[:-1])), ls[-1]), pres=lambda *ls: sub(pr(*ls[:-1]), ls[-1]))


def subst_qf(q, g, l):
    k = q.kind
    if k == "atom":
        return QF("atom", (z3.substitute(q.args[0], (g, l)),))
    if k in ("and", "or"):
        return QF(k, tuple(subst_qf(a, g, l) for a in q.args))
    f = q.fn
    return QF(k, (), q.tags, lambda *ls: subst_qf(qf(f(*ls)), g, l))


def concat_existing(e, g, idx, dim):
    """
    concat of a family e(p) indexed by periods along an existing dimension whose
    index in iteration p is the set of snapshots of period p.
    """
    from dv.world import W
    i = e.dimi(dim)
    ax = e.axes[i]
    if idx.tag != "P" or ax.tag != "T":
        unsup("concat")
    full = W.cur.sns
    # coverage: every snapshot lies in the part of its own period
    t = fresh("cov", "T")
    part = z3.substitute(ax.mem(t), (g, W.cur.per(t, "T")))
    st = Ctx.cur.snapshot()
    Ctx.cur.assume(qf(part != full.mem(t)))
    r, _ = Ctx.cur.check(timeout=4000)
    Ctx.cur.restore(st)
    if r != z3.unsat:
        unsup("concat does not cover the snapshots")
    axes = list(e.axes)
    axes[i] = full.rename(dim)
    f = e.fn
    sub = lambda v, l: v.subst([(g, l)]) if isinstance(v, Num) else (z3.substitute(v, (g, l)) if isinstance(v, z3.ExprRef) else subst_qf(v, g, l))
    if e.linopy:
        pr = e.pres
        return e.like(axes, lambda *ls: sub(num(f(*ls)), W.cur.per(ls[i], "T")), lambda *ls: sub(pr(*ls), W.cur.per(ls[i], "T")))
    return DA(axes, lambda *ls: sub(f(*ls), W.cur.per(ls[i], "T")), e.kind)


def outer_add(a, b, join=None):
    """sum of expressions merged along the term dimension"""
    if isinstance(b, Var) or isinstance(b, LinExpr):
        pass
    else:
        unsup(f"merge of {type(b)}")
    axes = list(a.axes)
    pos = {x.name: i for i, x in enumerate(axes)}
    parts = []
    for y in b.axes:
        if y.name in pos:
            x = axes[pos[y.name]]
            if not same(x, y):
                if join != "outer":
                    unsup(f"merge aligns different indices on {y.name} without join='outer'")
                axes[pos[y.name]] = x.clone(mem=lambda l, x=x, y=y: OR(x.mem(l), y.mem(l)), base=("outer", id(x), id(y)))
        else:
            pos[y.name] = len(axes)
            axes.append(y)
    na = len(a.axes)
    ib = [pos[y.name] for y in b.axes]
    fa, fb, pa, pb = a.fn, b.fn, a.pres, b.pres

    def ina(ls): return AND(*[a.axes[i].mem(ls[i]) for i in range(na) if a.axes[i] is not axes[i]])
    def inb(ls): return AND(*[y.mem(ls[i]) for y, i in zip(b.axes, ib) if y is not axes[i]])
    def fn(*ls):
        return ite(ina(ls), num(fa(*ls[:na])), Num(0)) + ite(inb(ls), num(fb(*[ls[i] for i in ib])), Num(0))
    def pres(*ls):
        return b_or(b_and(ina(ls), pa(*ls[:na])), b_and(inb(ls), pb(*[ls[i] for i in ib])))
    return LinExpr(axes, fn, pres=pres)
