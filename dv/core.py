"""
Core of the verifier: symbolic values, path exploration, obligations.

The functions under contract are the code objects compiled from /repo on this
very run; CPython executes them, but every pandas / xarray / linopy object they
touch is a *symbolic labelled array* (see arr.py): a function from label terms
to z3 terms.  Nothing is bounded: an index is a predicate over an uninterpreted
sort of labels, the snapshots are 0..N-1 for a symbolic N.

This module provides
  * Num: real-valued element = z3 real term + formal sums  sum_{x | g(x)} body(x)
    + a "missing" (NaN) flag,
  * QF: quantified boolean formulas with skolemisation and ground instantiation,
  * Ctx / explore(): depth-first path exploration by re-execution,
  * Ctx.prove*(): the proof obligations, discharged by z3.
"""
from __future__ import annotations

import sys
import os
import time
from fractions import Fraction

if "z3" not in sys.modules:
    _p = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
    if _p not in sys.path:
        sys.path.append(_p)
import z3

L = z3.DeclareSort("L")  # labels: component names, bus names, carriers, strings
I = z3.IntSort()
R = z3.RealSort()
B = z3.BoolSort()
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)

# sort tag -> z3 sort.  T: position in the optimised snapshots, TA: position in
# n.snapshots, P: investment period, L: label, K: misc integer
SORTS = {"L": L, "T": I, "TA": I, "P": I, "K": I}


UNSUP: list = []  # reasons, in the order raised (code under test may swallow the exception)


class Unsupported(Exception):
    """The code left the subset the verifier can interpret (never a violation)."""

    def __init__(self, *a):
        super().__init__(*a)
        UNSUP.append(str(self))


class PathAbort(Exception):
    """Current path is infeasible or ended (raised by the engine)."""

    def __init__(self, *a):
        super().__init__(*a)
        UNSUP.append("path ended")


class Timeout(Unsupported):
    pass


_uf: dict = {}


def uf(name, tags, rng):
    """Uninterpreted function over label sorts; remembers the sort tags."""
    key = (name, tuple(tags), rng)
    if key not in _uf:
        if tags:
            _uf[key] = z3.Function(name, *[SORTS[t] for t in tags], rng)
        else:
            _uf[key] = z3.Const(name, rng)
        UF_TAGS[name] = tuple(tags)
    return _uf[key]


UF_TAGS: dict = {}
_strs: dict = {}


def strlab(s: str):
    """The label constant of a python string."""
    if s not in _strs:
        _strs[s] = z3.Const("str:" + s, L)
    return _strs[s]


def str_axioms():
    return [z3.Distinct(*_strs.values())] if len(_strs) > 1 else []


_ctr = [0]


def fresh(prefix, tag_or_sort):
    _ctr[0] += 1
    srt = SORTS.get(tag_or_sort, tag_or_sort) if isinstance(tag_or_sort, str) else tag_or_sort
    return z3.Const(f"{prefix}!{_ctr[0]}", srt)


_TP = TRUE.ast.value
_FP = FALSE.ast.value
_CTX = TRUE.ctx
_CR = _CTX.ref()


class _LIB:  # unchecked entry points (arguments are valid by construction)
    Z3_get_ast_kind = staticmethod(z3.z3core.Z3_get_ast_kind.__defaults__[0].f)
    Z3_get_app_num_args = staticmethod(z3.z3core.Z3_get_app_num_args.__defaults__[0].f)
    Z3_get_app_arg = staticmethod(z3.z3core.Z3_get_app_arg.__defaults__[0].f)
    Z3_get_app_decl = staticmethod(z3.z3core.Z3_get_app_decl.__defaults__[0].f)


_AST = z3.z3types.Ast


def is_true(b):
    return b is True or (isinstance(b, z3.ExprRef) and b.ast.value == _TP)


def is_false(b):
    return b is False or (isinstance(b, z3.ExprRef) and b.ast.value == _FP)


def zb(b):
    return (TRUE if b else FALSE) if isinstance(b, bool) else b


def _nary(mk, xs):
    n = len(xs)
    arr = (_AST * n)(*[x.ast for x in xs])
    return z3.BoolRef(mk(_CR, n, arr), _CTX)


def AND(*xs):
    out = []
    for x in xs:
        if is_false(x):
            return FALSE
        if not is_true(x):
            out.append(x)
    if not out:
        return TRUE
    return out[0] if len(out) == 1 else _nary(z3.z3core.Z3_mk_and, out)


def OR(*xs):
    out = []
    for x in xs:
        if is_true(x):
            return TRUE
        if not is_false(x):
            out.append(x)
    if not out:
        return FALSE
    return out[0] if len(out) == 1 else _nary(z3.z3core.Z3_mk_or, out)


def NOT(x):
    if is_true(x):
        return FALSE
    if is_false(x):
        return TRUE
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def IMP(a, b):
    return OR(NOT(zb(a)), zb(b))


def rv(x):
    if isinstance(x, z3.ExprRef):
        if z3.is_int(x):
            return z3.ToReal(x)
        return x
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x))
    if hasattr(x, "item"):
        x = x.item()
    if isinstance(x, float):
        if x != x:
            raise Unsupported("nan constant")
        if x in (float("inf"), float("-inf")):
            return INF if x > 0 else -INF
        return z3.RealVal(str(Fraction(x)))
    if isinstance(x, int):
        return z3.RealVal(x)
    raise Unsupported(f"real constant {x!r}")


INF = z3.Const("INF", R)
PI = z3.Const("PI", R)


def is_zero(t):
    return z3.is_rational_value(t) and t.numerator_as_long() == 0


def is_one(t):
    return z3.is_rational_value(t) and t.as_fraction() == 1


INVERSE = z3.Function("inv", z3.RealSort(), z3.RealSort())  # 1/x; nothing is known about inv(0)


def inverse(d):
    d = z3.simplify(d)
    if z3.is_rational_value(d):
        return z3.RealVal(1) / d if not is_zero(d) else INVERSE(d)
    if z3.is_app_of(d, z3.Z3_OP_ITE):
        c, x, y = d.children()
        return z3.If(c, inverse(x), inverse(y))
    if z3.is_app_of(d, z3.Z3_OP_MUL):
        r = None
        for x in d.children():
            i = inverse(x)
            r = i if r is None else r * i
        return r
    if z3.is_app_of(d, z3.Z3_OP_UMINUS):
        return -inverse(d.children()[0])
    return INVERSE(d)


class SumT:
    """coef * sum_{binders | guard} body  (body a plain z3 real term)."""

    __slots__ = ("coef", "tags", "bnd", "guard", "body")

    def __init__(self, coef, tags, bnd, guard, body):
        self.coef, self.tags, self.bnd, self.guard, self.body = coef, tags, bnd, guard, body

    def subst(self, pairs):
        return SumT(z3.substitute(self.coef, *pairs), self.tags, self.bnd,
                    z3.substitute(self.guard, *pairs), z3.substitute(self.body, *pairs))

    def renamed(self, newb):
        pairs = list(zip(self.bnd, newb))
        return SumT(self.coef, self.tags, tuple(newb), z3.substitute(self.guard, *pairs),
                    z3.substitute(self.body, *pairs))


class Num:
    __slots__ = ("t", "sums", "nan")

    def __init__(self, t, sums=(), nan=FALSE):
        self.t = t if isinstance(t, z3.ExprRef) else rv(t)
        if z3.is_int(self.t):
            self.t = z3.ToReal(self.t)
        self.sums = tuple(sums)
        self.nan = zb(nan)

    # -- arithmetic ---------------------------------------------------------
    def __add__(a, b):
        b = num(b)
        if b is NotImplemented:
            return b
        if is_zero(a.t):
            t = b.t
        elif is_zero(b.t):
            t = a.t
        else:
            t = a.t + b.t
        return Num(t, a.sums + b.sums, OR(a.nan, b.nan))

    __radd__ = __add__

    def __neg__(a):
        return a * Num(-1)

    def __sub__(a, b):
        b = num(b)
        return a + (-b)

    def __rsub__(a, b):
        return num(b) - a

    def __mul__(a, b):
        b = num(b)
        if a.sums and b.sums:
            return Num(a.z3() * b.z3(), (), OR(a.nan, b.nan))
        if b.sums:
            a, b = b, a
        if is_one(b.t):
            return Num(a.t, a.sums, OR(a.nan, b.nan))
        if is_one(a.t) and not a.sums:
            return Num(b.t, b.sums, OR(a.nan, b.nan))
        t = rv(0) if is_zero(a.t) or is_zero(b.t) else a.t * b.t
        if is_zero(b.t):
            return Num(0, (), OR(a.nan, b.nan))
        return Num(t, [SumT(s.coef * b.t, s.tags, s.bnd, s.guard, s.body) for s in a.sums], OR(a.nan, b.nan))

    __rmul__ = __mul__

    def __truediv__(a, b):
        b = num(b)
        d = b.z3()
        if is_one(d):
            return Num(a.t, a.sums, OR(a.nan, b.nan))
        return a * Num(inverse(d), (), b.nan)

    def __rtruediv__(a, b):
        return num(b) / a

    def __pow__(a, b):
        if isinstance(b, Num) and z3.is_rational_value(b.t) and not b.sums:
            b = b.t.as_fraction()
            if b.denominator == 1:
                b = int(b)
        if isinstance(b, float) and b == int(b):
            b = int(b)
        if isinstance(b, int) and 0 <= b <= 4:
            r = Num(1)
            for _ in range(b):
                r = r * a
            return r
        b = num(b)
        return Num(POW(a.z3(), b.z3()), (), OR(a.nan, b.nan))

    def __rpow__(a, b):
        return num(b) ** a

    # -- comparison ---------------------------------------------------------
    def z3(self):
        """Plain z3 term; formal sums become structural constants."""
        t = self.t
        for s in self.sums:
            c = sum_const(s)
            t = t + s.coef * c
        return t

    def _cmp(a, b, op):
        if b is None:
            return FALSE
        b = num(b)
        return AND(NOT(a.nan), NOT(b.nan), op(a.z3(), b.z3()))

    def __lt__(a, b): return a._cmp(b, lambda x, y: x < y)
    def __le__(a, b): return a._cmp(b, lambda x, y: x <= y)
    def __gt__(a, b): return a._cmp(b, lambda x, y: x > y)
    def __ge__(a, b): return a._cmp(b, lambda x, y: x >= y)

    def eq(a, b):
        return a._cmp(b, lambda x, y: x == y)

    def subst(self, pairs):
        pairs = list(pairs)
        return Num(z3.substitute(self.t, *pairs), [s.subst(pairs) for s in self.sums], z3.substitute(self.nan, *pairs))

    def __repr__(self):
        return f"Num({self.t}, {len(self.sums)} sums, nan={self.nan})"


POW = z3.Function("POW", R, R, R)
NANNUM = Num(0, (), TRUE)


def num(x):
    if isinstance(x, Num):
        return x
    if isinstance(x, z3.BoolRef):
        if z3.is_true(x):
            return Num(1)
        if z3.is_false(x):
            return Num(0)
        return Num(z3.If(x, rv(1), rv(0)))
    if isinstance(x, z3.ArithRef):
        return Num(rv(x))
    if hasattr(x, "__as_num__"):
        return x.__as_num__()
    if isinstance(x, (int, float, bool, Fraction)) or hasattr(x, "item"):
        if isinstance(x, float) and x != x:
            return NANNUM
        return Num(rv(x))
    raise Unsupported(f"not a number: {x!r} ({type(x)})")


_sumconst: dict = {}
SUM_DEFS: dict = {}


def _conjuncts(g, out):
    if z3.is_and(g):
        for c in g.children():
            _conjuncts(c, out)
    elif not is_true(g):
        out[g.sexpr()] = g
    return out


def sum_const(s: SumT):
    """the real constant denoting sum_{bnd | guard} body, up to renaming, order of factors and sign: (constant, sign)"""
    canon = [z3.Const(f"bv:{t}:{i}", b.sort()) for i, (t, b) in enumerate(zip(s.tags, s.bnd))]
    r = s.renamed(canon)
    g = _conjuncts(z3.simplify(r.guard), {})
    g = [g[k] for k in sorted(g)]
    b = z3.simplify(r.body, som=True)
    sign = 1
    neg = z3.simplify(-b, som=True)
    if neg.sexpr() < b.sexpr():
        b, sign = neg, -1
    key = (s.tags, tuple(x.sexpr() for x in g), b.sexpr())
    if key not in _sumconst:
        c = z3.Const(f"SUM{len(_sumconst)}", R)
        _sumconst[key] = c
        SUM_DEFS[c.decl().name()] = SumT(rv(1), s.tags, tuple(canon), AND(*g), b)
    return _sumconst[key] if sign == 1 else -_sumconst[key]


def ite(c, a, b):
    """Element-wise if-then-else over Num / bool / labels."""
    if is_true(c):
        return a
    if is_false(c):
        return b
    if isinstance(a, Num) or isinstance(b, Num):
        a, b = num(a), num(b)
        sums = [SumT(z3.If(c, s.coef, rv(0)), s.tags, s.bnd, s.guard, s.body) for s in a.sums] + [
            SumT(z3.If(c, rv(0), s.coef), s.tags, s.bnd, s.guard, s.body) for s in b.sums]
        nan = FALSE if is_false(a.nan) and is_false(b.nan) else z3.If(c, a.nan, b.nan)
        t = a.t if a.t.eq(b.t) else z3.If(c, a.t, b.t)
        return Num(t, sums, nan)
    if isinstance(a, bool):
        a = zb(a)
    if isinstance(b, bool):
        b = zb(b)
    if isinstance(a, z3.ExprRef) and isinstance(b, z3.ExprRef):
        if a.eq(b):
            return a
        if z3.is_bool(a) and z3.is_bool(b):
            return z3.simplify(z3.If(c, a, b)) if (is_true(a) or is_false(a) or is_true(b) or is_false(b)) else z3.If(c, a, b)
        return z3.If(c, a, b)
    raise Unsupported(f"ite of {type(a)} and {type(b)}")


def bsum(tags, fn, guard_fn):
    """Formal sum over fresh binders: sum_{x | guard(x)} fn(x)."""
    bnd = tuple(fresh("b" + t, t) for t in tags)
    g = guard_fn(*bnd)
    body = num(fn(*bnd))
    # pandas/xarray/linopy sums skip missing values
    g = AND(g, NOT(body.nan))
    out = []
    if not is_zero(body.t):
        out.append(SumT(rv(1), tuple(tags), bnd, g, body.t))
    for s in body.sums:
        out.append(SumT(rv(1), tuple(tags) + s.tags, bnd + s.bnd, AND(g, s.guard), s.coef * s.body))
    return Num(0, out)


# ---------------------------------------------------------------- formulas
class QF:
    """Quantified formula. kind: atom, and, or, all, any (not is pushed)."""

    __slots__ = ("kind", "args", "tags", "fn")

    def __init__(self, kind, args=(), tags=(), fn=None):
        self.kind, self.args, self.tags, self.fn = kind, args, tags, fn

    def __and__(a, b): return QF("and", (a, qf(b)))
    def __rand__(a, b): return QF("and", (qf(b), a))
    def __or__(a, b): return QF("or", (a, qf(b)))
    def __ror__(a, b): return QF("or", (qf(b), a))
    def __invert__(a): return a.neg()

    def neg(self):
        k = self.kind
        if k == "atom":
            return QF("atom", (NOT(self.args[0]),))
        if k == "and":
            return QF("or", tuple(a.neg() for a in self.args))
        if k == "or":
            return QF("and", tuple(a.neg() for a in self.args))
        f = self.fn
        return QF("any" if k == "all" else "all", (), self.tags, lambda *ls: qf(f(*ls)).neg())

    def __bool__(self):
        return Ctx.cur.branch(self)

    # numpy-like
    def item(self): return self
    def all(self, *a, **k): return self
    def any(self, *a, **k): return self


def qf(x):
    if isinstance(x, QF):
        return x
    if isinstance(x, bool):
        return QF("atom", (zb(x),))
    if isinstance(x, z3.BoolRef):
        return QF("atom", (x,))
    if isinstance(x, SB):
        return QF("atom", (x.b,))
    if hasattr(x, "dtype") and x.dtype == bool:
        return QF("atom", (zb(bool(x)),))
    raise Unsupported(f"not a formula: {x!r}")


def q_all(tags, fn): return QF("all", (), tuple(tags), fn)
def q_any(tags, fn): return QF("any", (), tuple(tags), fn)


class SB:
    """Symbolic scalar bool that forks when python asks for its truth."""

    __slots__ = ("b",)

    def __init__(self, b):
        self.b = zb(b)

    def __bool__(self):
        if is_true(self.b):
            return True
        if is_false(self.b):
            return False
        return Ctx.cur.branch(qf(self.b))

    def __and__(s, o): return QF("and", (qf(s), qf(o)))
    __rand__ = __and__
    def __or__(s, o): return QF("or", (qf(s), qf(o)))
    __ror__ = __or__
    def __invert__(s): return SB(NOT(s.b))
    def item(s): return s
    def all(s, *a, **k): return s
    def any(s, *a, **k): return s


_NODE: dict = {}


_KEEP: list = []
_LNAME = "L"


def _ptr(p):
    a = _AST.__new__(_AST)
    a.value = p
    return a


def _wrap(p):
    return z3.z3._to_expr_ref(_ptr(p), _CTX)


def _node(h):
    """
    (label terms contributed here, children, positions) of the AST at pointer h; hash-consing makes the pointer a key.
    positions: (key, pointer, term) with key (decl, i) for the i-th argument of an uninterpreted
    function and (decl, -1) for its value; decl: the function applied (two or more label arguments), if any
    """
    r = _NODE.get(h)
    if r is None:
        terms, ch, pos, dd = [], (), [], None
        a = _ptr(h)
        if _LIB.Z3_get_ast_kind(_CR, a) <= 1:  # numeral or application
            n = _LIB.Z3_get_app_num_args(_CR, a)
            if n:
                ch = tuple(_LIB.Z3_get_app_arg(_CR, a, i) for i in range(n))
                ch = tuple(c if isinstance(c, int) else c.value for c in ch)
                d = _LIB.Z3_get_app_decl(_CR, a)
                d = d if isinstance(d, int) else d.value
                tags = _DECL_TAGS.get(d, 0)
                if tags == 0:
                    e = _wrap(h)
                    dp = e.decl()
                    tags = UF_TAGS.get(dp.name())
                    if tags is None and dp.kind() == z3.Z3_OP_UNINTERPRETED:
                        tags = ()
                    _DECL_TAGS[dp.ast.value] = tags
                    _KEEP.append(dp)
                if tags:
                    terms = [(t, c, _wrap(c)) for t, c in zip(tags, ch)]
                    pos = [((d, i), c, x) for i, (t, c, x) in enumerate(terms)]
                    if n > 1 and len(tags) == n:
                        dd = d
                if tags is not None:
                    e = _wrap(h)
                    if e.sort() == I or e.sort() == L:
                        pos.append(((d, -1), h, e))
            else:
                nm = _wrap(h).decl().name() if _LIB.Z3_get_ast_kind(_CR, a) == 1 else ""
                if nm in SUM_DEFS:  # look through the constant denoting a formal sum
                    sd = SUM_DEFS[nm]
                    _KEEP.extend((sd.guard, sd.body))
                    ch = (sd.guard.ast.value, sd.body.ast.value)
                elif nm.startswith("bv:"):
                    _BV.add(h)
            if any(c in _BV for c in ch if _NODE.get(c) or _node(c)):
                if n:
                    _BV.add(h)
            e = _wrap(h)
            if e.sort() == L:
                terms.append(("L", h, e))
                if n:
                    _ATTR.add(h)
            terms = [x for x in terms if x[1] not in _BV]
            pos = [x for x in pos if x[1] not in _BV]
            if dd is not None and any(c in _BV for c in ch):
                dd = None
        r = _NODE[h] = (terms, ch, pos, dd)
    return r


_DECL_TAGS: dict = {}
_CMP = {z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT}


_ATTR: set = set()
_BV: set = set()


class Layer:
    """grounding state; copied on snapshot"""

    __slots__ = ("seen", "pools", "done", "nf", "count", "gens", "pend", "ver", "full", "deep", "kept", "tuples", "joint")

    def __init__(self, o=None):
        if o is None:
            self.seen, self.pools, self.done, self.nf, self.count, self.gens = {}, {}, set(), 0, 0, {}
            self.pend, self.ver, self.full, self.deep, self.kept = {}, {}, False, False, {}
            self.tuples, self.joint = {}, True
        else:
            self.seen, self.done, self.ver = dict(o.seen), set(o.done), dict(o.ver)
            self.pools = {k: dict(v) for k, v in o.pools.items()}
            self.nf, self.count, self.gens, self.full = o.nf, o.count, dict(o.gens), o.full
            self.pend, self.deep, self.kept = dict(o.pend), o.deep, dict(o.kept)
            self.tuples, self.joint = {k: dict(v) for k, v in o.tuples.items()}, o.joint

    def deepen(self):
        """from now on attribute terms such as bus(x) are candidates as well"""
        self.deep = True
        for (key, k), (a, gen) in self.kept.items():
            self.offer(key, k, a, gen)
        self.kept = {}

    def offer(self, key, k, a, gen):
        """term a is a candidate for the variables watching `key`"""
        if not self.deep and k in _ATTR:
            if (key, k) not in self.kept or self.kept[(key, k)][1] > gen:
                self.kept[(key, k)] = (a, gen)
            return
        p = self.pools.get(key)
        if p is None:
            p = self.pools[key] = {}
        if k not in p or p[k][1] > gen:
            p[k] = (a, gen)
            self.ver[key] = self.ver.get(key, 0) + 1

    def collect(self, e, gen):
        seen = self.seen
        _KEEP.append(e)
        stack = [e.ast.value]
        while stack:
            h = stack.pop()
            if seen.get(h, 99) <= gen:
                continue
            seen[h] = gen
            r = _NODE.get(h) or _node(h)
            for t, k, a in r[0]:
                self.offer(t, k, a, gen)
            for key, k, a in r[2]:
                self.offer(key, k, a, gen)
            if r[3] is not None:
                p = self.tuples.setdefault(r[3], {})
                if p.get(r[1], 99) > gen:
                    p[r[1]] = gen
                    self.ver[("tuple", r[3])] = self.ver.get(("tuple", r[3]), 0) + 1
            stack.extend(r[1])


class Result:
    def __init__(self, m, why): self.m, self.why = m, why
    def model(self): return self.m
    def reason_unknown(self): return self.why


class Univ:
    __slots__ = ("tags", "fn", "guard", "cache", "trig", "groups")

    def __init__(self, tags, fn, guard=TRUE):
        self.tags, self.fn, self.guard, self.cache, self.trig, self.groups = tags, fn, guard, {}, None, None


_PH: dict = {}


def _placeholder(tag, depth):
    if (tag, depth) not in _PH:
        _PH[(tag, depth)] = z3.Const(f"ph:{tag}:{depth}", SORTS[tag])
    return _PH[(tag, depth)]


BRANCH_ROUNDS, BRANCH_CAP = (int(x) for x in os.environ.get('DV_BRANCH', '1,30000').split(','))


class Ctx:
    cur: "Ctx" = None

    def __init__(self, prefix=(), focus=None):
        self.prefix = list(prefix)
        self.trail = []  # (decision, alternative_feasible)
        self.facts = []
        self.univ = []
        self.obligations = []
        self.focus = focus
        self.notes = []
        self.binders = []  # open generic loops: (const, Index)
        self.branched_on = []
        self.deadline = None
        self.same_cache = {}
        self.solver = z3.Solver()
        self.layer = Layer()
        self.saved = []
        self.closed = []
        self.perm = set()
        self.nlast = 0
        self.ground = {}

    # ---- generic loops ----------------------------------------------------
    def open_binder(self, g, idx, tag=None):
        b = Binder(g, idx, tag or idx.tag, len(self.trail))
        self.binders.append(b)

    def close_binder(self, g):
        b = self.binders.pop()
        if not b.g.eq(g):
            raise Unsupported("interleaved generic loops")
        b.branched = any(mentions_qf(f, [g]) for f in self.branched_on[b.at:])
        self.closed.append(b)

    def binder_of(self, t):
        for b in self.binders + self.closed:
            if b.g.eq(t):
                return b
        return None

    def binder_consts(self):
        return [(b.g, b.tag) for b in self.binders]

    def free_of(self, ax, g):
        k = z3.Const("k:free", SORTS[ax.tag])
        return not mentions(ax.mem(k), [g])

    def _value_terms(self, e):
        ks = [z3.Const(f"k:{i}:{a.tag}", SORTS[a.tag]) for i, a in enumerate(e.axes)]
        out = [a.mem(k) for a, k in zip(e.axes, ks)]
        out.append(e.fn(*ks))
        if getattr(e, "pres", None) is not None:
            out.append(e.pres(*ks))
        return out

    def family(self, objs):
        """[e(g)] built by one generic iteration -> (g, index, e)"""
        if len(objs) != 1:
            return None
        e = objs[0]
        terms = self._value_terms(e)
        found = [b for b in self.closed if any(mentions_any(t, [b.g]) for t in terms)]
        if len(found) != 1:
            return None
        b = found[0]
        b.use()
        if b.idx is None:
            return None
        return b.g, b.idx, e

    def no_binders(self, e, dom, axes):
        gs = [b.g for b in self.closed if b.tag != "K"] + [b.g for b in self.binders if b.tag != "K"]
        if not gs:
            return
        ks = [z3.Const(f"k:{i}:{a.tag}", SORTS[a.tag]) for i, a in enumerate(axes)]
        for t in (e.fn(*ks), e.pres(*ks), dom(*ks)):
            if mentions_any(t, gs):
                raise Unsupported("value depends on the variable of a generic loop")

    # ---- facts ------------------------------------------------------------
    # axioms about symbols of the network: they survive restore()
    def fact(self, b):
        if not is_true(b):
            self.facts.append(b)
            self.perm.add(b.ast.value)

    def assume(self, f, guard=TRUE):
        f = qf(f)
        k = f.kind
        if k == "atom":
            b = IMP(guard, f.args[0])
            if not is_true(b):
                self.facts.append(b)
        elif k == "and":
            for a in f.args:
                self.assume(a, guard)
        elif k == "any":
            sk = [fresh("sk" + t, t) for t in f.tags]
            self.assume(f.fn(*sk), guard)
            return sk
        elif k == "all":
            self.univ.append(Univ(f.tags, f.fn, guard))
        elif k == "or":
            ps = []
            for a in f.args:
                if a.kind == "atom":
                    ps.append(a.args[0])
                else:
                    p = fresh("or", B)
                    ps.append(p)
                    self.assume(a, AND(guard, p))
            self.facts.append(IMP(guard, OR(*ps)))

    def forall(self, tags, fn):
        u = Univ(tuple(tags), fn)
        self.univ.append(u)
        self.perm.add(u)

    def snapshot(self):
        self._sync(1)
        self.saved.append((len(self.facts), len(self.univ), self.layer))
        self.layer = Layer(self.layer)
        self.solver.push()
        return len(self.saved)

    def restore(self, s):
        assert len(self.saved) >= s
        while len(self.saved) >= s:
            nf, nu, layer = self.saved.pop()
            self.solver.pop()
            kf = [f for f in self.facts[nf:] if f.ast.value in self.perm]
            ku = [u for u in self.univ[nu:] if u in self.perm]
            del self.facts[nf:]
            del self.univ[nu:]
            self.layer = layer
            self.facts += kf
            self.univ += ku

    # ---- solving ----------------------------------------------------------
    def _eval(self, f, guard):
        """facts and universals of a formula, without assuming it; axioms it introduces are kept"""
        sf, su = self.facts, self.univ
        self.facts, self.univ = [], []
        try:
            self.assume(f, guard)
            fs, us = self.facts, self.univ
        finally:
            self.facts, self.univ = sf, su
        sf += [x for x in fs if x.ast.value in self.perm]
        su += [x for x in us if x in self.perm]
        return [x for x in fs if x.ast.value not in self.perm], [x for x in us if x not in self.perm]

    def _instance(self, u, c):
        """ground instance of a universal: z3 facts and nested universals"""
        key = tuple(x.ast.value for x in c)
        r = u.cache.get(key)
        if r is None:
            fs, us = self._eval(u.fn(*c), u.guard)
            r = u.cache[key] = (fs, us, c)
        return r

    def _triggers(self, u):
        """
        for every variable the keys of the pools it is instantiated from: the argument positions it
        occupies (complete instantiation); the whole pool of its tag when it occurs in arithmetic
        """
        if u.trig is None:
            occ = {}
            phs = self._occurrences(u, 0, occ)
            u.trig = [sorted(occ.get(p.ast.value, ()), key=str) or [t] for p, t in zip(phs, u.tags)]
            u.trig = [[t] if "*" in ks else ks for ks, t in zip(u.trig, u.tags)]
            # variables that always occur together as arguments of some function are instantiated with tuples
            byvars = {}
            for (d, pat) in occ.get("tuples", ()):
                vs = tuple(sorted({i for i in pat if i is not None and i < len(u.tags)}))
                if len(vs) > 1:
                    byvars.setdefault(vs, set()).add((d, pat))
            u.groups, used = [], set()
            for vs in sorted(byvars, key=lambda v: (-len(v), v)):
                if not used & set(vs):
                    used |= set(vs)
                    u.groups.append((vs, sorted(byvars[vs], key=str)))
        return u.trig

    def _occurrences(self, u, depth, occ):
        phs = [_placeholder(t, depth + i) for i, t in enumerate(u.tags)]
        fs, us = self._eval(u.fn(*phs), u.guard)
        isph = {p.ast.value: d for (_, d), p in _PH.items()}
        seen = set()
        _KEEP.extend(fs)
        stack = [f.ast.value for f in fs]
        merge = []
        while stack:
            h = stack.pop()
            if h in seen:
                continue
            seen.add(h)
            r = _NODE.get(h) or _node(h)
            if r[3] is not None and any(k in isph for k in r[1]):
                occ.setdefault("tuples", set()).add((r[3], tuple(isph.get(k) for k in r[1])))
            watched = {k: key for key, k, _ in r[2] if key[1] >= 0}
            for key, k, _ in r[2]:
                if k in isph and key[1] >= 0:
                    occ.setdefault(k, set()).add(key)
            for k in r[1]:
                if k in isph and k not in watched:
                    others = [o for o in r[1] if o != k]
                    kind = _LIB.Z3_get_ast_kind(_CR, _ptr(h))
                    dk = _wrap(h).decl().kind()
                    if dk in _CMP and len(others) == 1:
                        o = others[0]
                        if o in isph:
                            merge.append((k, o))
                            continue
                        heads = [key for key, kk, _ in (_NODE.get(o) or _node(o))[2] if key[1] == -1]
                        if heads:
                            occ.setdefault(k, set()).update(heads)
                            continue
                        oe = _wrap(o)
                        if not mentions(oe, list(_PH.values())):  # ground (constant or numeral)
                            occ.setdefault(k, set()).add(("term", o))
                            self.ground[o] = oe
                            continue
                    elif dk == z3.Z3_OP_ITE or dk in _CMP:
                        pass
                    occ.setdefault(k, set()).add("*")
            stack.extend(r[1])
        d = depth + len(u.tags)
        for v in us:
            self._occurrences(v, d, occ)
        for a, b in merge:
            m = occ.get(a, set()) | occ.get(b, set())
            occ[a], occ[b] = set(m), set(m)
        return phs

    def _sync(self, rounds=3, cap=30000):
        """assert pending facts and instantiate universals on the ground terms (up to `rounds` generations)"""
        la = self.layer
        while True:
            if la.nf < len(self.facts):
                new = self.facts[la.nf:]
                la.nf = len(self.facts)
                self.solver.add(*new)
                for f in new:
                    la.collect(f, 0)
            progress = False
            i = 0
            while i < len(self.univ):
                u = self.univ[i]
                i += 1
                trig = [[t] for t in u.tags] if la.full else self._triggers(u)
                groups = u.groups if la.joint and not la.full else ()
                sig = (tuple(la.ver.get(k, 0) for ks in trig for k in ks), rounds, la.full, la.joint,
                       tuple(la.ver.get(("tuple", d), 0) for _, ps in groups for d, _ in ps))
                if la.pend.get(id(u)) == sig:
                    continue
                la.pend[id(u)] = sig
                combos = [({}, 0)]
                grouped = set()
                for vs, ps in groups:
                    grouped |= set(vs)
                    found = {}
                    for d, pat in ps:
                        for args, g in la.tuples.get(d, {}).items():
                            if g >= rounds:
                                continue
                            bind = {}
                            if all(v is None or v not in vs or bind.setdefault(v, a) == a for v, a in zip(pat, args)) and len(bind) == len(vs):
                                kk = tuple(bind[v] for v in vs)
                                if found.get(kk, 99) > g:
                                    found[kk] = g
                    combos = [({**c, **{v: _wrap(a) for v, a in zip(vs, kk)}}, max(g, g2)) for c, g in combos for kk, g2 in found.items()]
                for v, ks in enumerate(trig):
                    if v in grouped:
                        continue
                    li = {}
                    for k in ks:
                        if k[0] == "term":
                            li[k[1]] = (self.ground[k[1]], 0)
                            continue
                        p = la.pools.get(k)
                        if p:
                            for h, xg in p.items():
                                if xg[1] < rounds and (h not in li or li[h][1] > xg[1]):
                                    li[h] = xg
                    combos = [({**c, v: x}, max(g, g2)) for c, g in combos for x, g2 in li.values()]
                combos = [(tuple(c[v] for v in range(len(trig))), g) for c, g in combos]
                for c, g in combos:
                    key = (id(u), tuple(x.ast.value for x in c))
                    if key in la.done:
                        continue
                    la.done.add(key)
                    la.count += 1
                    if la.count > cap:
                        return
                    fs, us, _ = self._instance(u, c)
                    if fs:
                        self.solver.add(*fs)
                        for f in fs:
                            la.collect(f, g + 1)
                    if us:
                        self.univ.extend(us)
                    progress = True
            if not progress and la.nf == len(self.facts):
                return

    def check(self, timeout=8000, rounds=3, cap=30000):
        """satisfiability of the facts; instantiation is deepened only while the instances found so far are satisfiable"""
        for k in range(1, rounds + 1):
            n0 = self.layer.count
            self._sync(k, cap)
            if k > 1 and self.layer.count == n0:
                continue
            r, m = self._solve(timeout)
            if r == z3.unsat:
                break
        return r, m

    def _solve(self, timeout):
        s = self.solver
        s.set("timeout", timeout)
        t0 = time.time()
        ax = str_axioms()
        if ax:
            s.push()
            s.add(*ax)
        r = s.check()
        m = s.model() if r == z3.sat else None
        why = s.reason_unknown() if r == z3.unknown else ""
        if ax:
            s.pop()
        if r == z3.unknown and timeout >= 8000:
            f = z3.Solver()
            f.set("timeout", timeout)
            f.add(*s.assertions())
            f.add(*ax)
            r = f.check()
            m = f.model() if r == z3.sat else None
            why = f.reason_unknown() if r == z3.unknown else ""
        STATS["solver_s"] += time.time() - t0
        STATS["queries"] += 1
        return r, Result(m, why)

    def _sum_axioms(self):
        """sums with equal (or opposite) summands are equal (opposite); a sum of zeros is zero"""
        cs = []
        for h in list(self.layer.seen):
            if _LIB.Z3_get_ast_kind(_CR, _ptr(h)) != 1:
                continue
            e = _wrap(h)
            if not e.num_args():
                if z3.is_const(e) and e.decl().kind() == z3.Z3_OP_UNINTERPRETED and e.decl().name() in SUM_DEFS:
                    cs.append((e, SUM_DEFS[e.decl().name()]))
        if len(cs) > 60:
            return False
        for i, (c1, s1) in enumerate(cs):
            bnd = [fresh("x" + t, t) for t in s1.tags]
            q = s1.renamed(bnd)
            self.assume(qf(IMP(IMP(q.guard, q.body == 0), c1 == 0)))
            for c2, s2 in cs[:i] if len(cs) <= 8 else ():
                if sorted(s2.tags) != sorted(s1.tags) or s1.tags != s2.tags:
                    continue
                for sg in (1, -1):
                    bnd = [fresh("x" + t, t) for t in s1.tags]
                    p, q = s1.renamed(bnd), s2.renamed(bnd)
                    self.assume(qf(IMP(z3.If(p.guard, p.body, rv(0)) == sg * z3.If(q.guard, q.body, rv(0)), c1 == sg * c2)))
        return bool(cs)

    # ---- forking ----------------------------------------------------------
    def branch(self, f):
        f = qf(f)
        if self.deadline and time.time() > self.deadline:
            raise Timeout("path exploration deadline")
        if f.kind == "atom":
            if is_true(f.args[0]):
                return True
            if is_false(f.args[0]):
                return False
        i = len(self.trail)
        if i < len(self.prefix):
            d, forced = self.prefix[i]
            self.trail.append((d, False, forced))
            self.assume(f if d else f.neg())
            self.branched_on.append(TRUE if forced else f)
            return d
        # an infeasible side may be explored (its obligations then hold trivially), a feasible one never is skipped
        rt = rf = None
        if self._light(f):
            rf = z3.unsat
        elif self._light(f.neg()):
            rt = z3.unsat
        if rf is None and rt is None:
            st = self.snapshot()
            self.assume(f)
            rt, _ = self.check(timeout=3000, rounds=BRANCH_ROUNDS, cap=BRANCH_CAP)
            self.restore(st)
            st = self.snapshot()
            self.assume(f.neg())
            rf, _ = self.check(timeout=3000, rounds=BRANCH_ROUNDS, cap=BRANCH_CAP)
            self.restore(st)
        t_ok, f_ok = rt != z3.unsat, rf != z3.unsat
        if not t_ok and not f_ok:
            raise PathAbort("infeasible path")
        alt = t_ok and f_ok
        forced = not alt  # decided the same way for every instance of generic elements
        d = f_ok if not (t_ok and f_ok) else False
        if not f_ok:
            d = True
        elif not t_ok:
            d = False
        if alt and self.focus is not None and not self.focus(f):
            alt = False  # sliced away: see explore() docstring
            STATS["sliced"] += 1
        self.trail.append((d, alt, forced))
        self.assume(f if d else f.neg())
        self.branched_on.append(TRUE if forced else f)
        return d

    def _light(self, goal):
        """
        unsatisfiability of the facts with the negated goal when universals are instantiated with the
        terms of the goal only: the witnesses that path conditions introduced rarely matter
        """
        if not self.univ:
            return False
        nf, nu = len(self.facts), len(self.univ)
        solver, layer = self.solver, self.layer
        self.solver, self.layer = z3.Solver(), Layer()
        try:
            self.solver.add(*self.facts)
            self.layer.nf = nf
            self.assume(goal.neg())
            r, _ = self.check(timeout=1500, rounds=2, cap=1500)
        finally:
            self.solver, self.layer = solver, layer
            kf = [f for f in self.facts[nf:] if f.ast.value in self.perm]
            ku = [u for u in self.univ[nu:] if u in self.perm]
            del self.facts[nf:]
            del self.univ[nu:]
            self.facts += kf
            self.univ += ku
        return r == z3.unsat

    # ---- obligations ------------------------------------------------------
    def _record(self, name, ok, detail=""):
        self.obligations.append((name, ok, detail))

    def prove(self, name, goal, timeout=20000):
        """Obligation: facts entail goal (formula)."""
        goal = qf(goal)
        if self._light(goal):
            self._record(name, "proved", "")
            return True
        st = self.snapshot()
        self.assume(goal.neg())
        r, s = self.check(timeout=timeout)
        if r == z3.sat and self.univ and any(u.groups for u in self.univ):
            self.layer.joint = False
            r, s = self.check(timeout=timeout, cap=8000)
        if r == z3.sat and self._sum_axioms():
            r, s = self.check(timeout=timeout)
        if r == z3.sat and self.univ and self.layer.kept:
            self.layer.deepen()
            r, s = self.check(timeout=timeout, cap=8000)
        if r == z3.sat and self.univ and not self.layer.full:  # complete the instantiation before calling it refuted
            self.layer.full = True
            r, s = self.check(timeout=timeout, rounds=2, cap=6000)
        if r == z3.unknown:
            self.layer.full = False
            r, s = self.check(timeout=timeout * 3, rounds=4)
        detail = {"unsat": lambda: "", "unknown": lambda: "unknown: " + s.reason_unknown(), "sat": lambda: "countermodel: " + model_str(s.model())}[str(r)]()
        self.restore(st)
        st = {"unsat": "proved", "sat": "refuted", "unknown": "unknown"}[str(r)]
        self._record(name, st, detail)
        return st == "proved"

    def prove_eq(self, name, a, b, assuming=TRUE):
        """Obligation: two Nums are equal for all valuations (sums pointwise)."""
        a, b = num(a), num(b)
        ok = True
        goals = []
        if not (is_false(a.nan) and is_false(b.nan)):
            goals.append(("missing-value flag", zb(a.nan) == zb(b.nan)))
        d = a - b
        for part, e in split_linear(d.t):
            goals.append((f"pointwise part{part}", IMP(assuming, e == 0)))
        groups: dict = {}
        for s in d.sums:
            order = sorted(range(len(s.tags)), key=lambda i: s.tags[i])
            key = tuple(s.tags[i] for i in order)
            groups.setdefault(key, []).append(SumT(s.coef, key, tuple(s.bnd[i] for i in order), s.guard, s.body))
        for key, ss in groups.items():
            bnd = [fresh("x" + t, t) for t in key]
            by = {}
            for s in ss:
                q = s.renamed(bnd)
                t = q.coef * z3.If(q.guard, q.body, rv(0))
                k = symbol_classes(t)
                by[k] = by[k] + t if k in by else t
            for k, e in by.items() if len(by) > 1 else ():  # it is enough that the summands of every component class cancel
                if all(self._light(qf(IMP(assuming, e1 == 0))) for _, e1 in split_linear(e)):
                    self._record(f"{name} [summand over {','.join(key)}; {'/'.join(sorted(k))}]", "proved", "")
                    by[k] = None
            e = rv(0)
            for t in by.values():
                e = e if t is None else e + t
            for part, e1 in split_linear(e):
                goals.append((f"summand over {','.join(key)}{part}", IMP(assuming, e1 == 0)))
        for nm, g in goals:
            ok &= self.prove_ground(f"{name} [{nm}]", g)
        return ok

    def prove_ground(self, name, g):
        gs = z3.simplify(g, som=True) if not isinstance(g, bool) else zb(g)
        if z3.is_true(gs):
            self._record(name, "proved", "simplifier")
            return True
        return self.prove(name, g)


def symbol_classes(e):
    """component classes the symbols of a term belong to (Generator.p_nom -> Generator)"""
    out, seen, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        if x.ast.value in seen or not z3.is_app(x):
            continue
        seen.add(x.ast.value)
        if x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.num_args():
            nm = x.decl().name()
            if nm[:1].isupper() and "." in nm:
                out.add(nm.split(".")[0].split("_")[0])
        stack.extend(x.children())
    return frozenset(out)


def split_linear(e):
    """
    e is linear in the values of the model variables: it vanishes for every valuation iff it vanishes
    with all of them zero and with all but those of one family zero.  [(label, expression)]
    """
    fam, memo, keep = {}, {}, []

    def deg(x):
        h = x.ast.value
        if h in memo:
            return memo[h]
        keep.append(x)
        if not z3.is_app(x):
            r = 9
        else:
            ch = x.children()
            ds = [deg(c) for c in ch]
            k = x.decl().kind()
            nm = x.decl().name()
            if k == z3.Z3_OP_UNINTERPRETED and nm.startswith("v."):
                fam.setdefault(nm, {})[h] = x
                r = 1 if not any(ds) else 9
            elif not any(ds):
                r = 0
            elif k in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
                r = max(ds)
            elif k == z3.Z3_OP_MUL:
                r = sum(ds)
            elif k == z3.Z3_OP_DIV:
                r = ds[0] if not ds[1] else 9
            elif k == z3.Z3_OP_ITE:
                r = max(ds[1:]) if not ds[0] else 9
            else:
                r = 9
        memo[h] = r
        return r

    if deg(e) > 1 or len(fam) < 2:
        return [("", e)]
    Z = rv(0)
    zero = [(v, Z) for d in fam.values() for v in d.values()]
    out = [(" without variables", z3.simplify(z3.substitute(e, *zero)))]
    for nm in sorted(fam):
        mine = set(fam[nm])
        done = {}

        def lin(x):
            """homogeneous part of x in the variables of this family"""
            h = x.ast.value
            if h in done:
                return done[h]
            if h in mine:
                r = x
            elif not memo[h]:
                r = Z
            else:
                ch = x.children()
                k = x.decl().kind()
                if k == z3.Z3_OP_UNINTERPRETED:
                    r = Z
                elif k == z3.Z3_OP_ITE:
                    u, v = lin(ch[1]), lin(ch[2])
                    r = Z if is_zero(u) and is_zero(v) else z3.If(ch[0], u, v)
                elif k == z3.Z3_OP_ADD:
                    us = [u for u in map(lin, ch) if not is_zero(u)]
                    r = Z if not us else us[0] if len(us) == 1 else z3.Sum(us)
                elif k == z3.Z3_OP_SUB:
                    us = [lin(c) for c in ch]
                    r = us[0]
                    for u in us[1:]:
                        r = r if is_zero(u) else (r - u)
                elif k == z3.Z3_OP_UMINUS:
                    u = lin(ch[0])
                    r = Z if is_zero(u) else -u
                elif k == z3.Z3_OP_DIV:
                    u = lin(ch[0])
                    r = Z if is_zero(u) else u / ch[1]
                else:  # product with one factor of degree one
                    us = [lin(c) if memo[c.ast.value] else c for c in ch]
                    r = Z if any(is_zero(u) for u in us) else z3.Product(us)
            done[h] = r
            keep.append(r)
            return r
        out.append((f" of {nm[2:]}", z3.simplify(lin(e))))
    return out


class Binder:
    def __init__(self, g, idx, tag, at):
        self.g, self.idx, self.tag, self.at, self.branched = g, idx, tag, at, False

    def use(self):
        if self.branched:
            raise Unsupported("generic loop whose body branches on its element")


def mentions(t, gs):
    ids = {g.ast.value for g in gs}
    _KEEP.append(t)
    seen, stack = set(), [t.ast.value]
    while stack:
        h = stack.pop()
        if h in seen:
            continue
        seen.add(h)
        if h in ids:
            return True
        stack.extend((_NODE.get(h) or _node(h))[1])
    return False


def mentions_qf(f, gs):
    f = qf(f)
    if f.kind == "atom":
        return mentions(f.args[0], gs)
    if f.kind in ("and", "or"):
        return any(mentions_qf(a, gs) for a in f.args)
    ks = [z3.Const(f"k:q{i}", SORTS[t]) for i, t in enumerate(f.tags)]
    return mentions_qf(f.fn(*ks), gs)


def symbols(f, out=None, depth=0):
    """names of the uninterpreted symbols of a formula"""
    out = set() if out is None else out
    f = qf(f)
    if f.kind == "atom":
        seen, stack = set(), [f.args[0]]
        while stack:
            e = stack.pop()
            if e.ast.value in seen:
                continue
            seen.add(e.ast.value)
            if z3.is_app(e):
                if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    out.add(e.decl().name())
                    if e.decl().name() in SUM_DEFS:
                        stack += [SUM_DEFS[e.decl().name()].guard, SUM_DEFS[e.decl().name()].body]
                stack.extend(e.children())
    elif f.kind in ("and", "or"):
        for a in f.args:
            symbols(a, out, depth)
    else:
        symbols(f.fn(*[_placeholder(t, depth + i) for i, t in enumerate(f.tags)]), out, depth + len(f.tags))
    return out


def mentions_any(v, gs):
    if isinstance(v, Num):
        if mentions(v.t, gs) or mentions(v.nan, gs):
            return True
        return any(mentions(s.coef, gs) or mentions(s.guard, gs) or mentions(s.body, gs) for s in v.sums)
    if isinstance(v, QF):
        return mentions_qf(v, gs)
    if isinstance(v, z3.ExprRef):
        return mentions(v, gs)
    return False


STATS = {"solver_s": 0.0, "queries": 0, "sliced": 0, "paths": 0}


def model_str(m, limit=1500):
    out = []
    for d in m.decls():
        nm = d.name()
        if nm.startswith(("or!", "b")):
            continue
        try:
            out.append(f"{nm} = {m[d]}")
        except Exception:
            pass
    s = "; ".join(str(x).replace("\n", " ") for x in out)
    return s[:limit]


def explore(run, focus=None, max_paths=400, deadline=None):
    """
    Execute `run(ctx)` along every feasible path.

    `focus` slices loops over component classes: a fork whose formula does not
    satisfy focus() takes one feasible side only.  That is sound for code whose
    iterations share no state but accumulators (checked by loops.independent()).
    Yields (ctx, result_or_exception).
    """
    stack = [[]]
    npaths = 0
    out = []
    while stack:
        prefix = stack.pop()
        ctx = Ctx(prefix, focus)
        ctx.deadline = deadline
        Ctx.cur = ctx
        npaths += 1
        STATS["paths"] += 1
        if npaths > max_paths:
            raise Unsupported(f"more than {max_paths} paths")
        try:
            res = run(ctx)
        except PathAbort:
            res = None
            continue_alt = True
            ctx.aborted = True
        finally:
            for i in range(len(prefix), len(ctx.trail)):
                d, alt, _ = ctx.trail[i]
                if alt:
                    stack.append([(x[0], x[2]) for x in ctx.trail[:i]] + [(not d, False)])
        out.append((ctx, res))
    return out
