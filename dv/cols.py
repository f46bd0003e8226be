"""
Column programs: deductive verification of functions that compute columns of the
static tables row by row (electrical parameters, C14).

The code objects compiled from /repo run on symbolic tables: a table is a
membership predicate over an infinite sort of labels, a column a function from a
label to an element.  An element is piecewise: (z3 guard, value) with values
rational functions over the table's entries (exact rational coefficients, real or
complex), labels, or missing.  Two columns are equal if on every pair of jointly
satisfiable pieces the rational functions are identical (cross-multiplied
polynomial identity) or z3 proves them equal.  Nothing is bounded.

Assumption: no division by zero beyond what the guards exclude; real arithmetic.
"""
from __future__ import annotations

import itertools
import os
import random
import time
import traceback
import types
from fractions import Fraction

from dv import core, world
from dv.core import B, L, R, Unsupported, strlab, z3

T, F_ = z3.BoolVal(True), z3.BoolVal(False)


def unsup(m):
    raise Unsupported(m)


def And(*a): return z3.simplify(z3.And(*a)) if a else T
def Not(a): return z3.simplify(z3.Not(a))
def Or(*a): return z3.simplify(z3.Or(*a)) if a else F_


# ------------------------------------------------------------------ rational functions
ATOMS: dict = {}      # id -> z3 real term
NAMES: dict = {}
AXIOMS: dict = {}     # id -> facts about the atom


def atom(t, facts=()):
    k = t.ast.value
    if k not in ATOMS:
        ATOMS[k] = t
        AXIOMS[k] = list(facts)
        NAMES[k] = str(t)
    return k


def mono_mul(a, b):
    d = dict(a)
    for k, e in b:
        d[k] = d.get(k, 0) + e
    return tuple(sorted((k, e) for k, e in d.items() if e))


def p_mul(p, q):
    r = {}
    for (m, c), (n, d) in itertools.product(p.items(), q.items()):
        k = mono_mul(m, n)
        r[k] = r.get(k, 0) + c * d
    if len(r) > 20000:
        unsup("polynomial too large")
    return {k: c for k, c in r.items() if c}


def p_add(p, q, s=1):
    r = dict(p)
    for k, c in q.items():
        r[k] = r.get(k, 0) + s * c
    return {k: c for k, c in r.items() if c}


ONE = {(): Fraction(1)}


class Rat:
    """p / q"""

    def __init__(s, p, q=None):
        q = ONE if q is None else q
        if not q:
            unsup("division by zero")
        if not p:
            q = ONE
        elif len(q) == 1:                     # monomial denominators become negative exponents
            (m, c), = q.items()
            inv = tuple((k, -e) for k, e in m)
            p, q = {mono_mul(n, inv): d / c for n, d in p.items()}, ONE
        elif p == q:
            p = q = ONE
        s.p, s.q = p, q

    def __add__(s, o):
        if s.q == o.q:
            return Rat(p_add(s.p, o.p), s.q)
        return Rat(p_add(p_mul(s.p, o.q), p_mul(o.p, s.q)), p_mul(s.q, o.q))

    def __neg__(s): return Rat({k: -c for k, c in s.p.items()}, s.q)
    def __sub__(s, o): return s + (-o)

    def __mul__(s, o):
        return Rat(p_mul(s.p, o.q) if s.p == o.q else p_mul(s.p, o.p), p_mul(s.q, o.q)) if s.p != o.q and s.q != o.p else (Rat(o.p, s.q) if s.p == o.q else Rat(s.p, o.q))

    def __truediv__(s, o):
        if not o.p:
            unsup("division by zero")
        # clear the negative exponents of the divisor
        DENOMS.add(str(o))
        return s * Rat(o.q, o.p)

    def same(s, o):
        return p_mul(s.p, o.q) == p_mul(o.p, s.q)

    def const(s):
        if s.q == ONE and set(s.p) <= {()}:
            return s.p.get((), Fraction(0))
        return None

    def atoms(s): return {k for pq in (s.p, s.q) for m in pq for k, _ in m}

    @staticmethod
    def _z(p):
        ts = []
        for m, c in sorted(p.items(), key=lambda mc: str([(NAMES[k], e) for k, e in mc[0]])):
            t = z3.RealVal(str(c))
            for k, e in sorted(m, key=lambda ke: NAMES[ke[0]]):
                for _ in range(abs(e)):
                    t = t * ATOMS[k] if e > 0 else t / ATOMS[k]
            ts.append(t)
        return z3.Sum(ts) if len(ts) > 1 else (ts[0] if ts else z3.RealVal(0))

    def z3(s): return s._z(s.p) if s.q == ONE else s._z(s.p) / s._z(s.q)
    def __str__(s): return str(z3.simplify(s.z3())).replace("\n", " ")[:120]


DENOMS: set = set()


def rat(v):
    if isinstance(v, Rat):
        return v
    if isinstance(v, (int, float)) and not isinstance(v, bool):
        if v != v or v in (float("inf"), -float("inf")):
            unsup("non-finite constant")
        f = Fraction(str(v))
        return Rat({(): f} if f else {})
    unsup(f"number {type(v)}")


def ratz(t, facts=()): return Rat({((atom(t, facts), 1),): Fraction(1)})


# ------------------------------------------------------------------ elements
class E:
    """piecewise element; kind: num, cplx, lab; None = missing"""

    def __init__(s, kind, pieces): s.kind, s.pieces = kind, pieces

    @staticmethod
    def one(kind, v): return E(kind, [(T, v)])


def el(v):
    if isinstance(v, E):
        return v
    if isinstance(v, complex):
        return E.one("cplx", (rat(v.real), rat(v.imag)))
    if isinstance(v, str):
        return E.one("lab", strlab(v))
    if v is None or (isinstance(v, float) and v != v):
        return E.one("num", None)
    if isinstance(v, (bool, z3.BoolRef)):
        return v if isinstance(v, z3.BoolRef) else z3.BoolVal(v)
    if type(v).__name__ == "Scalar":
        return v.e
    return E.one("num", rat(v))


def feasible(g): return not z3.is_false(g) and X.cur.feasible(g)


def combine(kind, f, *es):
    out = []
    for ps in itertools.product(*(e.pieces for e in es)):
        g = And(*(p[0] for p in ps))
        if len(ps) > 1 and not z3.is_true(g) and not feasible(g):
            continue
        r = f(*(p[1] for p in ps))
        out.append((g, r))
    return E(kind, out)


def cplx(v):
    if v.kind == "cplx":
        return v
    return E("cplx", [(g, None if x is None else (x, rat(0))) for g, x in v.pieces])


def arith(op, a, b):
    a, b = el(a), el(b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        cast = lambda z: E("num", [(z, rat(1)), (Not(z), rat(0))]) if isinstance(z, z3.BoolRef) else z
        a, b = cast(a), cast(b)
    if "lab" in (a.kind, b.kind):
        unsup("arithmetic on labels")
    if "cplx" in (a.kind, b.kind):
        a, b = cplx(a), cplx(b)
        fs = {"+": lambda x, y: (x[0] + y[0], x[1] + y[1]), "-": lambda x, y: (x[0] - y[0], x[1] - y[1]),
              "*": lambda x, y: (x[0] * y[0] - x[1] * y[1], x[0] * y[1] + x[1] * y[0]), "/": cdiv}
        k = "cplx"
    else:
        fs = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y, "/": lambda x, y: x / y}
        k = "num"
    return combine(k, lambda x, y: None if x is None or y is None else fs[op](x, y), a, b)


def cdiv(x, y):
    d = y[0] * y[0] + y[1] * y[1]
    return ((x[0] * y[0] + x[1] * y[1]) / d, (x[1] * y[0] - x[0] * y[1]) / d)


def power(a, n):
    a = el(a)
    if isinstance(n, float) and n == 0.5:
        return sqrt(a)
    if isinstance(n, float) and n.is_integer():
        n = int(n)
    if not isinstance(n, int) or abs(n) > 6:
        unsup("power")
    r = el(1)
    for _ in range(abs(n)):
        r = arith("*", r, a)
    return r if n >= 0 else arith("/", el(1), r)


SQRT = z3.Function("sqrt", R, R)


def sqrt(a):
    def f(v):
        if v is None:
            return None
        c = v.const()
        if c is not None and c == 0:
            return rat(0)
        t = v.z3()
        s = SQRT(z3.simplify(t, som=True) if v.q == ONE and False else t)
        return ratz(s, [s >= 0, z3.Implies(t >= 0, s * s == t)])
    return combine("num", f, el(a))


def compare(op, a, b):
    """z3 Bool; missing compares unequal / false"""
    a, b = el(a), el(b)
    if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
        if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef) and op in ("==", "!="):
            return a == b if op == "==" else a != b
        unsup("comparison of booleans")
    if (a.kind == "lab") != (b.kind == "lab"):
        unsup("comparison of labels with numbers")
    if "cplx" in (a.kind, b.kind):
        a, b = cplx(a), cplx(b)
    out = []
    for (g, x), (h, y) in itertools.product(a.pieces, b.pieces):
        if x is None or y is None:
            r = z3.BoolVal(op == "!=")
        elif a.kind == "lab":
            r = {"==": x == y, "!=": x != y}.get(op)
            if r is None:
                unsup("order of labels")
        elif a.kind == "cplx":
            eq = And(*(p.z3() == q.z3() for p, q in zip(x, y)))
            r = {"==": eq, "!=": Not(eq)}.get(op)
        else:
            p, q = x.z3(), y.z3()
            r = {"==": p == q, "!=": p != q, "<": p < q, "<=": p <= q, ">": p > q, ">=": p >= q}[op]
        out.append(And(g, h, r))
    return Or(*out)


def choose(c, a, b):
    a, b = el(a), el(b)
    if isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef):
        return z3.simplify(z3.If(c, a, b))
    if "cplx" in (a.kind, b.kind):
        a, b = cplx(a), cplx(b)
    kind = a.kind
    if a.kind != b.kind:
        if all(v is None for _, v in b.pieces):
            pass
        elif all(v is None for _, v in a.pieces):
            kind = b.kind
        else:
            unsup("column of mixed kind")
    ps = [(And(c, g), v) for g, v in a.pieces] + [(And(Not(c), g), v) for g, v in b.pieces]
    return E(kind, [(g, v) for g, v in ps if not z3.is_false(g) and feasible(g)])


def part(a, i):
    a = cplx(el(a))
    return E("num", [(g, None if v is None else v[i]) for g, v in a.pieces])


# ------------------------------------------------------------------ exploration
class Abort(Exception):
    pass


class X:
    """one execution path"""
    cur = None

    def __init__(s, prefix):
        s.prefix, s.trail, s.alts = prefix, [], []
        s.facts, s.univ, s.labels, s.obl = [], [], [], []
        s.memo = {}

    def label(s, name):
        c = z3.FreshConst(L, name)
        s.know(c)
        return c

    def know(s, c):
        if any(c.eq(x) for x in s.labels):
            return
        s.labels.append(c)
        for u in s.univ:
            s.facts.append(u(c))

    def forall(s, u):
        s.univ.append(u)
        for c in list(s.labels):
            s.facts.append(u(c))

    def solver(s, gs, timeout=4000):
        so = z3.Solver()
        so.set("timeout", timeout)
        so.add(*s.facts)
        so.add(*gs)
        used = set()
        todo = [g.ast.value for g in list(gs) + s.facts]
        ax = []
        for k, fs in AXIOMS.items():
            ax += fs
        so.add(*ax)
        strs = core.str_axioms()
        so.add(*(strs if isinstance(strs, (list, tuple)) else [strs]))
        return so

    def feasible(s, g):
        k = (g.ast.value, len(s.facts))
        if k not in s.memo:
            KEEP.append(g)
            t0 = time.time()
            s.memo[k] = s.solver([g]).check() != z3.unsat
            core.STATS["solver_s"] += time.time() - t0
            core.STATS["queries"] += 1
        return s.memo[k]

    def decide(s, g, neg):
        """g: z3 fact for the true side (with witnesses), neg: callable asserting the false side"""
        i = len(s.trail)
        pos_ok, d = None, None
        if i < len(s.prefix):
            d = s.prefix[i]
        else:
            pos_ok = s.feasible(g)
            st = (list(s.facts), list(s.univ))
            neg()
            neg_ok = s.feasible(T)
            s.facts, s.univ = st
            if not pos_ok and not neg_ok:
                raise Abort
            d = pos_ok
            if pos_ok and neg_ok:
                s.alts.append(s.trail + [False])
        s.trail.append(d)
        if d:
            s.facts.append(g)
        else:
            neg()
        return d

    def record(s, name, st, det=""): s.obl.append((name, st, det))

    def prove(s, name, goal):
        t0 = time.time()
        so = s.solver([z3.Not(goal)], 15000)
        r = so.check()
        core.STATS["solver_s"] += time.time() - t0
        core.STATS["queries"] += 1
        s.record(name, "proved" if r == z3.unsat else "refuted" if r == z3.sat else "unknown", "" if r != z3.sat else core.model_str(so.model(), 400) if hasattr(core, "model_str") else str(so.model())[:400])

    def prove_el(s, name, a, b):
        """the elements are equal in every case"""
        a, b = el(a), el(b)
        if isinstance(a, z3.BoolRef) or isinstance(b, z3.BoolRef):
            if not (isinstance(a, z3.BoolRef) and isinstance(b, z3.BoolRef)):
                return s.record(name, "refuted", "kinds differ")
            return s.prove(name, a == b)
        if a.kind != b.kind and {a.kind, b.kind} == {"num", "cplx"}:
            a, b = cplx(a), cplx(b)
        det = "polynomial identity"
        for (g, x), (h, y) in itertools.product(a.pieces, b.pieces):
            gh = And(g, h)
            if z3.is_false(gh):
                continue
            if a.kind != b.kind:
                same, diff = x is None and y is None, T
            elif x is None or y is None:
                same, diff = x is y, T
            elif a.kind == "lab":
                same, diff = x.eq(y), x != y
            else:
                xs, ys = (x, y) if a.kind == "cplx" else ((x,), (y,))
                same = all(p.same(q) for p, q in zip(xs, ys))
                diff = None if same else Or(*(p.z3() != q.z3() for p, q in zip(xs, ys)))
            if same or not s.feasible(gh):
                continue
            if diff is not T and a.kind != "lab":  # different as rational functions: a point in general position decides
                rnd = random.Random(7)
                ats = sorted({k for v in (x, y) for q in (v if isinstance(v, tuple) else (v,)) for k in q.atoms()}, key=lambda k: NAMES[k])
                for _ in range(3):
                    so = s.solver([gh, diff], 3000)
                    so.add(*(ATOMS[k] == z3.Q(rnd.randint(1, 40), 8) for k in ats if "sqrt" not in NAMES[k]))
                    if so.check() == z3.sat:
                        return s.record(name, "refuted", f"{x} vs {y}; {core.model_str(so.model(), 300)}")
            t0 = time.time()
            so = s.solver([gh, diff], 15000)
            r = so.check()
            core.STATS["solver_s"] += time.time() - t0
            core.STATS["queries"] += 1
            if r == z3.unsat:
                det = "z3"
                continue
            if r == z3.sat:
                return s.record(name, "refuted", f"{x} vs {y} when {str(gh)[:200]}; {core.model_str(so.model(), 300)}")
            return s.record(name, "unknown", f"{x} vs {y}")
        s.record(name, "proved", det)


KEEP: list = []


class Q:
    """symbolic truth value asked by python: exists label: g(label)"""

    def __init__(s, g, neg=False): s.g, s.neg = g, neg
    def __invert__(s): return Q(s.g, not s.neg)

    def __bool__(s):
        x = X.cur
        w = x.label("w")
        r = x.decide(s.g(w), lambda: x.forall(lambda c: z3.Not(s.g(c))))
        return r != s.neg


class Count:
    def __init__(s, g): s.g = g
    def __eq__(s, o): return Q(s.g, True) if isinstance(o, (int, float)) and o == 0 else unsup("count")
    def __ne__(s, o): return Q(s.g) if isinstance(o, (int, float)) and o == 0 else unsup("count")
    def __gt__(s, o): return Q(s.g) if isinstance(o, (int, float)) and o == 0 else unsup("count")
    def __le__(s, o): return Q(s.g, True) if isinstance(o, (int, float)) and o == 0 else unsup("count")
    def __lt__(s, o): return Q(s.g, True) if o == 1 else unsup("count")
    def __ge__(s, o): return Q(s.g) if o == 1 else unsup("count")
    def __bool__(s): return bool(Q(s.g))
    __hash__ = None


# ------------------------------------------------------------------ tables
class Ix:
    def __init__(s, mem): s.mem = mem
    @property
    def empty(s): return ~Q(s.mem)
    def __len__(s): unsup("length of an index")
    def difference(s, o): return Ix(lambda c: And(s.mem(c), Not(o.mem(c))))
    def intersection(s, o): return Ix(lambda c: And(s.mem(c), o.mem(c)))
    def unique(s): return s
    def __iter__(s): return iter(["<missing>"])
    def sort_values(s, *a, **k): return s
    def tolist(s): return s
    def astype(s, *a): return s
    def __getitem__(s, m):
        if isinstance(m, Col) and m.kind() == "bool":
            return Ix(lambda c: And(s.mem(c), m.fn(c)))
        if isinstance(m, Arr) and m.bool:
            return Ix(lambda c: And(s.mem(c), m.fn(c)))
        unsup("index selection")
    def isin(s, o): return Arr(s, lambda c: o.mem(c), True)


class Image:
    """labels occurring in a column"""

    def __init__(s, col): s.col = col

    def difference(s, o):
        col = s.col

        def g(c):
            e = col.fn(c)
            return And(col.ix.mem(c), Or(*(And(h, Not(o.mem(v))) for h, v in e.pieces if v is not None)))
        return Cond(g)

    def dropna(s): return s
    def __iter__(s): unsup("iteration over values")


class Cond:
    def __init__(s, g): s.g = g
    @property
    def empty(s): return Q(s.g, True)
    def __iter__(s): return iter(["<missing>"])
    def tolist(s): return ["<missing>"]
    def __bool__(s): unsup("truth of an index")
    def __len__(s): return int(bool(Q(s.g)))


def same_ix(a, b):
    if a is b:
        return True
    c = z3.FreshConst(L, "k")
    x = X.cur
    st = (list(x.facts), list(x.labels))
    x.know(c)
    r = not x.feasible(a.mem(c) != b.mem(c))
    x.facts, x.labels = st
    return r


class Arr:
    """positional array which remembers the index it came from"""

    def __init__(s, ix, fn, isbool=False): s.ix, s.fn, s.bool = ix, fn, isbool
    def _op(s, o, f):
        if isinstance(o, Arr):
            if not same_ix(s.ix, o.ix):
                unsup("arrays of different length")
            return Arr(s.ix, lambda c: f(s.fn(c), o.fn(c)))
        if isinstance(o, Col):
            return NotImplemented
        return Arr(s.ix, lambda c: f(s.fn(c), o))
    def __add__(s, o): return s._op(o, lambda a, b: arith("+", a, b))
    def __radd__(s, o): return s._op(o, lambda a, b: arith("+", b, a))
    def __sub__(s, o): return s._op(o, lambda a, b: arith("-", a, b))
    def __rsub__(s, o): return s._op(o, lambda a, b: arith("-", b, a))
    def __mul__(s, o): return s._op(o, lambda a, b: arith("*", a, b))
    __rmul__ = __mul__
    def __truediv__(s, o): return s._op(o, lambda a, b: arith("/", a, b))
    def __rtruediv__(s, o): return s._op(o, lambda a, b: arith("/", b, a))
    def __pow__(s, n): return Arr(s.ix, lambda c: power(s.fn(c), n))
    def __neg__(s): return s * -1
    def __and__(s, o): return Arr(s.ix, lambda c: And(s.fn(c), o.fn(c)), True)
    def __or__(s, o): return Arr(s.ix, lambda c: Or(s.fn(c), o.fn(c)), True)
    def __invert__(s): return Arr(s.ix, lambda c: Not(s.fn(c)), True)
    def any(s): return Q(lambda c: And(s.ix.mem(c), s.fn(c)))
    def all(s): return Q(lambda c: And(s.ix.mem(c), Not(s.fn(c))), True)
    @property
    def real(s): return Arr(s.ix, lambda c: part(s.fn(c), 0))
    @property
    def imag(s): return Arr(s.ix, lambda c: part(s.fn(c), 1))
    def copy(s): return s


class Col:
    __array_priority__ = 1000

    def __init__(s, ix, fn, name=None): s.ix, s.fn, s.name = ix, fn, name
    def kind(s):
        c = z3.Const("kind:x", L)
        v = s.fn(c)
        return "bool" if isinstance(v, z3.BoolRef) else v.kind

    def _op(s, o, f, cmp=False):
        if isinstance(o, Arr):
            if not same_ix(s.ix, o.ix):
                unsup("array of different length")
            return Col(s.ix, lambda c: f(s.fn(c), o.fn(c)))
        if isinstance(o, Col):
            if same_ix(s.ix, o.ix):
                return Col(s.ix, lambda c: f(s.fn(c), o.fn(c)))
            if cmp:
                unsup("comparison of differently indexed series")
            ma, mb = s.ix.mem, o.ix.mem
            return Col(Ix(lambda c: Or(ma(c), mb(c))), lambda c: choose(And(ma(c), mb(c)), f(s.fn(c), o.fn(c)), None))
        if isinstance(o, Table):
            unsup("series with frame")
        return Col(s.ix, lambda c: f(s.fn(c), o))

    def __add__(s, o): return s._op(o, lambda a, b: arith("+", a, b))
    def __radd__(s, o): return s._op(o, lambda a, b: arith("+", b, a))
    def __sub__(s, o): return s._op(o, lambda a, b: arith("-", a, b))
    def __rsub__(s, o): return s._op(o, lambda a, b: arith("-", b, a))
    def __mul__(s, o): return s._op(o, lambda a, b: arith("*", a, b))
    __rmul__ = __mul__
    def __truediv__(s, o): return s._op(o, lambda a, b: arith("/", a, b))
    def __rtruediv__(s, o): return s._op(o, lambda a, b: arith("/", b, a))
    def __pow__(s, n): return Col(s.ix, lambda c: power(s.fn(c), n))
    def __neg__(s): return s * -1
    add, sub, mul, div, pow = __add__, __sub__, __mul__, __truediv__, __pow__
    radd, rsub, rmul, rdiv, rtruediv, truediv, multiply, divide, subtract = __radd__, __rsub__, __mul__, __rtruediv__, __rtruediv__, __truediv__, __mul__, __truediv__, __sub__
    def __eq__(s, o): return s._op(o, lambda a, b: compare("==", a, b), True)
    def __ne__(s, o): return s._op(o, lambda a, b: compare("!=", a, b), True)
    def __lt__(s, o): return s._op(o, lambda a, b: compare("<", a, b), True)
    def __le__(s, o): return s._op(o, lambda a, b: compare("<=", a, b), True)
    def __gt__(s, o): return s._op(o, lambda a, b: compare(">", a, b), True)
    def __ge__(s, o): return s._op(o, lambda a, b: compare(">=", a, b), True)
    eq, ne, lt, le, gt, ge = __eq__, __ne__, __lt__, __le__, __gt__, __ge__
    __hash__ = None

    def _b(s, o, f):
        if isinstance(o, bool):
            return Col(s.ix, lambda c: f(s.fn(c), z3.BoolVal(o)))
        if not same_ix(s.ix, o.ix):
            unsup("masks of different index")
        return Col(s.ix, lambda c: f(s.fn(c), o.fn(c)))
    def __and__(s, o): return s._b(o, And)
    def __or__(s, o): return s._b(o, Or)
    def __invert__(s): return Col(s.ix, lambda c: Not(s.fn(c)))
    def __bool__(s): raise ValueError("The truth value of a Series is ambiguous")

    def sum(s): return Count(lambda c: And(s.ix.mem(c), s.fn(c))) if s.kind() == "bool" else unsup("sum of a column")
    zsum = sum
    def any(s): return Q(lambda c: And(s.ix.mem(c), s.fn(c)))
    def all(s): return Q(lambda c: And(s.ix.mem(c), Not(s.fn(c))), True)
    @property
    def empty(s): return s.ix.empty
    @property
    def index(s): return s.ix
    @property
    def values(s): return Arr(s.ix, s.fn, s.kind() == "bool")
    def to_numpy(s, *a, **k): return s.values
    def copy(s, *a, **k): return s
    def astype(s, t, *a, **k): return s
    def infer_objects(s, *a, **k): return s
    @property
    def dtype(s): return "dtype"
    def rename(s, *a, **k): return s
    def unique(s): return Image(s)
    def isnull(s): return Col(s.ix, lambda c: Or(*(g for g, v in s.fn(c).pieces if v is None)))
    isna = isnull
    def notnull(s): return ~s.isnull()
    notna = notnull
    def fillna(s, v): return Col(s.ix, lambda c: choose(s.isnull().fn(c), v, s.fn(c)))
    def where(s, m, o=None):
        return Col(s.ix, lambda c: choose(m.fn(c), s.fn(c), o.fn(c) if isinstance(o, (Col, Arr)) else o))
    def mask(s, m, o=None): return s.where(~m, o)
    def clip(s, lower=None, upper=None):
        r = s
        if lower is not None:
            f = r.fn
            r = Col(s.ix, lambda c, f=f: choose(compare("<", f(c), lower), lower, f(c)))
        if upper is not None:
            g = r.fn
            r = Col(s.ix, lambda c, g=g: choose(compare(">", g(c), upper), upper, g(c)))
        return r
    def isin(s, o):
        if isinstance(o, Ix):
            return Col(s.ix, lambda c: Or(*(And(g, o.mem(v)) for g, v in s.fn(c).pieces if v is not None)))
        return Col(s.ix, lambda c: Or(*(compare("==", s.fn(c), v) for v in o)))
    def map(s, o):
        if not isinstance(o, Col):
            unsup("map of a function")

        def f(c):
            e = s.fn(c)
            if isinstance(e, z3.BoolRef) or e.kind != "lab":
                unsup("map of numbers")
            r = None
            for g, v in e.pieces:
                t = el(None) if v is None else choose(o.ix.mem(v), o.fn(v), None)
                r = t if r is None else choose(g, t, r)
            return r
        return Col(s.ix, f)
    replace = None
    @property
    def loc(s): return ColLoc(s)
    def reindex(s, ix): return Col(ix, lambda c: choose(s.ix.mem(c), s.fn(c), None))
    def __getitem__(s, m):
        return s.loc[m]
    def abs(s): return s.where(s >= 0, -s)
    def to_frame(s, *a): unsup("to_frame")
    @property
    def real(s): return s.values.real
    @property
    def imag(s): return s.values.imag
    def __getattr__(s, a): unsup(f"Series.{a}")


def restrict(ix, m):
    """rows selected by a mask or an index"""
    if isinstance(m, slice) and m == slice(None):
        return ix
    if isinstance(m, (Col, Arr)):
        if not same_ix(ix, m.ix):
            unsup("mask of another index")
        return Ix(lambda c: And(ix.mem(c), m.fn(c)))
    if isinstance(m, Ix):
        return Ix(lambda c: And(ix.mem(c), m.mem(c))) if not subset(m, ix) else m
    unsup(f"row selection {type(m)}")


def subset(a, b):
    c = z3.FreshConst(L, "k")
    x = X.cur
    st = (list(x.facts), list(x.labels))
    x.know(c)
    r = not x.feasible(And(a.mem(c), Not(b.mem(c))))
    x.facts, x.labels = st
    return r


class ColLoc:
    def __init__(s, c): s.c = c
    def __getitem__(s, m): return Col(restrict(s.c.ix, m), s.c.fn)
    def __setitem__(s, m, v):
        c = s.c
        put = assigned(restrict(c.ix, m), v)
        old = c.fn
        sel = restrict(c.ix, m)
        c.fn = lambda k: choose(sel.mem(k), put(k), old(k))


def assigned(sel, v):
    if isinstance(v, Col):
        return lambda c: choose(v.ix.mem(c), v.fn(c), None)
    if isinstance(v, Arr):
        if not same_ix(sel, v.ix):
            x = X.cur
            raise ValueError("setting an array element with a sequence of different length")
        return v.fn
    return lambda c: el(v)


class Table:
    def __init__(s, ix, cols, name=None):
        s.__dict__.update(ix=ix, cols=dict(cols), tname=name)

    def __getattr__(s, a):
        if a.startswith("__"):
            raise AttributeError(a)
        if a in s.cols:
            return s[a]
        unsup(f"DataFrame.{a}")

    def __setattr__(s, a, v):
        if a in s.cols:
            s[a] = v
        else:
            unsup(f"attribute {a} of a table")

    def __getitem__(s, k):
        if isinstance(k, list):
            return Table(s.ix, {a: s._c(a) for a in k})
        if isinstance(k, str):
            return Col(s.ix, s._c(k), k)
        if isinstance(k, (Col, Arr)):
            return s.loc[k]
        unsup("table selection")

    def _c(s, k):
        if k not in s.cols:
            raise KeyError(k)
        return s.cols[k]

    def __setitem__(s, k, v):
        if isinstance(k, list):
            if not isinstance(v, Table):
                unsup("assignment of columns")
            for a, b in zip(k, v.cols):
                s[a] = v[b]
            return
        if isinstance(v, Table):
            unsup("assignment of a table")
        s.cols[k] = memo(assigned(s.ix, v))

    def __contains__(s, k): return k in s.cols
    def __iter__(s): return iter(list(s.cols))
    @property
    def columns(s): return list(s.cols)
    @property
    def index(s): return s.ix
    @property
    def empty(s): return s.ix.empty
    @property
    def loc(s): return TabLoc(s)
    @property
    def dtypes(s): return "dtypes"
    def astype(s, *a, **k): return s
    def copy(s, *a, **k): return Table(s.ix, s.cols)
    def reindex(s, ix=None, columns=None, **k):
        ix = k.get("index", ix)
        t = Table(s.ix, {a: s.cols[a] for a in (columns or s.cols)})
        if ix is None:
            return t
        return Table(ix, {a: (lambda c, f=f: choose(s.ix.mem(c), f(c), None)) for a, f in t.cols.items()})
    def assign(s, **k):
        t = s.copy()
        for a, v in k.items():
            t[a] = v(t) if callable(v) and not isinstance(v, Col) else v
        return t
    def get(s, k, d=None): return s[k] if k in s.cols else d
    def rename(s, columns=None, **k):
        return Table(s.ix, {columns.get(a, a): f for a, f in s.cols.items()})
    def drop(s, labels=None, columns=None, axis=0, **k):
        c = columns if columns is not None else labels if axis in (1, "columns") else unsup("drop rows")
        c = [c] if isinstance(c, str) else list(c)
        return Table(s.ix, {a: f for a, f in s.cols.items() if a not in c})
    def join(s, o, on=None, **k):
        if k or on is None or set(s.cols) & set(o.cols):
            unsup("join")
        key = s[on]
        return Table(s.ix, {**s.cols, **{a: memo(key.map(o[a]).fn) for a in o.cols}})
    def query(s, q): return s.loc[Evaler(s)(q)]
    def eval(s, q): return Evaler(s)(q)


class Evaler:
    def __init__(s, t): s.t = t
    def __call__(s, q):
        import ast
        q = q.replace(" and ", " & ").replace(" or ", " | ").replace("not ", "~ ")
        if "@" in q:
            unsup("query with @")
        try:
            return eval(compile(ast.parse(q.strip(), mode="eval"), "query", "eval"), {"__builtins__": {}}, {k: s.t[k] for k in s.t.cols})
        except (SyntaxError, NameError) as e:
            unsup(f"query {q}: {e}")


def memo(f):
    d = {}

    def g(c):
        k = (id(X.cur), c.ast.value)
        if k not in d:
            KEEP.append(c)
            d[k] = f(c)
        return d[k]
    return g


class TabLoc:
    def __init__(s, t): s.t = t

    def __getitem__(s, k):
        if not isinstance(k, tuple):
            return Table(restrict(s.t.ix, k), s.t.cols)
        m, c = k
        t = Table(restrict(s.t.ix, m), s.t.cols)
        return t if isinstance(c, slice) else t[c]

    def __setitem__(s, k, v):
        m, c = k if isinstance(k, tuple) else (k, list(s.t.cols))
        sel = restrict(s.t.ix, m)
        for i, a in enumerate([c] if isinstance(c, str) else list(c)):
            if isinstance(v, Table):
                if a not in v.cols:
                    put = lambda x: el(None)
                else:
                    put = assigned(sel, v[a])
            elif isinstance(v, (list, tuple)):
                put = assigned(sel, v[i])
            else:
                put = assigned(sel, v)
            old = s.t.cols.get(a, lambda x: el(None))
            s.t.cols[a] = memo(lambda x, old=old, put=put: choose(sel.mem(x), put(x), old(x)))


# ------------------------------------------------------------------ the network
def base_column(cls, attr, typ):
    nm = f"{cls}.{attr}"
    if typ == "string":
        f = z3.Function(nm, L, L)
        return lambda c: E.one("lab", f(c))
    if typ == "boolean":
        f = z3.Function(nm, L, B)
        return lambda c: f(c)
    f = z3.Function(nm, L, R)
    return lambda c: E.one("num", ratz(f(c)))


LISTS = {"Bus": "buses", "Line": "lines", "Transformer": "transformers", "LineType": "line_types", "TransformerType": "transformer_types",
         "ShuntImpedance": "shunt_impedances", "Link": "links", "Store": "stores", "Generator": "generators", "Load": "loads", "StorageUnit": "storage_units"}


class Net:
    """a network of which only the static tables exist"""

    def __init__(s):
        import pandas as pd
        s.__dict__["tables"] = {}
        for cls, lst in LISTS.items():
            d = pd.read_csv(os.path.join(world.REPO, "pypsa", "data", "component_attrs", f"{lst}.csv"))
            cols = {}
            for a, t, st in zip(d["attribute"], d["type"], d["status"]):
                if a == "name" or t == "series":
                    continue
                cols[a] = base_column(cls, a, "string" if t == "string" else "boolean" if t == "boolean" else "num")
            mem = z3.Function(f"in.{cls}", L, B)
            s.tables[cls] = Table(Ix(lambda c, mem=mem: mem(c)), cols, cls)
        s.__dict__["old"] = {c: Table(t.ix, t.cols) for c, t in s.tables.items()}
        s.__dict__.update({LISTS[c]: t for c, t in s.tables.items()})

    def __setattr__(s, a, v):
        if a in LISTS.values() and isinstance(v, Table):
            cls = next(c for c, x in LISTS.items() if x == a)
            s.tables[cls] = v
            s.__dict__[a] = v
            return
        unsup(f"n.{a} = ...")

    def static(s, c): return s.tables[c] if c in s.tables else unsup(f"n.static({c})")
    df = static
    def __getattr__(s, a): unsup(f"n.{a}")


class Scalar:
    def __init__(s, e): s.e = e


def _pi():
    c = z3.Real("pi")
    return Sc(E.one("num", ratz(c, [c > z3.RealVal("3.14"), c < z3.RealVal("3.15")])))


class Sc:
    """scalar element"""
    __array_priority__ = 1000
    def __init__(s, e): s.e = e
    def _op(s, o, op, r=False):
        if isinstance(o, (Col, Arr)):
            return NotImplemented
        o = o.e if isinstance(o, Sc) else o
        return Sc(arith(op, o, s.e) if r else arith(op, s.e, o))
    def __add__(s, o): return s._op(o, "+")
    def __radd__(s, o): return s._op(o, "+", True)
    def __sub__(s, o): return s._op(o, "-")
    def __rsub__(s, o): return s._op(o, "-", True)
    def __mul__(s, o): return s._op(o, "*")
    __rmul__ = __mul__
    def __truediv__(s, o): return s._op(o, "/")
    def __rtruediv__(s, o): return s._op(o, "/", True)
    def __neg__(s): return s * -1
    def __pow__(s, n): return Sc(power(s.e, n))


Scalar = Sc
_el = el


def el(v):  # noqa: F811
    return v.e if isinstance(v, Sc) else _el(v)


def lift(f):
    def g(x, *a, **k):
        if isinstance(x, Col):
            return Col(x.ix, lambda c: f(x.fn(c)))
        if isinstance(x, Arr):
            return Arr(x.ix, lambda c: f(x.fn(c)))
        if isinstance(x, (Sc, int, float)):
            return Sc(f(el(x)))
        unsup("numpy function")
    return g


def np_where(c, a, b):
    g = lambda v, k: v.fn(k) if isinstance(v, (Col, Arr)) else el(v)
    return Arr(c.ix, lambda k: choose(c.fn(k), g(a, k), g(b, k)))


def extremum(lower):
    def f(a, b):
        a, b = (a, b) if isinstance(a, (Col, Arr)) else (b, a)
        if isinstance(b, (Col, Arr)):
            return a.where(a >= b, b) if lower else a.where(a <= b, b)
        return a.clip(lower=b) if lower else a.clip(upper=b)
    return f


class CallableMod(world.Dummy):
    pass


def shims():
    idx = world.shim_type("Index", lambda x: isinstance(x, (Ix, Image, Cond)), lambda x, *a, **k: x)
    pd = world.mod("pandas", Series=world.shim_type("Series", lambda x: isinstance(x, Col)), DataFrame=world.shim_type("DataFrame", lambda x: isinstance(x, Table)),
                   Index=idx, options=world.Dummy("pd.options"), isna=lambda x: x.isnull(), isnull=lambda x: x.isnull(),
                   MultiIndex=world.shim_type("MultiIndex", lambda x: False), DatetimeIndex=world.shim_type("DatetimeIndex", lambda x: False))
    np_ = world.mod("numpy", pi=_pi(), sqrt=lift(sqrt), real=lift(lambda e: part(e, 0)), imag=lift(lambda e: part(e, 1)), where=np_where, inf=float("inf"),
                    nan=float("nan"), square=lift(lambda e: power(e, 2)), maximum=extremum(True), minimum=extremum(False),
                    ndarray=world.shim_type("ndarray", lambda x: isinstance(x, Arr)), reciprocal=lift(lambda e: arith("/", 1, e)))
    math = world.mod("math", pi=np_.pi, sqrt=np_.sqrt)
    return {"pandas": pd, "numpy": np_, "math": math, "scipy.constants": math}


class Loader(world.Loader):
    def __init__(s):
        super().__init__()
        s.sh = shims()

    def imp(s, name, globals=None, locals=None, fromlist=(), level=0):
        if not level and name in s.sh:
            return s.sh[name] if fromlist or "." not in name else s.sh[name.split(".")[0]]
        if level:
            pkg = globals["__name__"].rsplit(".", level)[0]
            name = f"{pkg}.{name}" if name else pkg
        if name == "pypsa.descriptors":
            # contract: touches neither the tables under contract nor their order
            return world.mod("pypsa.descriptors", update_linkports_component_attrs=lambda *a, **k: None)
        return super().imp(name, globals, locals, fromlist, 0)


# ------------------------------------------------------------------ contracts
class Row:
    """original attributes of the row with label c"""

    def __init__(s, t, c): s.__dict__.update(t=t, c=c)
    def __getattr__(s, a):
        return V(s.t.cols[a](s.c))


class V(Sc):
    def __eq__(s, o): return compare("==", s.e, el(o))
    def __ne__(s, o): return compare("!=", s.e, el(o))
    __hash__ = None
    @property
    def label(s):
        (g, v), = s.e.pieces
        return v


def If(c, a, b): return Sc(choose(c, el(a), el(b)))


def look(t, lab):
    """row of another table"""
    return Row(t, lab.label)


def line_types_spec(n, c):
    a = Row(n.old["Line"], c)
    t = look(n.old["LineType"], a.type)
    typed = a.type != ""
    pi = _pi()
    return dict(r=If(typed, t.r_per_length * a.length / a.num_parallel, a.r), x=If(typed, t.x_per_length * a.length / a.num_parallel, a.x),
                b=If(typed, pi * 2 * t.f_nom * t.c_per_length * a.length * a.num_parallel / 1000000000, a.b))


def transformer_types_spec(n, c):
    a = Row(n.old["Transformer"], c)
    t = look(n.old["TransformerType"], a.type)
    typed = a.type != ""
    k = a.num_parallel
    r = t.vscr / 100
    g = t.pfe / 1000 / t.s_nom
    b2 = t.i0 * t.i0 / 10000 - g * g
    want = dict(r=r / k, x=Sc(sqrt(el(t.vsc * t.vsc / 10000 - r * r))) / k, g=g * k,
                b=-(If(compare("<", b2.e, 0), 0, Sc(sqrt(el(If(compare("<", b2.e, 0), 0, b2)))))) * k, s_nom=t.s_nom, phase_shift=t.phase_shift, tap_side=t.tap_side,
                tap_ratio=(a.tap_position - t.tap_neutral) * t.tap_step / 100 + 1)
    return {k: If(typed, v, getattr(a, k)) for k, v in want.items()}


def t_model(a_model, r, x, g, b):
    """two half impedances with a shunt in the middle, as seen from the terminals"""
    I_ = Sc(E.one("cplx", (rat(0), rat(1))))
    z, y = r + I_ * x, g + I_ * b
    on = And(a_model == "t", compare("!=", y.e, 0))
    h = z / 2
    if z3.is_false(on) or not feasible(on):
        return dict(r_pu=r, x_pu=x, g_pu=g, b_pu=b)
    den = h * h * y + h * 2                  # (h^2 + 2 h / y) * y
    zpi, ypi = den, h * 2 * y / den
    p = lambda v, i: Sc(part(v.e, i))
    return dict(r_pu=If(on, p(zpi, 0), r), x_pu=If(on, p(zpi, 1), x), g_pu=If(on, p(ypi, 0), g), b_pu=If(on, p(ypi, 1), b))


OPAQUE = {"Line": ("r", "x", "b"), "Transformer": ("r", "x", "g", "b", "s_nom", "phase_shift", "tap_side", "tap_ratio")}
TYPED = {"Line": "apply_line_types", "Transformer": "apply_transformer_types"}


def opaque(cls, a):
    """the value which the contract of apply_*_types gives to the attribute"""
    f = z3.Function(f"{cls}.{a} after {TYPED[cls]}", L, R)
    return lambda c: E.one("num", ratz(f(c)))


def t_opaque(a, model, *args):
    """the value which the contract of apply_transformer_t_model gives to the attribute"""
    f = z3.Function(f"{a} of the T-model", L, R, R, R, R, R)
    return combine("num", lambda mo, *v: None if None in v else ratz(f(mo, *(z3.simplify(y.z3()) for y in v))), el(model), *(el(y) for y in args))


T_ATTRS = ("r_pu", "x_pu", "g_pu", "b_pu")


def callee_types(n, cls):
    def call(net):
        tab, old = n.tables[cls], n.old[cls]
        for a in ("type", "length", "num_parallel", "tap_position") + OPAQUE[cls]:
            if a in old.cols and tab.cols.get(a) is not old.cols[a]:
                unsup(f"{TYPED[cls]} called on a modified table")
        if Q(bad_type(n, cls)):
            raise ValueError("unknown type")
        for a in OPAQUE[cls]:
            tab.cols[a] = opaque(cls, a)
    return call


def callee_t_model(n):
    def call(net):
        tab = n.tables["Transformer"]
        cur = dict(tab.cols)
        for a in T_ATTRS:
            tab.cols[a] = memo(lambda c, a=a: t_opaque(a, cur["model"](c), *(cur[b](c) for b in T_ATTRS)))
    return call


def dependent_spec(n, cls, c):
    a = Row(n.old[cls], c)
    bus = n.old["Bus"]
    if cls == "Line":
        w = {k: Sc(opaque(cls, k)(c)) for k in OPAQUE[cls]} if TYPED[cls] in n.replaced else line_types_spec(n, c)
        v = look(bus, a.bus0).v_nom
        v2 = v * v
        w.update(v_nom=v, x_pu=w["x"] / v2, r_pu=w["r"] / v2, b_pu=w["b"] * v2, g_pu=a.g * v2, carrier=If(a.carrier == "", look(bus, a.bus0).carrier, a.carrier))
        w.update(x_pu_eff=w["x_pu"], r_pu_eff=w["r_pu"])
        return w
    if cls == "Transformer":
        w = {k: Sc(opaque(cls, k)(c)) for k in OPAQUE[cls]} if TYPED[cls] in n.replaced else transformer_types_spec(n, c)
        s = w["s_nom"]
        pu = dict(r_pu=w["r"] / s, x_pu=w["x"] / s, g_pu=w["g"] * s, b_pu=w["b"] * s)
        w.update(x_pu_eff=pu["x_pu"] * w["tap_ratio"], r_pu_eff=pu["r_pu"] * w["tap_ratio"])
        if "apply_transformer_t_model" in n.replaced:
            w.update({k: Sc(t_opaque(k, a.model, *(pu[b] for b in T_ATTRS))) for k in T_ATTRS})
        else:
            w.update(t_model(a.model, pu["r_pu"], pu["x_pu"], pu["g_pu"], pu["b_pu"]))
        return w
    if cls == "ShuntImpedance":
        v = look(bus, a.bus).v_nom
        return dict(v_nom=v, b_pu=a.b * v * v, g_pu=a.g * v * v)
    if cls in ("Link", "Store"):
        b = a.bus0 if cls == "Link" else a.bus
        return dict(carrier=If(a.carrier == "", look(bus, b).carrier, a.carrier))
    return {}


SPECS = {
    "apply_line_types": lambda n, cls, c: line_types_spec(n, c) if cls == "Line" else {},
    "apply_transformer_types": lambda n, cls, c: transformer_types_spec(n, c) if cls == "Transformer" else {},
    "apply_transformer_t_model": lambda n, cls, c: (lambda a: t_model(a.model, a.r_pu, a.x_pu, a.g_pu, a.b_pu))(Row(n.old[cls], c)) if cls == "Transformer" else {},
    "calculate_dependent_values": dependent_spec,
}
RAISES = {"apply_line_types": ("Line",), "apply_transformer_types": ("Transformer",), "apply_transformer_t_model": (),
          "calculate_dependent_values": ("Line", "Transformer")}


def bad_type(n, cls):
    """some asset names a type that does not exist"""
    t, ty = n.old[cls], n.old[cls + "Type"]

    def g(c):
        k = Row(t, c).type
        return And(t.ix.mem(c), k != "", Not(ty.ix.mem(k.label)))
    return g


def preconditions(x, n):
    def u(c):
        out = []
        for cls, t in n.old.items():
            for b in ("bus", "bus0", "bus1"):
                if b in t.cols:
                    out.append(z3.Implies(t.ix.mem(c), n.old["Bus"].ix.mem(Row(t, c).__getattr__(b).label)))
        for cls, a in (("Bus", "v_nom"), ("Line", "num_parallel"), ("Transformer", "num_parallel"), ("Transformer", "s_nom"), ("TransformerType", "s_nom")):
            out.append(n.old[cls].cols[a](c).pieces[0][1].z3() > 0)
        return And(*out)
    x.forall(u)


ASSUMES = ["C14: buses of lines, transformers and shunts exist; nominal voltages, rated powers and numbers of parallel units are positive; no other denominator vanishes",
           "update_linkports_component_attrs does not touch the tables under contract"]


class ColTask:
    weight = 3
    assumes = ASSUMES

    def __init__(s, mod, fn):
        s.mod, s.fn, s.cfg = mod, fn, {}
        s.name = f"{mod}.{fn}[all tables]"

    def execute(s, budget):
        t0 = time.time()
        core.STATS.update(solver_s=0.0, queries=0, sliced=0, paths=0)
        res = dict(function=s.name, obligations=[], undecided=None, paths=0, solver_s=0.0, queries=0, sliced=0)
        try:
            m = Loader().load(s.mod)
            f = getattr(m, s.fn)
            stack = [[]]
            while stack:
                x = X.cur = X(stack.pop())
                res["paths"] += 1
                if res["paths"] > 200:
                    unsup("more than 200 paths")
                if time.time() - t0 > budget:
                    unsup("time budget")
                try:
                    s.path(x, f)
                except Abort:
                    pass
                stack += x.alts
                res["obligations"] += x.obl
            res["obligations"].append(("some path returns normally", "proved" if any("unchanged" in o[0] for o in res["obligations"]) else "unknown", ""))
        except Unsupported as e:
            tb = traceback.extract_tb(e.__traceback__)
            loc = [y for y in tb if world.REPO in y.filename]
            res["undecided"] = f"outside the verified subset: {e} " + (f"{os.path.relpath(loc[-1].filename, world.REPO)}:{loc[-1].lineno}" if loc else "")
            res["tb"] = traceback.format_exc()
        except Exception as e:  # engine limitation
            res["undecided"] = f"{type(e).__name__}: {e}"
            res["tb"] = traceback.format_exc()
        res.update(solver_s=core.STATS["solver_s"], queries=core.STATS["queries"], seconds=time.time() - t0)
        return res

    def path(s, x, f):
        n = Net()
        n.__dict__["replaced"] = set()
        preconditions(x, n)
        if s.fn == "calculate_dependent_values":
            g = f.__globals__ if not hasattr(f, "__wrapped__") else f.__wrapped__.__globals__
            for nm, fn in (("apply_line_types", callee_types(n, "Line")), ("apply_transformer_types", callee_types(n, "Transformer")),
                           ("apply_transformer_t_model", callee_t_model(n))):
                if callable(g.get(nm)):
                    g[nm] = fn
                    n.replaced.add(nm)
        try:
            f(n)
        except (ValueError, KeyError, IndexError) as e:
            loc = [y for y in traceback.extract_tb(e.__traceback__) if world.REPO in y.filename]
            where = f"{os.path.relpath(loc[-1].filename, world.REPO)}:{loc[-1].name}" if loc else ""
            if type(e) is ValueError and loc and RAISES[s.fn]:
                # some asset of an unknown type exists on this path
                gs = [bad_type(n, c) for c in RAISES[s.fn]]
                for g in gs:
                    x.forall(lambda c, g=g: z3.Not(g(c)))
                x.prove("ValueError only for an unknown type", F_)
            else:
                x.record(f"no {type(e).__name__} ({e}) at {where}", "refuted", "")
            return
        for c in RAISES[s.fn]:
            w = x.label("badtype")
            x.prove(f"ValueError whenever the type of a {c} is unknown", Not(bad_type(n, c)(w)))
        for cls, tab in n.tables.items():
            c = x.label(cls)
            old = n.old[cls]
            x.prove(f"{cls}: rows unchanged", tab.ix.mem(c) == old.ix.mem(c))
            x.facts.append(old.ix.mem(c))
            want = SPECS[s.fn](n, cls, c)
            for a, v in want.items():
                x.know(c)
                if a not in tab.cols:
                    x.record(f"{cls}.{a} is calculated", "refuted", "no such column")
                    continue
                x.prove_el(f"{cls}.{a} as specified", tab.cols[a](c), el(v))
            for a, fn in tab.cols.items():
                if a not in want:
                    if a not in old.cols:
                        continue
                    if fn is old.cols[a]:
                        continue
                    x.prove_el(f"{cls}.{a} unchanged", fn(c), old.cols[a](c))
            for a in old.cols:
                if a not in tab.cols:
                    x.record(f"{cls}.{a} is kept", "refuted", "column removed")
            x.facts.pop()
        x.record("all other columns unchanged", "proved", "not written")


P = "pypsa.pf"


def c14():
    return [ColTask(P, f) for f in SPECS]
