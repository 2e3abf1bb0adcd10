"""Symbolic values executed by the real halomod code: S (scalar), A (array), plus the numpy/scipy semantics."""

from __future__ import annotations

import ast
import builtins
import contextlib
import ctypes
import dis
import inspect
import numbers
import sys
import textwrap
import types
from fractions import Fraction as Fr

import numpy as np
import scipy.special as sp

from . import terms as tm
from .engine import DEFAX, ENGINE, Local, PathEnd, prove, prove_equal, simp_cond
from .terms import T, Unsupported

_cnt = [0]


def fresh_name(p="t"):
    _cnt[0] += 1
    return f"{p}!{_cnt[0]}"


def bvar():
    return tm.var(fresh_name("b"), "i", "0+")


def lt_ext(a, b):
    """a < b, where a bound on a largest (smallest) value is a bound on some or all values (numpy refuses an empty one)"""
    for x, y, mk in ((b, a, lambda v, w: tm.lt(w, v)), (a, b, lambda v, w: tm.lt(v, w))):
        if isinstance(x, T) and x.op == "red" and len(x.args) == 4 and x.args[0] in ("nl:max", "nl:min"):
            kind, bv, n, body = x.args
            nb = bvar()
            inst = mk(tm.subst(body, {bv: nb}), y)
            some = (kind == "nl:max") == (x is b)
            return tm.mk("exists", nb, n, inst) if some else tm.not_(tm.mk("exists", nb, n, tm.not_(inst)))
    return tm.lt(a, b)


# ------------------------------------------------------------------ selections by a condition, groups of rows
COMPACT = [False]
SELCNT = {}  # number of selected elements (canonical form) -> selection


class Sel:
    """The elements of 0..n-1 at which a condition holds, in ascending order.

    sel(j): the j-th of them (0 <= j < count); rank(i): how many lie before i.  Both are named after the canonical form
    of (condition, n), so that equal selections are the same functions.
    """

    def __init__(self, key, n, cond):
        self.n, self.cond = n, cond
        h = f"{hash(key) & 0xFFFFFFFFFFFF:x}"
        self.sel, self.rnk = "sel!" + h, "rnk!" + h
        b = bvar()
        self.count = tm.red("sum", b, n, tm.ite(cond(b), tm.ONE, tm.ZERO))
        SELCNT[tm.pkey(tm.canon(self.count))] = self

        def ev_sel(env, a):
            m = int(tm.evalf(n, env))
            hits = [i for i in range(m) if tm.evalf(cond(tm.num(i)), env)]
            j = int(a[0])
            if not 0 <= j < len(hits):
                raise tm.EvalError("selection")
            return tm.mp.mpf(hits[j])

        def ev_rnk(env, a):
            return tm.mp.mpf(sum(1 for i in range(int(a[0])) if tm.evalf(cond(tm.num(i)), env)))

        tm.DEFINED[self.sel], tm.DEFINED[self.rnk] = ev_sel, ev_rnk

        def ax_sel(t):
            j = t.args[2]
            return [tm.or_(tm.not_(tm.and_(tm.le(tm.ZERO, j), tm.lt(j, self.count))), tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n), cond(t), tm.eq(t, tm.fn("floor", t))))]

        def ax_rnk(t):
            i = t.args[2]
            return [tm.or_(tm.not_(tm.and_(tm.le(tm.ZERO, i), tm.lt(i, n), cond(i))), tm.lt(t, self.count))]

        DEFAX[self.sel], DEFAX[self.rnk] = ax_sel, ax_rnk

    def at(self, j):
        if j.op == "app" and j.args[0] == self.rnk:
            return j.args[2]
        return tm.app(self.sel, "0+", j)

    def rank(self, i):
        if i.op == "app" and i.args[0] == self.sel:
            return i.args[2]
        return tm.app(self.rnk, "0+", i)


SELS = {}


def selection(m):
    """selection of a 1-d boolean array"""
    snap, k, n = m.snapshot(), m.k, m.shape_t[0]
    cond = memo_at(lambda b: tobool(snap(b), k))
    probe = tm.var("%sel", "i", "0+")
    key = (tm.pkey(tm.canon(cond((probe,)))), tm.pkey(tm.canon(n)))
    if key not in SELS:
        SELS[key] = Sel(key, n, lambda i: cond((i,)))
    return SELS[key]


def compact(a, m):
    """a[m] for a 1-d condition over the first dimension"""
    if not same_dim(m.shape_t[0], a.shape_t[0]):
        raise ShapeMismatch("boolean index did not match indexed array")
    s, snap = selection(m), a.snapshot()
    return A((s.count,) + a.shape_t[1:], memo_at(lambda idx: snap((s.at(idx[0]),) + tuple(idx[1:]))), a.k)


def sum_over_selection(bv, n, body):
    """sum over the selected elements = sum over all of those for which the condition holds"""
    if not SELCNT or n.op != "red":
        return None
    s = SELCNT.get(tm.pkey(tm.canon(n)))
    if s is None:
        return None
    i = bvar()
    b = tm.subst(body, {tm.app(s.sel, "0+", bv): i})
    if bv in tm.subterms(b):
        return None
    c = s.cond(i)
    if c.op == "lt" and c.args[0] is tm.ZERO and c.args[1] is b and tm.pnonneg(tm.canon(b)):
        return tm.red("sum", i, s.n, b)  # elements that are not selected are zero
    return tm.red("sum", i, s.n, tm.ite(c, b, tm.ZERO))


tm.SUM_NORM.append(sum_over_selection)


class Group:
    """rows split among 0..n-1 by ascending offsets: group(r) is the one with off(g) <= r < off(g + 1)"""

    def __init__(self, n, off):
        self.n, self.off = n, off
        self.name = fresh_name("grp")

        def ev(env, a):
            m = int(tm.evalf(n, env))
            for g in range(m):
                if tm.evalf(off(tm.num(g)), env) <= a[0] < tm.evalf(off(tm.num(g + 1)), env):
                    return tm.mp.mpf(g)
            raise tm.EvalError("group")

        tm.DEFINED[self.name] = ev

        def ax(t):
            r = t.args[2]
            return [tm.or_(tm.not_(tm.and_(tm.le(tm.ZERO, r), tm.lt(r, off(n)))), tm.and_(tm.le(tm.ZERO, t), tm.lt(t, n), tm.le(off(t), r), tm.lt(r, off(tm.add(t, tm.ONE))), tm.eq(t, tm.fn("floor", t))))]

        DEFAX[self.name] = ax

    def at(self, r):
        return tm.app(self.name, "0+", r)


GROUPS = []


def group(n, off):
    """off: offsets with off(0) = 0, not descending (the caller shows that)"""
    g = tm.var("%grp", "i", "0+")
    for x in GROUPS:
        if tm.equal(x.n, n) and prove_equal([tm.le(g, n)], x.off(g), off(g)):
            return x
    x = Group(n, off)
    GROUPS.append(x)
    return x


# ------------------------------------------------------------------ conversions
def is_sym(x):
    return isinstance(x, (S, A))


def lift(x):
    """-> S or A"""
    if isinstance(x, (S, A)):
        return x
    if isinstance(x, T):
        return S(x)
    if isinstance(x, (bool, np.bool_)):
        return S(tm.TRUE if x else tm.FALSE, "b")
    if isinstance(x, (int, np.integer)):
        return S(tm.num(int(x)), "i")
    if isinstance(x, (float, np.floating)):
        return S(tm.num(float(x)), "r")
    if isinstance(x, np.ndarray):
        if x.ndim == 0:
            return lift(x[()])
        return from_concrete(x)
    if isinstance(x, (list, tuple)):
        if _has_sym(x):
            return stack_list(x)
        return lift(np.asarray(x))
    if hasattr(x, "unit") and hasattr(x, "value"):
        raise Unsupported("astropy quantity")
    raise Unsupported(f"lift {type(x).__name__}")


def from_concrete(x):
    if x.size > 64:
        raise Unsupported("large concrete array in symbolic expression")
    kind = {"b": "b", "i": "i", "u": "i", "f": "r"}.get(x.dtype.kind)
    if kind is None:
        raise Unsupported(f"dtype {x.dtype}")
    data = x.copy()

    def at(idx):
        def rec(sub, idx):
            if sub.ndim == 0:
                return lift(sub[()]).t
            i = idx[0]
            if tm.isnum(i):
                return rec(sub[int(i.args[0])], idx[1:])
            r = rec(sub[-1], idx[1:])
            for j in range(len(sub) - 2, -1, -1):
                r = tm.ite(tm.eq(i, tm.num(j)), rec(sub[j], idx[1:]), r)
            return r

        return rec(data, idx)

    return A(tuple(tm.num(n) for n in x.shape), at, kind)


def stack_list(x):
    els = [lift(y) for y in x]
    if all(isinstance(e, S) for e in els):
        kind = "r" if any(e.k == "r" for e in els) else ("i" if any(e.k == "i" for e in els) else "b")

        def at(idx):
            i = idx[0]
            if tm.isnum(i):
                return els[int(i.args[0])].t
            r = els[-1].t
            for j in range(len(els) - 2, -1, -1):
                r = tm.ite(tm.eq(i, tm.num(j)), els[j].t, r)
            return r

        return A((tm.num(len(els)),), at, kind)
    n = max(e.ndim for e in els)
    if any(e.ndim != n for e in els):
        raise Unsupported("ragged list")

    def at2(idx):
        i = idx[0]
        if tm.isnum(i):
            return els[int(i.args[0])].at(idx[1:])
        r = els[-1].at(idx[1:])
        for j in range(len(els) - 2, -1, -1):
            r = tm.ite(tm.eq(i, tm.num(j)), els[j].at(idx[1:]), r)
        return r

    return A((tm.num(len(els)),) + els[0].shape_t, at2, "r")


def as_index(n):
    """shape entry (T) from int or S"""
    if isinstance(n, T):
        return n
    if isinstance(n, S):
        return n.t
    if isinstance(n, (int, np.integer)):
        return tm.num(int(n))
    raise Unsupported(f"index {type(n)}")


def shape_out(t):
    """user-visible shape entry"""
    if tm.isnum(t):
        return int(t.args[0])
    return S(t, "i")


def same_dim(a, b):
    if a is b or tm.equal(a, b):
        return True
    if ENGINE.cur is not None and prove(ENGINE.cur.pc, tm.eq(a, b)):
        return True
    return False


def toreal(t, k):
    return tm.ite(t, tm.ONE, tm.ZERO) if k == "b" else t


def tobool(t, k):
    return t if k == "b" else tm.not_(tm.eq(t, tm.ZERO))


# ------------------------------------------------------------------ scalar functions on terms
def t_log(x):
    return tm.fn("log", x)


LN10 = tm.fn("log", tm.num(10))
LN2 = tm.fn("log", tm.num(2))


def t_fn(n):
    return lambda x: tm.fn(n, x)


def t_min(a, b):
    return tm.ite(tm.lt(b, a), b, a)


def t_max(a, b):
    return tm.ite(tm.lt(a, b), b, a)


def t_hyp2f1(a, b, c, z):
    return tm.fn("hyp2f1", a, b, c, z)


UF = {
    "add": (lambda a, b: tm.add(a, b), "n"),
    "subtract": (tm.sub, "n"),
    "multiply": (lambda a, b: tm.mul(a, b), "n"),
    "divide": (tm.div, "r"),
    "true_divide": (tm.div, "r"),
    "floor_divide": (lambda a, b: tm.fn("floor", tm.div(a, b)), "n"),
    "remainder": (lambda a, b: tm.sub(a, tm.mul(b, tm.fn("floor", tm.div(a, b)))), "n"),
    "power": (tm.pow_, "n"),
    "float_power": (tm.pow_, "r"),
    "negative": (tm.neg, "n"),
    "positive": (lambda a: a, "n"),
    "square": (lambda a: tm.mul(a, a), "n"),
    "reciprocal": (lambda a: tm.div(tm.ONE, a), "n"),
    "sqrt": (lambda a: tm.pow_(a, tm.num(Fr(1, 2))), "r"),
    "cbrt": (lambda a: tm.pow_(a, tm.num(Fr(1, 3))), "r"),
    "exp": (t_fn("exp"), "r"),
    "expm1": (lambda a: tm.sub(tm.fn("exp", a), tm.ONE), "r"),
    "log": (t_log, "r"),
    "log1p": (lambda a: t_log(tm.add(tm.ONE, a)), "r"),
    "log10": (lambda a: tm.div(t_log(a), LN10), "r"),
    "log2": (lambda a: tm.div(t_log(a), LN2), "r"),
    "exp2": (lambda a: tm.pow_(tm.num(2), a), "r"),
    "absolute": (t_fn("abs"), "n"),
    "fabs": (t_fn("abs"), "n"),
    "minimum": (t_min, "n"),
    "maximum": (t_max, "n"),
    "fmin": (t_min, "n"),
    "fmax": (t_max, "n"),
    "floor": (t_fn("floor"), "n"),
    "ceil": (t_fn("ceil"), "n"),
    "trunc": (t_fn("trunc"), "n"),
    "rint": (t_fn("rint"), "n"),
    "erf": (t_fn("erf"), "r"),
    "erfc": (lambda a: tm.sub(tm.ONE, tm.fn("erf", a)), "r"),
    "gamma": (t_fn("gamma"), "r"),
    "gammaln": (t_fn("gammaln"), "r"),
    "gammainc": (lambda a, b: tm.fn("gammainc", a, b), "r"),
    "gammaincc": (lambda a, b: tm.sub(tm.ONE, tm.fn("gammainc", a, b)), "r"),
    "hyp2f1": (t_hyp2f1, "r"),
    "arctan2": (lambda a, b: tm.fn("arctan2", a, b), "r"),
    "sign": (lambda a: tm.ite(tm.lt(tm.ZERO, a), tm.ONE, tm.ite(tm.lt(a, tm.ZERO), tm.num(-1), tm.ZERO)), "n"),
    "heaviside": (lambda a, b: tm.ite(tm.lt(tm.ZERO, a), tm.ONE, tm.ite(tm.lt(a, tm.ZERO), tm.ZERO, b)), "r"),
    "hypot": (lambda a, b: tm.pow_(tm.add(tm.mul(a, a), tm.mul(b, b)), tm.num(Fr(1, 2))), "r"),
    "conjugate": (lambda a: a, "n"),
    "less": (lambda a, b: lt_ext(a, b), "b"),
    "less_equal": (lambda a, b: tm.not_(lt_ext(b, a)), "b"),
    "greater": (lambda a, b: lt_ext(b, a), "b"),
    "greater_equal": (lambda a, b: tm.not_(lt_ext(a, b)), "b"),
    "equal": (tm.eq, "b"),
    "not_equal": (lambda a, b: tm.not_(tm.eq(a, b)), "b"),
    "isnan": (lambda a: tm.FALSE if a.op != "nan" else tm.TRUE, "b"),
    "isinf": (lambda a: tm.FALSE if a.op != "inf" else tm.TRUE, "b"),
    "isfinite": (lambda a: tm.TRUE if a.op not in ("inf", "nan") else tm.FALSE, "b"),
}
OPAQUE = {}  # function -> sign: read as an uninterpreted function (of that sign) for the time of a proof


def _t_fn_opaque(n):
    f = t_fn(n)
    return lambda a: tm.app("~" + n, OPAQUE[n], a) if n in OPAQUE else f(a)


for _n in ("sin", "cos", "tan", "arctan", "arcsin", "arccos", "sinh", "cosh", "tanh"):
    UF[_n] = (_t_fn_opaque(_n), "r")
LOGIC = {
    "logical_and": lambda a, b: tm.and_(a, b),
    "logical_or": lambda a, b: tm.or_(a, b),
    "logical_not": tm.not_,
    "logical_xor": lambda a, b: tm.or_(tm.and_(a, tm.not_(b)), tm.and_(b, tm.not_(a))),
}
BITW = {"bitwise_and": "logical_and", "bitwise_or": "logical_or", "invert": "logical_not", "bitwise_xor": "logical_xor"}


def elementwise(name, args):
    args = [lift(a) for a in args]
    if name in BITW:
        if all(a.k == "b" for a in args):
            name = BITW[name]
        else:
            raise Unsupported("bitwise on non-bool")
    if name in LOGIC:
        f = LOGIC[name]
        return broadcast(lambda ts: f(*[tobool(t, a.k) for t, a in zip(ts, args)]), args, "b")
    if name == "sici":
        return (
            broadcast(lambda ts: tm.fn("Si", toreal(ts[0], args[0].k)), args, "r"),
            broadcast(lambda ts: tm.fn("Ci", toreal(ts[0], args[0].k)), args, "r"),
        )
    if name not in UF:
        raise Unsupported(f"ufunc {name}")
    f, kind = UF[name]
    if kind == "n":
        ks = {a.k for a in args}
        k = "r" if "r" in ks else "i"
        if name in ("add", "multiply", "maximum", "minimum") and ks == {"b"}:
            lf = {"add": "logical_or", "multiply": "logical_and", "maximum": "logical_or", "minimum": "logical_and"}[name]
            return elementwise(lf, args)
        if name in ("floor", "ceil"):
            k = "r"
        if name == "power" and k == "i" and not (tm.isnum(args[1].t if isinstance(args[1], S) else tm.ONE)):
            k = "i"
    else:
        k = kind
    return broadcast(lambda ts: f(*[toreal(t, a.k) for t, a in zip(ts, args)]), args, k)


def broadcast_shape(args):
    nd = max(a.ndim for a in args)
    shape = []
    for d in range(nd):
        cur = tm.ONE
        for a in args:
            j = d - (nd - a.ndim)
            if j < 0:
                continue
            n = a.shape_t[j]
            if n is tm.ONE:
                continue
            if cur is tm.ONE:
                cur = n
            elif not same_dim(cur, n):
                if tm.isnum(cur) and tm.isnum(n):
                    raise ValueError("operands could not be broadcast together")
                raise ShapeMismatch(f"broadcast {tm.show(cur)} vs {tm.show(n)}")
        shape.append(cur)
    return tuple(shape)


class ShapeMismatch(ValueError):
    """real numpy would raise for generic lengths"""


def bidx(a, idx):
    """index tuple of argument a for broadcast index idx"""
    nd = len(idx)
    sub = idx[nd - a.ndim :]
    return tuple(tm.ZERO if n is tm.ONE else i for i, n in zip(sub, a.shape_t))


def broadcast(f, args, k):
    if all(isinstance(a, S) for a in args):
        return S(f([a.t for a in args]), k)
    guards = [a.guard for a in args if isinstance(a, A) and a.guard is not None]
    shape = broadcast_shape(args)
    guard = None
    if guards:
        guard = guards[0]
        for a in args:
            if isinstance(a, A) and a.guard is None and any(n is not tm.ONE for n in a.shape_t):
                raise Unsupported("mixing masked selection with full array")
        for g in guards[1:]:
            if not same_guard(guard, g):
                raise ShapeMismatch("different masks")
    snaps = [a.snapshot() for a in args]

    def at(idx):
        return f([s(bidx(a, idx)) for s, a in zip(snaps, args)])

    return A(shape, at, k, guard=guard)


def same_guard(g, h):
    if g is h:
        return True
    if g.ndim != h.ndim:
        return False
    iv = tuple(tm.var(f"%g{j}", "i", "0+") for j in range(g.ndim))
    x, y = g.at(iv), h.at(iv)
    if x is y:
        return True
    try:
        return tm.equal(tm.ite(x, tm.ONE, tm.ZERO), tm.ite(y, tm.ONE, tm.ZERO))
    except Unsupported:
        return False


# ------------------------------------------------------------------ values
class _Ops:
    __array_priority__ = 10000
    __slots__ = ()

    def __array_ufunc__(self, uf, method, *inputs, **kw):
        if method == "__call__":
            kw.pop("where", None) if kw.get("where", True) is True else None
            out = kw.pop("out", None)
            kw.pop("casting", None)
            kw.pop("dtype", None)
            if kw:
                raise Unsupported(f"ufunc kwargs {list(kw)}")
            r = AF["matmul"](*inputs) if uf.__name__ == "matmul" else elementwise(uf.__name__, inputs)
            if out is not None:
                (o,) = out
                o[...] = r
                return o
            return r
        if method == "reduce":
            nm = {"add": "sum", "maximum": "max", "minimum": "min", "multiply": "prod", "logical_and": "all", "logical_or": "any"}.get(uf.__name__)
            if nm:
                kw.pop("dtype", None)
                kw.pop("out", None)
                return reduce_(nm, inputs[0], **{k: v for k, v in kw.items() if k in ("axis", "keepdims")})
        if method == "outer":
            a, b = lift(inputs[0]), lift(inputs[1])
            return elementwise(uf.__name__, [reshape_outer(a, b), b])
        raise Unsupported(f"ufunc method {uf.__name__}.{method}")

    def __array_function__(self, func, types_, args, kwargs):
        impl = AF.get(func.__name__)
        if impl is None:
            raise Unsupported(f"numpy function {func.__name__}")
        return impl(*args, **kwargs)

    def __array__(self, *a, **k):
        raise Unsupported("conversion of symbolic value to concrete array")

    def __add__(self, o):
        return elementwise("add", (self, o))

    def __radd__(self, o):
        return elementwise("add", (o, self))

    def __matmul__(self, o):
        return AF["matmul"](self, o)

    def __rmatmul__(self, o):
        return AF["matmul"](o, self)

    def __sub__(self, o):
        return elementwise("subtract", (self, o))

    def __rsub__(self, o):
        return elementwise("subtract", (o, self))

    def __mul__(self, o):
        if isinstance(o, (list, tuple)):
            raise Unsupported("list*sym")
        return elementwise("multiply", (self, o))

    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1 and isinstance(self, S):
            return RepList(o[0], self)
        return elementwise("multiply", (o, self))

    def __truediv__(self, o):
        return elementwise("divide", (self, o))

    def __rtruediv__(self, o):
        return elementwise("divide", (o, self))

    def __floordiv__(self, o):
        return elementwise("floor_divide", (self, o))

    def __rfloordiv__(self, o):
        return elementwise("floor_divide", (o, self))

    def __mod__(self, o):
        return elementwise("remainder", (self, o))

    def __rmod__(self, o):
        return elementwise("remainder", (o, self))

    def __pow__(self, o):
        return elementwise("power", (self, o))

    def __rpow__(self, o):
        return elementwise("power", (o, self))

    def __neg__(self):
        return elementwise("negative", (self,))

    def __pos__(self):
        return self

    def __abs__(self):
        return elementwise("absolute", (self,))

    def __lt__(self, o):
        return elementwise("less", (self, o))

    def __le__(self, o):
        return elementwise("less_equal", (self, o))

    def __gt__(self, o):
        return elementwise("greater", (self, o))

    def __ge__(self, o):
        return elementwise("greater_equal", (self, o))

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return elementwise("equal", (self, o))

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return elementwise("not_equal", (self, o))

    def __and__(self, o):
        return elementwise("bitwise_and", (self, o))

    def __rand__(self, o):
        return elementwise("bitwise_and", (o, self))

    def __or__(self, o):
        return elementwise("bitwise_or", (self, o))

    def __ror__(self, o):
        return elementwise("bitwise_or", (o, self))

    def __xor__(self, o):
        return elementwise("bitwise_xor", (self, o))

    def __invert__(self):
        return elementwise("invert", (self,))

    def __round__(self, n=0):
        return elementwise("rint", (self,))


class SymDT:
    """dtype of a symbolic value: numpy accepts it wherever a dtype is accepted"""

    def __init__(self, k):
        self.k = k
        self.dtype = np.dtype({"r": float, "i": int, "b": bool}[k])
        self.kind, self.name, self.itemsize, self.char = self.dtype.kind, self.dtype.name, self.dtype.itemsize, self.dtype.char

    def type(self, x):
        return cast(x, self.dtype) if is_sym(x) else self.dtype.type(x)

    def __eq__(self, o):
        return self.dtype == (o.dtype if isinstance(o, SymDT) else o)

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash(self.dtype)

    def __repr__(self):
        return repr(self.dtype)


class RepList:
    def __init__(self, v, n):
        self.v, self.n = v, n


class S(_Ops):
    """Symbolic scalar (also stands for numpy 0-d scalars)."""

    __slots__ = ("t", "k")
    ndim = 0
    shape = ()
    shape_t = ()
    guard = None

    def __init__(self, t, k="r"):
        if not isinstance(t, T):
            t = tm.num(t)
        self.t = t
        self.k = k

    def __repr__(self):
        return f"S({tm.show(self.t)})"

    def __hash__(self):
        return id(self.t)

    def at(self, idx):
        return self.t

    def snapshot(self):
        t = self.t
        return lambda idx: t

    @property
    def dtype(self):
        return SymDT(self.k)

    @property
    def size(self):
        return 1

    @property
    def T(self):
        return self

    @property
    def real(self):
        return self

    def __bool__(self):
        return ENGINE.decide(tobool(self.t, self.k))

    def __float__(self):
        if tm.isnum(self.t):
            return float(self.t.args[0])
        raise _unsup("float() of symbolic value")

    def __int__(self):
        if tm.isnum(self.t) and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        raise _unsup("int() of symbolic value")

    def __index__(self):
        return self.__int__()

    def __iter__(self):
        raise TypeError("'float' object is not iterable")

    def __getitem__(self, key):
        return lift0(self)[key]

    def __format__(self, spec):
        return repr(self)

    def __complex__(self):
        raise _unsup("complex()")

    def item(self):
        return self

    def astype(self, dt, copy=True):
        return cast(self, dt)

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    def reshape(self, *s):
        return lift0(self).reshape(*s)

    def flatten(self):
        return lift0(self)[None]

    def sum(self, *a, **k):
        return self

    def max(self, *a, **k):
        return self

    def min(self, *a, **k):
        return self

    def all(self, *a):
        return S(tobool(self.t, self.k), "b")

    any = all

    def is_integer(self):
        return S(tm.eq(self.t, tm.fn("floor", self.t)), "b")


numbers.Number.register(S)


class _UnsupType(Unsupported, TypeError):
    pyvc_unsupported = True


def _unsup(msg):
    return _UnsupType(msg)


def lift0(s):
    """0-d array from scalar"""
    t = s.t
    return A((), lambda idx: t, s.k)


class Store:
    __slots__ = ("at", "uid", "nd", "frame")
    _n = 0

    def __init__(self, at, nd):
        self.at = at
        self.nd = nd
        self.frame = None  # (name, shape) of an input that the code under contract may read but not modify
        Store._n += 1
        self.uid = Store._n


class A(_Ops):
    """Symbolic array: shape of terms, element function, mutable storage with views."""

    __slots__ = ("shape_t", "store", "k", "guard", "tob", "inview", "real_shape", "memo", "memo_store", "outer_of")
    __hash__ = object.__hash__

    def __init__(self, shape, at, k="r", guard=None, store=None, tob=None, inview=None):
        self.shape_t = tuple(as_index(n) for n in shape)
        self.k = k
        self.guard = guard
        self.store = store or Store(at, len(self.shape_t))
        self.tob = tob  # idx -> base idx
        self.inview = inview  # base idx -> (cond, idx)

    def __repr__(self):
        return f"A{tuple(tm.show(n) for n in self.shape_t)}"

    @property
    def ndim(self):
        return len(self.shape_t)

    @property
    def shape(self):
        return tuple(shape_out(n) for n in self.shape_t)

    @property
    def size(self):
        return shape_out(tm.mul(*self.shape_t)) if self.shape_t else 1

    @property
    def dtype(self):
        return SymDT(self.k)

    @property
    def T(self):
        return self.transpose()

    @property
    def real(self):
        return self

    @property
    def t(self):
        if self.ndim == 0:
            return self.at(())
        raise Unsupported("array used as scalar")

    def at(self, idx):
        b = self.tob(idx) if self.tob else tuple(idx)
        return tm_read(self.store, b)

    def snapshot(self):
        st, tob = self.store, self.tob
        f = st.at

        def g(idx):
            b = tob(idx) if tob else tuple(idx)
            note_read(st, b)
            return f(b)

        return g

    def __len__(self):
        if self.ndim == 0:
            raise TypeError("len() of unsized object")
        if self.guard is not None:
            raise _unsup("len of masked selection")
        n = self.shape_t[0]
        if tm.isnum(n):
            return int(n.args[0])
        raise _unsup("len() of symbolic array (builtin)")

    def __bool__(self):
        if self.ndim == 0:
            return ENGINE.decide(tobool(self.t, self.k))
        if all(n is tm.ONE for n in self.shape_t):
            return ENGINE.decide(tobool(self.at((tm.ZERO,) * self.ndim), self.k))
        raise ValueError("truth value of an array is ambiguous")

    def __iter__(self):
        if self.ndim == 0:
            raise TypeError("iteration over a 0-d array")
        n = self.shape_t[0]
        if tm.isnum(n):
            return iter([self[i] for i in range(int(n.args[0]))])
        return (self[i] for i in sym_range(S(n, "i"), _depth=2))

    def __float__(self):
        if self.ndim == 0:
            return float(S(self.t, self.k))
        raise TypeError("only size-1 arrays can be converted")

    def __contains__(self, x):
        return bool(reduce_("any", self == x))

    # ---- views / indexing
    def _view(self, shape, to_self, in_self):
        tob, inv, st = self.tob, self.inview, self.store
        ntob = (lambda idx: tob(to_self(idx))) if tob else to_self
        if inv:

            def ninv(b):
                c, i = inv(b)
                c2, i2 = in_self(i)
                return tm.and_(c, c2), i2

        else:
            ninv = in_self
        return A(shape, None, self.k, guard=None, store=st, tob=ntob, inview=ninv)

    def __getitem__(self, key):
        if self.guard is not None:
            if key is Ellipsis or key == slice(None):
                return self
            raise Unsupported("indexing a masked selection")
        sub = mask_and_ints(key)
        if sub:
            return self[sub[0]][sub[1]]
        key = norm_key(key, self.ndim)
        if isinstance(key, Mask):
            m = key.m
            if COMPACT[0] and isinstance(m, A) and m.ndim == 1 and key.pos == 0 and m.guard is None and self.ndim:
                return compact(self, m)
            if m.ndim != self.ndim:
                if m.ndim < self.ndim:
                    raise Unsupported("partial mask")
                raise IndexError("boolean index did not match")
            for x, y in zip(m.shape_t, self.shape_t):
                if not same_dim(x, y):
                    raise ShapeMismatch("boolean index did not match indexed array")
            snap = self.snapshot()
            msnap = m.snapshot()
            g = A(m.shape_t, lambda idx: tobool(msnap(idx), m.k), "b")
            if self.ndim == 0:
                return A((), snap, self.k, guard=g)
            return A(self.shape_t, snap, self.k, guard=g)
        if any(isinstance(k, A) and k.ndim > 0 for k in key):
            return fancy_get(self, key)
        shape, to_self, in_self = view_maps(self, key)
        v = self._view(shape, to_self, in_self)
        if not shape and not any(k is None for k in key):
            return S(v.at(()), self.k)
        return v

    def __setitem__(self, key, val):
        if self.guard is not None:
            raise Unsupported("store into masked selection")
        sub = mask_and_ints(key)
        if sub:
            self[sub[0]][sub[1]] = val
            return
        key = norm_key(key, self.ndim)
        val = lift(val)
        if isinstance(key, Mask):
            m = key.m
            if m.ndim != self.ndim:
                if isinstance(m, S) or m.ndim == 0:
                    m = broadcast(lambda ts: ts[0], [m, full(self.shape_t, tm.ZERO, "r")], "b") if False else bcast_to(m, self.shape_t)
                else:
                    if not (isinstance(val, S) or val.ndim == 0):
                        raise Unsupported("partial mask store")
                    ps, m0 = key.pos, m
                    for x, y in zip(m.shape_t, self.shape_t[ps:]):
                        if not same_dim(x, y):
                            raise ShapeMismatch("boolean index did not match indexed array")
                    m0s = m0.snapshot()
                    m = A(self.shape_t, lambda idx: m0s(tuple(idx[ps : ps + m0.ndim])), "b")
            for x, y in zip(m.shape_t, self.shape_t):
                if not same_dim(x, y):
                    raise ShapeMismatch("boolean index did not match indexed array")
            if COMPACT[0] and isinstance(val, A) and val.guard is None and val.ndim == 1 and m.ndim == 1 and self.ndim == 1 and val.shape_t[0] is not tm.ONE:
                sl = selection(m)
                if not same_dim(val.shape_t[0], sl.count):
                    raise ShapeMismatch("boolean store of another number of elements")
                vsn, vk0 = val.snapshot(), val.k
                self._write(lambda idx: (sl.cond(idx[0]), conv(vsn((sl.rank(idx[0]),)), vk0, self.k)))
                return
            if isinstance(val, A) and val.guard is not None:
                mb = A(m.shape_t, m.snapshot(), "b")
                if not same_guard(val.guard, mb):
                    raise ShapeMismatch("masked store of different selection")
            elif isinstance(val, A) and val.ndim > 0 and any(n is not tm.ONE for n in val.shape_t):
                raise Unsupported("masked store of unselected array")
            ms, vs = m.snapshot(), val.snapshot()
            vk = val.k
            vv = val
            self._write(lambda idx: (tobool(ms(idx), m.k), conv(vs(bidx(vv, idx) if vv.ndim else ()), vk, self.k)))
            return
        if any(isinstance(k, A) and k.ndim > 0 for k in key):
            raise Unsupported("fancy store")
        shape, to_self, in_self = view_maps(self, key)
        if isinstance(val, A) and val.guard is not None:
            raise Unsupported("store of masked selection")
        if val.ndim > len(shape):
            vsh = val.shape_t
            while len(vsh) > len(shape) and vsh[0] is tm.ONE:
                val = val[0]
                vsh = val.shape_t
            if val.ndim > len(shape):
                raise ShapeMismatch("could not broadcast input array")
        for x, y in zip(val.shape_t[::-1], shape[::-1]):
            if x is not tm.ONE and not same_dim(x, y):
                raise ShapeMismatch(f"could not broadcast input array {tm.show(x)} into {tm.show(y)}")
        vs, vk = val.snapshot(), val.k

        def w(idx):
            c, i = in_self(idx)
            return c, conv(vs(bidx(val, i) if val.ndim else ()), vk, self.k)

        self._write(w)

    def _write(self, w):
        """w: own idx -> (cond, value)"""
        store_write(self.store, w, self.inview)

    # in-place operators
    def _iop(self, name, o):
        r = elementwise(name, (self, o))
        if isinstance(r, A) and len(r.shape_t) != len(self.shape_t):
            raise ValueError("non-broadcastable output operand")
        if self.k == "i" and r.k == "r":
            raise TypeError("Cannot cast ufunc output from float64 to int64")
        if self.guard is not None:
            return r
        self[...] = r
        return self

    def __iadd__(self, o):
        return self._iop("add", o)

    def __isub__(self, o):
        return self._iop("subtract", o)

    def __imul__(self, o):
        return self._iop("multiply", o)

    def __itruediv__(self, o):
        return self._iop("divide", o)

    def __ipow__(self, o):
        return self._iop("power", o)

    # ---- methods
    def copy(self, *a):
        return A(self.shape_t, self.snapshot(), self.k, guard=self.guard)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def transpose(self, *axes):
        n = self.ndim
        if axes and isinstance(axes[0], (tuple, list)):
            axes = tuple(axes[0])
        perm = tuple(axes) if axes else tuple(range(n))[::-1]
        if self.guard is not None:
            raise Unsupported("transpose masked")
        inv = [0] * n
        for d, p in enumerate(perm):
            inv[p] = d
        return self._view(
            tuple(self.shape_t[p] for p in perm),
            lambda idx: tuple(idx[inv[d]] for d in range(n)),
            lambda b: (tm.TRUE, tuple(b[p] for p in perm)),
        )

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        of = getattr(self, "outer_of", None)
        if of is not None:
            want = of[0].shape_t + of[1].shape_t
            if len(want) == len(shape) and all(not (isinstance(x, int) and x == -1) and same_dim(as_index(x), y) for x, y in zip(shape, want)):
                return of[0][(Ellipsis,) + (None,) * of[1].ndim] * of[1]
        return reshape(self, shape)

    def flatten(self):
        return reshape(self, (-1,)).copy()

    def ravel(self):
        return reshape(self, (-1,))

    def squeeze(self, axis=None):
        key = tuple(0 if n is tm.ONE else slice(None) for n in self.shape_t)
        return self[key]

    def astype(self, dt, copy=True):
        return cast(self, dt)

    def sum(self, axis=None, **k):
        return reduce_("sum", self, axis=axis)

    def mean(self, axis=None):
        return AF["mean"](self, axis=axis)

    def prod(self, axis=None):
        return reduce_("prod", self, axis=axis)

    def max(self, axis=None):
        return reduce_("max", self, axis=axis)

    def min(self, axis=None):
        return reduce_("min", self, axis=axis)

    def all(self, axis=None):
        return reduce_("all", self, axis=axis)

    def any(self, axis=None):
        return reduce_("any", self, axis=axis)

    def item(self, *a):
        if self.ndim == 0:
            return S(self.t, self.k)
        raise Unsupported("item")

    def fill(self, v):
        self[...] = v

    def tolist(self):
        return SymList([self])

    def dot(self, o):
        return AF["dot"](self, o)


def wite(c, v, old, b):
    if c is tm.TRUE:
        return v
    if c is tm.FALSE:
        return old(b)
    o = old(b)
    if isinstance(o, T) and o.op in ("true", "false", "lt", "eq", "not", "and", "bapp", "exists"):
        return tm.or_(tm.and_(c, v), tm.and_(tm.not_(c), o))
    return tm.ite(c, v, o)


def memo_at(f):
    memo = {}

    def g(b):
        b = tuple(b)
        r = memo.get(b)
        if r is None:
            r = memo[b] = f(b)
        return r

    return g


def tm_read(store, b):
    note_read(store, b)
    return store.at(b)


# generic-iteration logging
ITER = []


def note_read(store, b):
    for it in ITER:
        it.reads.setdefault(store.uid, []).append(tuple(b))


DIRTY = {}  # inputs written to on the current path: uid -> (store, element function before the first write)


def touch(st):
    for w in getattr(ENGINE.cur, "whiles", {}).values():
        if st.uid <= w.start and id(st) not in w.ok:
            raise Unsupported("while loop stores outside its contract's frame")
    if st.frame is not None and st.uid not in DIRTY:
        DIRTY[st.uid] = (st, st.at)


def frame_close():
    """End of a path: the frame obligations of the inputs written to; their contents are put back."""
    out = []
    for st, old in DIRTY.values():
        name, shape = st.frame
        idx = tuple(tm.var(f"%f{j}", "i", "0+") for j in range(len(shape)))
        out.append((f"input {name} is left unmodified", [tm.lt(i, n) for i, n in zip(idx, shape)], st.at, old, idx))
        st.at = old
    DIRTY.clear()
    return [(n, h, new(idx), old(idx)) for n, h, new, old, idx in out]


def store_write(st, w, inv):
    """Record w (own idx -> (cond, value), or a base-index write when inv is None) on the store."""
    touch(st)
    old = note_write(st, w, inv)

    def new(b):
        if inv:
            c, i = inv(b)
            if c is tm.FALSE:
                return old(b)
            c2, v = w(i)
            return wite(tm.and_(c, c2), v, old, b)
        c, v = w(b)
        return wite(c, v, old, b)

    st.at = memo_at(new)


def _write_dim(st, w, inv, i):
    """Dimension of the base index that this write binds to i, or None."""
    b = tuple(tm.var(f"%w{j}", "i", "0+") for j in range(st.nd))
    c, _ = _wc(w, inv, b)
    d = _dim_of(c, b, i)
    if d is None and i in tm.subterms(c) and _rows_of(c, b, i):
        return "rows"
    return d


def note_write(st, w, inv):
    """Log a store in the innermost generic iteration; returns the element function the write is laid over."""
    if not ITER or st.uid > ITER[-1].start:
        return st.at
    it = ITER[-1]
    if it.chain is st:
        it.writes.append((st, w, inv, st.at, None, st.nd))
        return st.at
    mark = len(it.reads.get(st.uid, ()))
    nd, d = st.nd, _write_dim(st, w, inv, it.i)
    del it.reads.setdefault(st.uid, [])[mark:]
    kind = it.kinds.get(st.uid)
    if d is None:
        if kind == "indexed":
            raise Unsupported("loop store not indexed by the loop variable")
        if kind is None:
            if it.reads.get(st.uid):
                raise Unsupported("loop reads scratch storage of the previous iteration")
            it.kinds[st.uid] = "scratch"
            it.scratch.append(st)
            i, name = it.i, fresh_name("%carry")
            st.at = memo_at(lambda b: tm.app(name, "", i, *b))
        return st.at
    if kind == "scratch":
        return st.at
    it.kinds[st.uid] = "indexed"
    if d == "rows" and it.writes and any(x[0] is st for x in it.writes):
        raise Unsupported("several writes of rows")
    b = tuple(it.i if j == d else tm.var(f"%w{j}", "i", "0+") for j in range(nd))
    _wc(w, inv, b)  # log the reads this store makes
    it.writes.append((st, w, inv, st.at, d, nd))
    return st.at


def conv(t, kfrom, kto):
    if kto == kfrom:
        return t
    if kto == "r":
        return toreal(t, kfrom)
    if kto == "i":
        return toreal(t, kfrom) if kfrom == "b" else tm.fn("trunc", t)
    return tobool(t, kfrom)


def cast(x, dt):
    k = kind_of(dt)
    if isinstance(x, S):
        return S(conv(x.t, x.k, k), k)
    snap, k0 = x.snapshot(), x.k
    return A(x.shape_t, lambda idx: conv(snap(idx), k0, k), k, guard=x.guard)


class Mask:
    def __init__(self, m, pos=0):
        self.m, self.pos = m, pos


def alltrue(k):
    return isinstance(k, A) and k.k == "b" and k.ndim == 1 and k.guard is None and simp_cond(k.at((bvar(),))) is tm.TRUE


def mask_and_ints(key):
    """x[mask, i, ...] is x[:, i, ...][mask] -> (key, mask)"""
    if not (isinstance(key, tuple) and len(key) > 1 and isinstance(key[0], A) and key[0].k == "b" and key[0].ndim == 1):
        return None
    if not all(isinstance(k, (int, np.integer)) or (isinstance(k, S) and k.k == "i") or (isinstance(k, slice) and k == slice(None)) for k in key[1:]):
        return None
    if all(isinstance(k, slice) for k in key[1:]):
        return None
    return (slice(None),) + tuple(key[1:]), key[0]


def norm_key(key, nd):
    if isinstance(key, np.ndarray):
        key = lift(key)
    if isinstance(key, (bool, np.bool_)):
        key = lift(key)
    if nd >= 1 and alltrue(key):
        key = (key,)
    if isinstance(key, (S, A)) and key.k == "b":
        return Mask(key)
    if not isinstance(key, tuple):
        key = (key,)
    key = tuple(lift(k) if isinstance(k, (np.ndarray, list)) else k for k in key)
    if nd >= 1:  # selecting everything along a dimension (same length: an index of another length fails in numpy)
        key = tuple(slice(None) if alltrue(k) else k for k in key)
    if any(isinstance(k, (S, A)) and k.k == "b" for k in key):
        if len(key) == 1:
            return Mask(key[0])
        bs = [k for k in key if isinstance(k, (S, A)) and k.k == "b"]
        if len(bs) != 1 or not all(k is bs[0] or k is Ellipsis or (isinstance(k, slice) and k == slice(None)) for k in key):
            raise Unsupported("mixed boolean index")
        pos = 0
        for k in key:
            if k is bs[0]:
                break
            pos += 1 if k is not Ellipsis else nd - bs[0].ndim - (len(key) - 2)
        return Mask(bs[0], pos)
    n = sum(1 for k in key if k is not None and k is not Ellipsis)
    if any(k is Ellipsis for k in key):
        j = [i for i, k in enumerate(key) if k is Ellipsis][0]
        key = key[:j] + (slice(None),) * (nd - n) + key[j + 1 :]
    else:
        key = key + (slice(None),) * (nd - n)
    if sum(1 for k in key if k is not None) > nd:
        raise IndexError("too many indices for array")
    return key


def norm_int(i, n):
    """resolve python index (possibly negative) against length n"""
    t = as_index(i)
    if tm.isnum(t):
        if t.args[0] < 0:
            return tm.add(n, t)
        return t
    ctx = ENGINE.cur
    hy = ctx.pc if ctx else []
    if prove(hy, tm.le(tm.ZERO, t)):
        return t
    if prove(hy, tm.lt(t, tm.ZERO)):
        return tm.add(n, t)
    # sign not known: branch
    if ENGINE.decide(tm.le(tm.ZERO, t)):
        return t
    return tm.add(n, t)


def view_maps(a, key):
    shape = []
    spec = []  # per source dim: ('i', t) or ('s', out_dim, start, step)
    d = 0
    for k in key:
        if k is None:
            shape.append(tm.ONE)
            continue
        n = a.shape_t[d]
        if isinstance(k, slice):
            start, stop, step = k.start, k.stop, k.step
            st = 1 if step is None else step
            if isinstance(st, S):
                st = int(st)
            if st == 1:
                lo = tm.ZERO if start is None else norm_int(start, n)
                hi = n if stop is None else norm_int(stop, n)
                ln = tm.sub(hi, lo)
                try:
                    c = tm.canon(ln)
                    if len(c) == 0:
                        ln = tm.ZERO
                    elif len(c) == 1 and () in c:
                        ln = tm.num(c[()])
                    elif tm.equal(ln, n):
                        ln = n
                except Unsupported:
                    pass
                shape.append(ln)
                spec.append(("s", len(shape) - 1, lo, 1, ln))
            elif st == -1 and start is None and stop is None:
                shape.append(n)
                spec.append(("s", len(shape) - 1, tm.sub(n, tm.ONE), -1, n))
            elif st > 1:
                lo = tm.ZERO if start is None else norm_int(start, n)
                hi = n if stop is None else norm_int(stop, n)
                ln = tm.fn("ceil", tm.div(tm.sub(hi, lo), tm.num(st)))
                if tm.isnum(hi) and tm.isnum(lo):
                    ln = tm.num(max(0, -((-(hi.args[0] - lo.args[0])) // st)))
                shape.append(ln)
                spec.append(("s", len(shape) - 1, lo, st, ln))
            else:
                raise Unsupported("slice step")
        else:
            spec.append(("i", norm_int(k, n)))
        d += 1

    def to_self(idx):
        out = []
        for s in spec:
            if s[0] == "i":
                out.append(s[1])
            else:
                out.append(tm.add(s[2], tm.mul(tm.num(s[3]), idx[s[1]])))
        return tuple(out)

    def in_self(b):
        conds = []
        idx = [tm.ZERO] * len(shape)
        for s, x in zip(spec, b):
            if s[0] == "i":
                conds.append(tm.eq(x, s[1]))
            else:
                if s[3] == 1:
                    off = tm.sub(x, s[2])
                elif s[3] == -1:
                    off = tm.sub(s[2], x)
                else:
                    off = tm.div(tm.sub(x, s[2]), tm.num(s[3]))
                    conds.append(tm.eq(off, tm.fn("floor", off)))
                full_ = s[2] is tm.ZERO and s[3] in (1, -1)
                if not full_ and not (s[3] == -1):
                    conds.append(tm.le(tm.ZERO, off))
                    conds.append(tm.lt(off, s[4]))
                elif s[3] == 1:
                    conds.append(tm.lt(off, s[4]) if not _isfull(s[4], a, spec.index(s)) else tm.TRUE)
                idx[s[1]] = off
        return tm.and_(*conds), tuple(idx)

    return tuple(shape), to_self, in_self


def _isfull(ln, a, d):
    return ln is a.shape_t[d]


def fancy_get(a, key):
    arrs = [(d, k) for d, k in enumerate(key) if isinstance(k, A)]
    if any(k is None or (isinstance(k, slice) and k != slice(None)) for k in key):
        raise Unsupported("mixed fancy index")
    if len(arrs) != 1:
        raise Unsupported("multi fancy index")
    d0, ix = arrs[0]
    if any(not isinstance(k, (slice, A)) for k in key):
        raise Unsupported("mixed fancy index")
    snap, isnap = a.snapshot(), ix.snapshot()
    shape = a.shape_t[:d0] + ix.shape_t + a.shape_t[d0 + 1 :]
    n = ix.ndim

    def at(idx):
        j = isnap(idx[d0 : d0 + n])
        return snap(idx[:d0] + (j,) + idx[d0 + n :])

    return A(shape, at, a.k)


def _split2(j, dims):
    """row-major components of the linear index j over two dimensions"""
    got = RAVEL.get(j)
    if got is not None and len(got[1]) == 2 and all(same_dim(x, y) for x, y in zip(got[1], dims)):
        return got[0]
    q = tm.fn("floor", tm.div(j, dims[1]))
    return q, tm.sub(j, tm.mul(q, dims[1]))


def reshape(a, shape):
    shape = list(shape)
    if a.guard is not None:
        if shape == [-1] or tuple(shape) == (-1,):
            return a
        raise Unsupported("reshape masked")
    neg = [i for i, s in enumerate(shape) if isinstance(s, int) and s == -1]
    tot = tm.mul(*a.shape_t) if a.shape_t else tm.ONE
    if neg:
        rest = [as_index(s) for i, s in enumerate(shape) if i != neg[0]]
        q = tm.div(tot, tm.mul(*rest)) if rest else tot
        # exact
        for n in list(a.shape_t) + [tot]:
            if tm.equal(q, n):
                q = n
        c = tm.canon(q)
        if len(c) == 1 and () in c:
            q = tm.num(c[()])
        shape[neg[0]] = q
    sh = tuple(as_index(s) for s in shape)
    old = [n for n in a.shape_t if n is not tm.ONE]
    new = [n for n in sh if n is not tm.ONE]
    if len(old) == len(new) and all(same_dim(x, y) for x, y in zip(old, new)):
        osrc = [d for d, n in enumerate(a.shape_t) if n is not tm.ONE]
        nsrc = [d for d, n in enumerate(sh) if n is not tm.ONE]
        m = dict(zip(osrc, nsrc))

        def to_self(idx):
            return tuple(idx[m[d]] if d in m else tm.ZERO for d in range(a.ndim))

        inv_m = {v: k for k, v in m.items()}

        def in_self(b):
            return tm.TRUE, tuple(b[inv_m[d]] if d in inv_m else tm.ZERO for d in range(len(sh)))

        return a._view(sh, to_self, in_self)
    if len(old) <= 1 and len(new) == 2 or len(old) == 2 and len(new) == 1 or True:
        # row-major linear index
        if not tm.equal(tm.mul(*sh) if sh else tm.ONE, tot):
            raise ShapeMismatch("cannot reshape")
        if len(new) == 1 and len(old) == 2:
            # flatten 2d: idx -> (idx // n1, idx % n1)
            n1 = old[1]
            snap = a.snapshot()
            osrc = [d for d, n in enumerate(a.shape_t) if n is not tm.ONE]
            nd_ = [d for d, n in enumerate(sh) if n is not tm.ONE][0]

            def at(idx):
                q, r = _split2(idx[nd_], old)
                b = [tm.ZERO] * a.ndim
                b[osrc[0]], b[osrc[1]] = q, r
                return snap(tuple(b))

            return A(sh, at, a.k)
        if len(new) == 1 and len(old) > 2:
            # row-major flattening: only readable at an index that reshape (below) formed over the same dimensions
            snap = a.snapshot()
            osrc = [d for d, n in enumerate(a.shape_t) if n is not tm.ONE]
            nd_ = [d for d, n in enumerate(sh) if n is not tm.ONE][0]

            def at(idx):
                got = RAVEL.get(idx[nd_])
                if got is None or len(got[1]) != len(old) or not all(same_dim(x, y) for x, y in zip(got[1], old)):
                    raise Unsupported("flattened array of three or more dimensions read at a general index")
                b = [tm.ZERO] * a.ndim
                for d, j in zip(osrc, got[0]):
                    b[d] = j
                return snap(tuple(b))

            return A(sh, at, a.k)
        if len(old) == 1 and len(new) >= 2:
            snap = a.snapshot()
            od = [d for d, n in enumerate(a.shape_t) if n is not tm.ONE][0]
            nsrc = [d for d, n in enumerate(sh) if n is not tm.ONE]

            def at(idx):
                own = tuple(idx[d] for d in nsrc)
                lin = own[0]
                for j, n in zip(own[1:], new[1:]):
                    lin = tm.add(tm.mul(lin, n), j)
                RAVEL[lin] = (own, tuple(new))
                b = [tm.ZERO] * a.ndim
                b[od] = lin
                return snap(tuple(b))

            return A(sh, at, a.k)
    raise Unsupported("general reshape")


# linear index term -> (row-major components, dimensions); components are within their dimensions, so the split is unique
RAVEL = {}


def reshape_outer(a, b):
    return a[(Ellipsis,) + (None,) * b.ndim]


# ------------------------------------------------------------------ constructors
def norm_shape(s):
    if isinstance(s, (list, tuple)):
        return tuple(as_index(x) for x in s)
    return (as_index(s),)


def full(shape, t, k):
    return A(shape, lambda idx: t, k)


def kind_of(dt, default="r"):
    if dt is None:
        return default
    if dt is sym_float:
        return "r"
    if dt is sym_int:
        return "i"
    return {"f": "r", "i": "i", "u": "i", "b": "b"}[np.dtype(dt).kind]


def bcast_to(x, shape):
    x = lift(x)
    snap = x.snapshot()
    return A(shape, lambda idx: snap(bidx(x, idx) if x.ndim else ()), x.k)


def c_zeros(shape, dtype=None, **k):
    return full(norm_shape(shape), tm.FALSE if kind_of(dtype) == "b" else tm.ZERO, kind_of(dtype))


def c_ones(shape, dtype=None, **k):
    return full(norm_shape(shape), tm.TRUE if kind_of(dtype) == "b" else tm.ONE, kind_of(dtype))


def c_full(shape, v, dtype=None, **k):
    v = lift(v)
    return A(norm_shape(shape), lambda idx: v.t, kind_of(dtype, v.k))


def c_empty(shape, dtype=None, **k):
    nm = fresh_name("uninit")
    return A(norm_shape(shape), lambda idx: tm.app(nm, "", *idx), kind_of(dtype))


def like(x, t, dtype, shape=None):
    x = lift(x)
    k = kind_of(dtype, x.k)
    if k == "b":
        t = tobool(t, "r") if not (t in (tm.TRUE, tm.FALSE)) else t
        t = tm.TRUE if t not in (tm.FALSE,) and t is not tm.ZERO else tm.FALSE
    if shape is not None:
        return full(norm_shape(shape), t, k)
    return A(x.shape_t, lambda idx: t, k, guard=x.guard)


def af_zeros_like(x, dtype=None, shape=None, **k):
    return like(x, tm.ZERO, dtype, shape)


def af_ones_like(x, dtype=None, shape=None, **k):
    return like(x, tm.ONE, dtype, shape)


def af_full_like(x, v, dtype=None, **k):
    x = lift(x)
    v = lift(v)
    kk = kind_of(dtype, x.k)
    return A(x.shape_t, lambda idx: conv(v.t, v.k, kk), kk)


def af_empty_like(x, dtype=None, **k):
    x = lift(x)
    return c_empty(x.shape_t, dtype or x.dtype)


def c_linspace(a, b, n=50, endpoint=True, retstep=False, **k):
    a, b, n_ = lift(a), lift(b), as_index(n)
    den = tm.sub(n_, tm.ONE) if endpoint else n_
    step = tm.div(tm.sub(b.t, a.t), den)
    r = A((n_,), lambda idx: tm.add(a.t, tm.mul(idx[0], step)), "r")
    return (r, S(step)) if retstep else r


def c_logspace(a, b, n=50, endpoint=True, base=10.0, **k):
    e = c_linspace(a, b, n, endpoint)
    return elementwise("power", (lift(base), e))


def c_geomspace(a, b, n=50, endpoint=True, **k):
    a, b = lift(a), lift(b)
    e = c_linspace(S(tm.fn("log", a.t)), S(tm.fn("log", b.t)), n, endpoint)
    return elementwise("exp", (e,))


def c_arange(*args, dtype=None, **k):
    args = [lift(a) for a in args]
    if len(args) == 1:
        lo, hi, st = S(tm.ZERO, "i"), args[0], S(tm.ONE, "i")
    elif len(args) == 2:
        lo, hi, st = args[0], args[1], S(tm.ONE, "i")
    else:
        lo, hi, st = args
    if all(x.k == "i" for x in (lo, hi, st)) and st.t is tm.ONE:
        n = tm.sub(hi.t, lo.t)
    else:
        n = tm.fn("ceil", tm.div(tm.sub(hi.t, lo.t), st.t))
        if tm.isnum(hi.t) and tm.isnum(lo.t) and tm.isnum(st.t):
            q = (hi.t.args[0] - lo.t.args[0]) / st.t.args[0]
            n = tm.num(max(0, -((-q) // 1)))
        else:
            c = tm.canon(tm.div(tm.sub(hi.t, lo.t), st.t))
            if all(all(tm.ATOMS[a][0][0] == "v" and tm.ATOMS[a][0][2] == "i" and e > 0 for a, e in m) and cc.denominator == 1 for m, cc in c.items()):
                n = tm.div(tm.sub(hi.t, lo.t), st.t)
    kk = "i" if all(x.k == "i" for x in (lo, hi, st)) else "r"
    c = tm.canon(n)
    if len(c) == 1 and () in c:
        n = tm.num(c[()])
    return A((n,), lambda idx: tm.add(lo.t, tm.mul(idx[0], st.t)), kk)


# ------------------------------------------------------------------ numpy functions
AF = {}


def af(*names):
    def deco(f):
        for n in names:
            AF[n] = f
        return f

    return deco


AF["zeros_like"] = af_zeros_like
AF["ones_like"] = af_ones_like
AF["full_like"] = af_full_like
AF["empty_like"] = af_empty_like
AF["linspace"] = c_linspace
AF["logspace"] = c_logspace
AF["geomspace"] = c_geomspace
AF["arange"] = c_arange


@af("where")
def _where(c, x=None, y=None):
    if x is None:
        return (_true_indices(lift(c)),)
    c, x, y = lift(c), lift(x), lift(y)
    k = "b" if x.k == y.k == "b" else ("r" if "r" in (x.k, y.k) else "i")
    if k == "b":
        return broadcast(lambda ts: tm.or_(tm.and_(tobool(ts[0], c.k), ts[1]), tm.and_(tm.not_(tobool(ts[0], c.k)), ts[2])), [c, x, y], "b")
    return broadcast(lambda ts: tm.ite(tobool(ts[0], c.k), toreal(ts[1], x.k), toreal(ts[2], y.k)), [c, x, y], k)


class _TrueIndices:
    """positions of the true elements of a 1-d condition, in ascending order: only the first is within reach"""

    def __init__(self, c):
        if c.ndim != 1 or c.guard is not None:
            raise Unsupported("positions of true elements")
        self.c = c

    def __getitem__(self, i):
        if not (isinstance(i, (int, np.integer)) and i == 0):
            raise Unsupported("positions of true elements beyond the first")
        v = first_true(self.c)
        if v is None:
            raise IndexError("no true element")
        return v

    def __iter__(self):
        raise Unsupported("iteration over positions of true elements")

    __len__ = __array__ = __iter__

    @property
    def size(self):
        return reduce_("sum", self.c)


def first_true(c):
    """first position at which a 1-d condition holds (None where it holds nowhere)"""
    n, snap, k = c.shape_t[0], c.snapshot(), c.k
    at = lambda i: tobool(snap((i,)), k)
    bv = bvar()
    if not ENGINE.decide(tm.mk("exists", bv, n, at(bv))):
        return None
    v = tm.var(fresh_name("first"), "i", "")
    b2 = bvar()
    for f in (tm.le(tm.ZERO, v), tm.lt(v, n), at(v), tm.not_(tm.mk("exists", b2, v, at(b2)))):
        ENGINE.assume(f)
    ENGINE.cur.__dict__.setdefault("firsts", []).append(v)
    return S(v, "i")


@af("nonzero")
def _nonzero(c):
    return (_true_indices(lift(c)),)


@af("flatnonzero")
def _flatnonzero(c):
    return _true_indices(lift(c))


def _true_indices(c):
    if COMPACT[0] and c.ndim == 1 and c.guard is None:
        if c.k != "b":
            c = c != 0
        s = selection(c)
        return A((s.count,), lambda idx: s.at(idx[0]), "i")
    return _TrueIndices(c)


@af("insert")
def _insert(x, i, v, axis=None):
    x = lift(x)
    if x.ndim != 1 or not (isinstance(i, (int, np.integer)) and i == 0) or lift(v).ndim:
        raise Unsupported("insert")
    return _concat([_al1(v), x])


@af("argwhere")
def _argwhere(c):
    return _true_indices(lift(c))[:, None]


@af("argmax")
def _argmax(c, axis=None):
    c = lift(c)
    if c.k != "b" or c.ndim != 1 or axis not in (None, 0, -1) or c.guard is not None:
        raise Unsupported("argmax")
    v = first_true(c)
    return S(tm.ZERO, "i") if v is None else v


@af("clip")
def _clip(a, lo=None, hi=None, out=None, a_min=None, a_max=None, **k):
    lo = a_min if lo is None else lo
    hi = a_max if hi is None else hi
    if lo is not None:
        a = elementwise("maximum", (a, lo))
    if hi is not None:
        a = elementwise("minimum", (a, hi))
    if out is not None:
        out[...] = a
        return out
    return a


@af("atleast_1d")
def _al1(x):
    x = lift(x)
    return lift0(x)[None] if isinstance(x, S) else (x[None] if x.ndim == 0 else x)


@af("atleast_2d")
def _al2(x):
    x = _al1(x)
    return x[None, :] if x.ndim == 1 else x


@af("shape")
def _shape(x):
    return lift(x).shape


@af("ndim")
def _ndim(x):
    return lift(x).ndim


@af("size")
def _size(x):
    return lift(x).size


@af("copy")
def _copy(x, **k):
    return lift(x).copy()


@af("squeeze")
def _squeeze(x, axis=None):
    x = lift(x)
    return x if isinstance(x, S) else x.squeeze(axis)


@af("real")
def _real(x):
    return x


@af("transpose")
def _transp(x, axes=None):
    return x.transpose(*(axes or ()))


@af("swapaxes")
def _swapaxes(x, a, b):
    p = list(range(x.ndim))
    p[a], p[b] = p[b], p[a]
    return x.transpose(*p)


@af("moveaxis")
def _moveaxis(x, a, b):
    n = x.ndim
    a, b = a % n, b % n
    p = [d for d in range(n) if d != a]
    p.insert(b, a)
    return x.transpose(*p)


@af("expand_dims")
def _expd(x, axis):
    x = lift(x)
    n = x.ndim + 1
    axis = axis % n
    key = tuple(None if d == axis else slice(None) for d in range(n))
    return x[key]


@af("reshape")
def _reshape(x, shape, *a, **k):
    x = lift(x)
    return x.reshape(shape if isinstance(shape, (tuple, list)) else (shape,))


@af("ravel")
def _ravel(x):
    return lift(x).ravel()


@af("outer")
def _outer(a, b):
    a0, b0 = lift0(lift(a)) if isinstance(lift(a), S) else lift(a), lift0(lift(b)) if isinstance(lift(b), S) else lift(b)
    a, b = a0.ravel(), b0.ravel()
    r = a[:, None] * b[None, :]
    r.outer_of = (a0.copy(), b0.copy())
    return r


@af("einsum")
def _einsum(spec, *ops, **k):
    if k or "." in spec or "->" not in spec:
        raise Unsupported("einsum form")
    ins, out = spec.replace(" ", "").split("->")
    ins = ins.split(",")
    ops = [lift(o) for o in ops]
    dims = {}
    for lab, o in zip(ins, ops):
        if len(lab) != o.ndim:
            raise ShapeMismatch("einsum operand dims")
        for c, n in zip(lab, o.shape_t):
            if c in dims and not same_dim(dims[c], n):
                raise ShapeMismatch("einsum dims differ")
            dims.setdefault(c, n)
    con = [c for c in dims if c not in out]
    sn = [o.snapshot() for o in ops]
    ks = [o.k for o in ops]

    def at(idx):
        env = dict(zip(out, idx))
        bvs = {c: bvar() for c in con}
        env.update(bvs)
        b = tm.mul(*[toreal(s_(tuple(env[c] for c in lab)), kk) for s_, lab, kk in zip(sn, ins, ks)])
        for c in con:
            b = tm.red("sum", bvs[c], dims[c], b)
        return b

    if not out:
        return S(at(()))
    return A(tuple(dims[c] for c in out), memo_at(at))


@af("apply_along_axis")
def _aaa(f, axis, arr, *a, **k):
    x = lift(arr)
    axis = axis % x.ndim
    n = x.shape_t[axis]
    snap, kx = x.snapshot(), x.k

    def at(idx):
        row = A((n,), lambda j: snap(tuple(idx[:axis]) + (j[0],) + tuple(idx[axis:])), kx)
        r = lift(f(row, *a, **k))
        if not (isinstance(r, S) or r.ndim == 0):
            raise Unsupported("apply_along_axis of an array-valued function")
        return toreal(r.t, r.k)

    sh = x.shape_t[:axis] + x.shape_t[axis + 1 :]
    return A(sh, memo_at(at)) if sh else S(at(()))


@af("meshgrid")
def _meshgrid(x, y, indexing="xy", **k):
    x, y = lift(x), lift(y)
    if indexing == "ij":
        sh = (x.shape_t[0], y.shape_t[0])
        return [bcast_to(x[:, None], sh), bcast_to(y[None, :], sh)]
    sh = (y.shape_t[0], x.shape_t[0])
    return [bcast_to(x[None, :], sh), bcast_to(y[:, None], sh)]


@af("diag_indices", "diag")
def _diag(x, *a):
    x = lift(x)
    if x.ndim != 2:
        raise Unsupported("diag")
    snap = x.snapshot()
    return A((x.shape_t[0],), lambda idx: snap((idx[0], idx[0])), x.k)


@af("broadcast_to")
def _bto(x, shape, **k):
    return bcast_to(x, norm_shape(shape))


@af("concatenate", "hstack")
def _concat(xs, axis=0):
    xs = [lift(x) for x in xs]
    if axis != 0 or any(x.ndim != 1 for x in xs):
        raise Unsupported("concatenate")
    sn = [x.snapshot() for x in xs]
    offs = [tm.ZERO]
    for x in xs:
        offs.append(tm.add(offs[-1], x.shape_t[0]))

    def at(idx):
        i = idx[0]
        r = sn[-1]((tm.sub(i, offs[-2]),))
        for j in range(len(xs) - 2, -1, -1):
            if j in joined:
                continue
            r = tm.ite(tm.lt(i, offs[j + 1]), sn[j]((tm.sub(i, offs[j]),)), r)
        return r

    # a single element that continues the next part one step to the left needs no case distinction (0, then running sums)
    joined = set()
    for j in range(len(xs) - 1):
        if xs[j].shape_t[0] is tm.ONE and getattr(xs[j + 1], "memo", None) == "running":
            if tm.equal(sn[j + 1]((tm.num(-1),)), sn[j]((tm.ZERO,))):
                joined.add(j)
    return A((offs[-1],), at, "r" if any(x.k == "r" for x in xs) else xs[0].k)


@af("append")
def _append(a, b, axis=None):
    return _concat([_al1(a), _al1(b)])


@af("diff")
def _diff(x, n=1, axis=-1):
    x = lift(x)
    if n != 1 or x.guard is not None:
        raise Unsupported("diff")
    axis = axis % x.ndim
    return x[tuple(slice(1, None) if d == axis else slice(None) for d in range(x.ndim))] - x[tuple(slice(None, -1) if d == axis else slice(None) for d in range(x.ndim))]


@af("gradient")
def _gradient(*a, **k):
    raise Unsupported("gradient")


@af("isscalar")
def _isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


@af("isclose")
def _isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    a, b = lift(a), lift(b)
    d = elementwise("absolute", (elementwise("subtract", (a, b)),))
    return elementwise("less_equal", (d, elementwise("add", (lift(atol), elementwise("multiply", (lift(rtol), elementwise("absolute", (b,))))))))


@af("allclose", "array_equal")
def _allclose(a, b, **k):
    raise Unsupported("allclose")


@af("nan_to_num")
def _nan_to_num(x, **k):
    return x


@af("tril", "triu")
def _tri(*a, **k):
    raise Unsupported("tri")


@af("dot", "matmul")
def _dot(a, b, **k):
    a, b = lift(a), lift(b)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if a.ndim == 1 and b.ndim == 1:
        return reduce_("sum", a * b)
    if a.ndim <= 2 and b.ndim <= 2 and getattr(a, "guard", None) is None and getattr(b, "guard", None) is None:
        la, lb = "ik" if a.ndim == 2 else "k", "kj" if b.ndim == 2 else "k"
        return _einsum(f"{la},{lb}->{la[:-1]}{lb[1:]}", a, b)
    raise Unsupported("dot")


@af("norm")
def _norm(x, ord=None, axis=None, keepdims=False):
    x = lift(x)
    if ord not in (None, 2) or (ord == 2 and axis is None and x.ndim > 1) or isinstance(axis, (tuple, list)):
        raise Unsupported("linalg.norm of this order")
    return elementwise("sqrt", (reduce_("sum", elementwise("square", (x,)), axis=axis, keepdims=keepdims),))


@af("stack")
def _stack(xs, axis=0, **k):
    xs = [lift(x) for x in xs]
    if any(getattr(x, "guard", None) is not None or x.ndim != xs[0].ndim for x in xs):
        raise Unsupported("stack")
    for x in xs[1:]:
        for p, q in zip(x.shape_t if x.ndim else (), xs[0].shape_t if x.ndim else ()):
            if not same_dim(p, q):
                raise ShapeMismatch("stack of different shapes")
    axis = axis % (xs[0].ndim + 1)
    sn = [x.snapshot() for x in xs]
    ks = [x.k for x in xs]
    kk = ks[0] if len(set(ks)) == 1 else "r"
    sh = tuple(xs[0].shape_t) if xs[0].ndim else ()

    def at(idx):
        rest = idx[:axis] + idx[axis + 1 :]
        vals = [f(rest) if kk == q else toreal(f(rest), q) for f, q in zip(sn, ks)]
        r = vals[-1]
        for j in range(len(vals) - 2, -1, -1):
            c = tm.eq(idx[axis], tm.num(j))
            r = tm.or_(tm.and_(c, vals[j]), tm.and_(tm.not_(c), r)) if kk == "b" else tm.ite(c, vals[j], r)
        return r

    return A(sh[:axis] + (tm.num(len(xs)),) + sh[axis:], memo_at(at), kk)


@af("column_stack")
def _cstack(xs):
    xs = [lift(x) for x in xs]
    if any(x.ndim != 1 for x in xs):
        raise Unsupported("column_stack")
    return _stack(xs, axis=1)


@af("vstack")
def _vstack(xs, **k):
    xs = [lift(x) for x in xs]
    if any(x.ndim != 1 for x in xs):
        raise Unsupported("vstack")
    return _stack(xs)


@af("select")
def _select(conds, choices, default=0):
    r = lift(default)
    for c, v in list(zip(conds, choices))[::-1]:
        r = _where(c, v, r)
    return r


@af("count_nonzero")
def _cnz(x, axis=None, **k):
    x = lift(x)
    return reduce_("sum", x if x.k == "b" else elementwise("not_equal", (x, lift(0))), axis=axis)


@af("flip")
def _flip(x, axis=None):
    x = lift(x)
    if axis is None and x.ndim != 1:
        raise Unsupported("flip")
    axis = (axis or 0) % x.ndim
    return x[tuple(slice(None, None, -1) if d == axis else slice(None) for d in range(x.ndim))]


@af("tile")
def _tile(x, reps):
    x = lift(x)
    if isinstance(reps, (tuple, list)) and x.ndim == 1 and len(reps) == 2 and as_index(reps[1]) is tm.ONE:
        return bcast_to(x[None, :], norm_shape((reps[0], x.shape[0])))
    if x.ndim == 1 and x.guard is None and not isinstance(reps, (tuple, list)):
        n, m, snap = as_index(reps), x.shape_t[0], x.snapshot()
        if n is tm.ONE:
            return x.copy()
        return A((tm.mul(n, m),), memo_at(lambda idx: snap((_split2(idx[0], (n, m))[1],))), x.k)
    raise Unsupported("tile")


@af("repeat")
def _repeat(x, n, axis=None):
    x = lift(x)
    if axis is not None and x.ndim > 1 and x.shape_t[axis % x.ndim] is tm.ONE:
        axis = axis % x.ndim
        return bcast_to(x, tuple(as_index(n) if d == axis else q for d, q in enumerate(x.shape_t)))
    n = lift(n)
    if x.ndim == 1 and isinstance(n, A) and n.ndim == 1 and axis in (None, 0, -1) and x.guard is None and n.guard is None:
        if not same_dim(x.shape_t[0], n.shape_t[0]):
            raise ShapeMismatch("repeat")
        cs, ck, xs = n.snapshot(), n.k, x.snapshot()
        q = tm.var("%rep", "i", "0+")
        if not prove([*(ENGINE.cur.pc if ENGINE.cur else []), tm.lt(q, n.shape_t[0])], tm.le(tm.ZERO, toreal(cs((q,)), ck))):
            raise Unsupported("numbers of repeats not known to be non-negative")

        def off(g):
            b = bvar()
            return tm.red("sum", b, g, toreal(cs((b,)), ck))

        gr = group(n.shape_t[0], off)
        total = reduce_("sum", n)
        return A((total.t,), memo_at(lambda idx: xs((gr.at(idx[0]),))), x.k)
    raise Unsupported("repeat")


@af("mean")
def _mean(x, axis=None, **k):
    x = lift(x)
    n = reduce_("sum", af_ones_like(x, float), axis=axis)
    return reduce_("sum", x, axis=axis) / n


@af("average")
def _average(x, axis=None, weights=None, **k):
    if weights is None:
        return _mean(x, axis=axis)
    return reduce_("sum", lift(x) * weights, axis=axis) / reduce_("sum", lift(weights), axis=axis)


def red_axis(x, axis, build, k="r"):
    """apply build(bv, n, body)->term along an axis"""
    axis = axis % x.ndim
    n = x.shape_t[axis]
    snap, kx, g = x.snapshot(), x.k, x.guard

    def at(idx):
        bv = bvar()
        ii = idx[:axis] + (bv,) + idx[axis:]
        body = snap(ii)
        return build(bv, n, body, ii)

    sh = x.shape_t[:axis] + x.shape_t[axis + 1 :]
    if not sh:
        return S(at(()), k)
    return A(sh, memo_at(at), k)


def reduce_(name, x, axis=None, keepdims=False):
    x = lift(x)
    if isinstance(x, S):
        return S(tobool(x.t, x.k), "b") if name in ("all", "any") else x
    if x.ndim == 0:
        if x.guard is None:
            return S(tobool(x.t, x.k) if name in ("all", "any") else x.t, "b" if name in ("all", "any") else x.k)
    if axis is None and x.ndim > 1:
        for _ in range(x.ndim):
            x = reduce_(name, x, axis=-1)
        return x
    if isinstance(axis, (tuple, list)):
        for d in sorted([d % x.ndim for d in axis], reverse=True):
            x = reduce_(name, x, axis=d)
        return x
    axis = -1 if axis is None else axis
    g = x.guard
    gs = g.snapshot() if g is not None else None
    k0 = x.k
    n = x.shape_t[axis % x.ndim]
    concrete = tm.isnum(n) and n.args[0] <= 12

    def build(bv, n, body, ii):
        guard = gs(ii) if gs else tm.TRUE
        if name == "sum":
            b = tm.ite(guard, toreal(body, k0), tm.ZERO)
            if concrete:
                return tm.add(*[tm.subst(b, {bv: tm.num(j)}) for j in range(int(n.args[0]))]) if n.args[0] else tm.ZERO
            return tm.red("sum", bv, n, b)
        if name in ("any", "all"):
            b = tobool(body, k0)
            b = tm.and_(guard, b) if name == "any" else tm.and_(guard, tm.not_(b))
            if concrete:
                e = tm.or_(*[tm.subst(b, {bv: tm.num(j)}) for j in range(int(n.args[0]))])
            elif b is tm.FALSE:
                e = tm.FALSE
            elif not (bv in tm.subterms(b)):
                e = tm.and_(b, tm.lt(tm.ZERO, n))
            else:
                e = tm.mk("exists", bv, n, b)
            return e if name == "any" else tm.not_(e)
        if name in ("max", "min"):
            if gs:
                raise Unsupported("max of selection")
            body = toreal(body, k0)
            if bv not in tm.subterms(body):
                return body
            mon = monotone(body, bv)
            if mon:
                hi = tm.subst(body, {bv: tm.sub(n, tm.ONE)})
                lo = tm.subst(body, {bv: tm.ZERO})
                return (hi if mon > 0 else lo) if name == "max" else (lo if mon > 0 else hi)
            return tm.red("nl:" + name, bv, n, body)
        if name == "prod":
            return tm.red("nl:prod", bv, n, toreal(body, k0))
        raise Unsupported(name)

    r = red_axis(x, axis, build, "b" if name in ("any", "all") else ("i" if k0 == "b" else k0))
    if keepdims:
        r = _expd(r, axis)
    return r


MONO = {}  # array name -> +1/-1 : contract says elements are monotone in the last index


def monotone(body, bv):
    if body.op == "app" and body.args[0] in MONO and body.args[-1] is bv:
        return MONO[body.args[0]]
    if body.op == "fn" and body.args[0] in ("log", "exp", "sqrt"):
        return monotone(body.args[1], bv)
    return 0


def _reduction(nm):
    def f(x, axis=None, dtype=None, out=None, keepdims=False, where=None, **k):
        if k or out is not None:
            raise Unsupported(f"np.{nm} with {sorted(k) or 'out'}")
        x = lift(x)
        if where is not None and where is not True:
            if nm not in ("sum", "prod", "any", "all"):
                raise Unsupported(f"np.{nm} with where")
            x = _where(where, x, {"sum": 0, "prod": 1, "any": False, "all": True}[nm])
        return reduce_(nm, x, axis=axis, keepdims=keepdims)

    return f


for _n in ("sum", "max", "min", "any", "all", "prod"):
    AF[_n] = _reduction(_n)
AF["amax"], AF["amin"] = AF["max"], AF["min"]
AF["nansum"] = AF["sum"]


@af("argsort")
def np_argsort(a, axis=-1, kind=None):
    """a permutation of the positions that puts the entries in ascending order (named after the array it sorts)"""
    a = lift(a)
    if a.ndim != 1 or axis not in (-1, 0):
        raise Unsupported("argsort of several dimensions")
    g = tm.var("%srt", "i", "0+")
    e = a.at((g,))
    name = f"argsort[{e.args[0]}]" if e.op == "app" and len(e.args) == 3 and e.args[2] is g else fresh_name("argsort")
    return A(a.shape_t, memo_at(lambda b: tm.app(name, "0+", *b)), "i")


@af("cumsum")
def _cumsum(x, axis=None, **k):
    x = lift(x)
    if x.ndim != 1:
        raise Unsupported("cumsum nd")
    snap, k0 = x.snapshot(), x.k

    def at(idx):
        bv = bvar()
        return tm.red("sum", bv, tm.add(idx[0], tm.ONE), toreal(snap((bv,)), k0))

    out = A(x.shape_t, memo_at(at), x.k)
    out.memo = "running"
    return out


# integrals: linear functionals of the sampled values
def _integral(kind):
    def f(y, x=None, dx=1.0, axis=-1, **k):
        if k:
            raise Unsupported(f"{kind} kwargs {list(k)}")
        y = lift(y)
        if y.guard is not None:
            raise Unsupported("integral over selection")
        if x is None:
            dxl = lift(dx)
            r = red_axis(y, axis, lambda bv, n, b, ii: tm.red(kind, bv, n, toreal(b, y.k)))
            return r * dxl
        x = lift(x)
        xs = x.snapshot()
        if x.ndim == 1:
            return red_axis(y, axis, lambda bv, n, b, ii: tm.red(kind + "_x", bv, n, toreal(b, y.k), xs((bv,))))
        if x.ndim == y.ndim:
            return red_axis(y, axis, lambda bv, n, b, ii: tm.red(kind + "_x", bv, n, toreal(b, y.k), xs(ii)))
        raise Unsupported("integral x dims")

    f.__name__ = kind
    return f


def sym_cumtrapz(y, x=None, dx=1.0, axis=-1, initial=None):
    """cumulative trapezoid along the last axis (prefix functional)"""
    y = lift(y)
    if y.guard is not None or axis not in (-1, y.ndim - 1) or initial != 0:
        raise Unsupported("cumulative_trapezoid form")
    snap, k0 = y.snapshot(), y.k
    xs = lift(x).snapshot() if x is not None else None

    def at(idx):
        bv = bvar()
        body = toreal(snap(tuple(idx[:-1]) + (bv,)), k0)
        if xs is None:
            return tm.red("trapz", bv, tm.add(idx[-1], tm.ONE), body)
        return tm.red("trapz_x", bv, tm.add(idx[-1], tm.ONE), body, xs((bv,)))

    r = A(y.shape_t, memo_at(at))
    return r if x is not None else r * lift(dx)


sym_simpson = _integral("simps")
sym_trapezoid = _integral("trapz")
AF["trapz"] = AF["trapezoid"] = sym_trapezoid


def _simps(ys, xs=None):
    from scipy.integrate import simpson

    return simpson([float(y) for y in ys], x=None if xs is None else [float(v) for v in xs])


def _trapz(ys, xs=None):
    return np.trapezoid([float(y) for y in ys], x=None if xs is None else [float(v) for v in xs])


tm.RED_EVAL.update({
    "simps": _simps, "simps_x": _simps, "trapz": _trapz, "trapz_x": _trapz,
    "sum": lambda ys: sum(ys), "nl:max": max, "nl:min": min,
    "nl:prod": lambda ys: __import__("math").prod(ys),
})


# interpolants: uninterpreted functions of (table, argument) except at the knots
class SymInterp:
    """s(x) for an interpolant built from symbolic tables; value is an uninterpreted functional."""

    def __init__(self, kind, x, y, opts=()):
        self.kind, self.x, self.y, self.opts = kind, lift(x).copy(), lift(y).copy(), opts

    def __call__(self, q, *a, **k):
        q = lift(q)
        xs, ys = self.x.snapshot(), self.y.snapshot()
        n = self.x.shape_t[0]
        lin = self.kind

        if tm.isnum(n) and n.args[0] <= 32:
            tab = [xs((tm.num(j),)) for j in range(int(n.args[0]))] + [ys((tm.num(j),)) for j in range(int(n.args[0]))]
            nm = ":".join([lin, *map(str, self.opts)])
            return broadcast(lambda ts: tm.fn(nm, ts[0], *tab), [q], "r")

        def f(ts):
            bv = bvar()
            return tm.red(lin, bv, n, ys((bv,)), xs((bv,)), ts[0], *[o for o in self.opts])

        return broadcast(f, [q], "r")


class SymSplineI(SymInterp):
    """interpolating spline with definite integrals: a functional, linear in the tabulated values"""

    def __init__(self, x, y, *a, **k):
        if a or set(k) - {"k", "ext"}:
            raise Unsupported("spline options")
        opts = [tm.num(v) for v in (k.get("k", 3),) if v != 3]
        if k.get("ext", 0) not in (0, "extrapolate"):
            opts.append(tm.var(f"ext={k['ext']}"))
        super().__init__("spl", x, y, opts)

    def integral(self, lo, hi):
        xs, ys = self.x.snapshot(), self.y.snapshot()
        bv = bvar()
        lo, hi = lift(lo), lift(hi)
        return S(tm.red("splint", bv, self.x.shape_t[0], toreal(ys((bv,)), self.y.k), toreal(xs((bv,)), self.x.k), toreal(lo.t, lo.k), toreal(hi.t, hi.k), *self.opts))


def _splint_eval(ys, xs, lo, hi, *o):
    from scipy.interpolate import InterpolatedUnivariateSpline as I

    return I([float(v) for v in xs], [float(v) for v in ys], k=int(o[0]) if o else 3).integral(float(lo), float(hi))


def _spl_eval(ys, xs, q, *o):
    from scipy.interpolate import InterpolatedUnivariateSpline as I

    return float(I([float(v) for v in xs], [float(v) for v in ys], k=int(o[0]) if o else 3)(float(q)))


tm.RED_EVAL.update({"splint": _splint_eval, "spl": _spl_eval, "interp": lambda ys, xs, q: float(np.interp(float(q), [float(v) for v in xs], [float(v) for v in ys]))})


@af("interp")
def _interp(q, x, y, *a, **k):
    if a or k:
        raise Unsupported("np.interp options")
    q, x, y = lift(q), lift(x), lift(y)
    xs, ys = x.snapshot(), y.snapshot()

    def f(ts):
        bv = bvar()
        return tm.red("interp", bv, x.shape_t[0], toreal(ys((bv,)), y.k), toreal(xs((bv,)), x.k), ts[0])

    return broadcast(f, [q], "r")


# ------------------------------------------------------------------ builtins used by halomod modules
def sym_len(x):
    if isinstance(x, A):
        if x.ndim == 0:
            raise TypeError("len() of unsized object")
        if x.guard is not None:
            raise _unsup("len of masked selection")
        return shape_out(x.shape_t[0])
    if isinstance(x, SymSet):
        return S(tm.var(fresh_name("distinct"), "i", "0+"), "i")
    return builtins.len(x)


class LoopSpec:
    """Contract of a loop that carries state.

    carry: local name -> callable(i) giving an arbitrary (havocked) value for iteration i
    inv(i, locals): the loop invariant; body(i, locals): obligations of an arbitrary iteration
    writes: local arrays the body may store to (at the iteration's own index only)
    """

    def __init__(self, carry, inv, body, writes=()):
        self.carry, self.inv, self.body, self.writes = carry, inv, body, tuple(writes)



class ChainSpec:
    """Contract of an inner loop that fills the rows of a table one after the other, each from the one before.

    iteration i of range(0, n) writes the row key(i) -- key a permutation of the rows (assumed) -- and may read the row key(i - 1).
    pick(locals): the table; col: its dimension the loop around this one runs over (only that column is written); value(b): what they hold (the invariant:
    the rows key(0) .. key(i - 1) hold it)
    """

    def __init__(self, pick, key, col, value):
        self.pick, self.key, self.col, self.value = pick, key, col, value


class WhileSpec:
    """Contract of a ``while`` loop: like LoopSpec, at the loop's head.

    carry: local name -> callable() giving an arbitrary value; inv(locals): the invariant;
    ghost(locals): defining equations of ghost functions used by the invariant (assumed at the arbitrary head)
    writes: local arrays the body may store to
    """

    def __init__(self, carry, inv, ghost=None, writes=()):
        self.carry, self.inv, self.ghost, self.writes = carry, inv, ghost, tuple(writes)


WHILES = {}
ROLES = {}  # function name -> {name used by its loop contracts: the local variable that plays this role}


class MissingRole(Unsupported):
    """a loop contract names a local variable the function does not have (any more)"""

    def __init__(self, fname, role, kind):
        super().__init__(f"loop contract of {fname}: no local {role!r}")
        self.fname, self.role, self.kind = fname, role, kind


class Locals(dict):
    """the locals of a frame, under the names of the roles they play in the loop contracts"""

    def __init__(self, fname, loc):
        super().__init__(loc)
        self.fname = fname
        for role, name in ROLES.get(fname, {}).items():
            if name in loc:
                self[role] = loc[name]

    def __missing__(self, role):
        raise MissingRole(self.fname, role, "local")


def _named(frame, roles, kind):
    """role -> local variable of the frame's function"""
    m = ROLES.get(frame.f_code.co_name, {})
    out = {}
    for r in roles:
        n = m.get(r, r)
        if n not in frame.f_code.co_varnames:
            raise MissingRole(frame.f_code.co_name, r, kind)
        out[r] = n
    return out


def role_candidates(fn, kind, taken):
    """local variables of the function's current source that could play a role of a loop contract"""
    tree = ast.parse(textwrap.dedent(inspect.getsource(fn))).body[0]
    out = []
    for loop in ast.walk(tree):
        if not isinstance(loop, (ast.For, ast.While)):
            continue
        for n in ast.walk(loop):
            if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name):
                if kind == "writes":
                    out.append(n.value.id)
            elif isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store) and kind != "writes":
                out.append(n.id)
    names = [n for n in dict.fromkeys(out) if n not in taken]
    if kind == "carry":  # a carried variable is also assigned before the loop, or only sometimes in it
        pre = [n.id for st in tree.body for n in ast.walk(st) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)]
        names.sort(key=lambda n: -pre.count(n))
    return names


def while_head(name, k):
    """run at every evaluation of the head of the k-th while loop of ``name`` (inserted mechanically): the invariant is
    established on entry, one arbitrary iteration from an arbitrary state satisfying it preserves it, and the code after
    the loop runs from an arbitrary state satisfying it at which the loop's own condition is false"""
    frame = sys._getframe(1)
    fname = name
    spec = WHILES[name][k]
    cur = ENGINE.cur
    if not hasattr(cur, "whiles"):
        cur.whiles = {}
    key = (id(frame), k)

    def contract(f, *a):
        nf, cur.nofork = cur.nofork, True
        try:
            return f(*a)
        finally:
            cur.nofork = nf

    carry, writes = _named(frame, spec.carry, "carry"), _named(frame, spec.writes, "writes")
    if key not in cur.whiles:
        loc = Locals(fname, frame.f_locals)
        if spec.ghost:
            ENGINE.assume(contract(spec.ghost, loc))
        cur.side.append((list(cur.pc), {f"{name}: while invariant holds on entry": contract(spec.inv, loc)}))
        _set_locals(frame, {carry[n]: mk() for n, mk in spec.carry.items()})
        for nm in spec.writes:
            st, new = loc[nm].store, fresh_name(f"%in_{nm}")
            st.at = memo_at(lambda b, new=new: tm.app(new, "", *b))
        loc = Locals(fname, frame.f_locals)
        ENGINE.assume(contract(spec.inv, loc))
        if spec.ghost:
            ENGINE.assume(contract(spec.ghost, loc))
        sizes = {n: len(v) for n, v in loc.items() if isinstance(v, (list, dict, set))}
        cur.whiles[key] = types.SimpleNamespace(frame=frame, keep=loc, start=Store._n, sizes=sizes, ok={id(loc[nm].store) for nm in spec.writes})
        return True
    keep, sizes = cur.whiles[key].keep, cur.whiles[key].sizes
    after = Locals(fname, frame.f_locals)
    bad = [n for n, v in frame.f_locals.items() if n in keep and v is not keep[n] and n not in carry.values()]
    bad += [n for n, q in sizes.items() if len(keep[n]) != q]
    if bad:
        raise Unsupported(f"while loop carries variables outside its contract: {bad}")
    raise PathEnd({f"{name}: while invariant is preserved": contract(spec.inv, after)})


def while_exit(name, k):
    """inserted after the loop: a later execution of the same loop starts afresh"""
    frame = sys._getframe(1)
    ENGINE.cur.whiles.pop((id(frame), k), None)


def mark_whiles(fn, n):
    """the function's own current source with a marker at the head of each while loop; nothing else is changed or dropped"""
    tree = ast.parse(textwrap.dedent(inspect.getsource(fn)))
    fd = tree.body[0]
    fd.decorator_list = []
    count = [0]

    class Tr(ast.NodeTransformer):
        def visit_FunctionDef(self, node):
            return self.generic_visit(node) if node is fd else node

        def visit_Lambda(self, node):
            return node

        def visit_While(self, node):
            k = count[0]
            count[0] += 1
            self.generic_visit(node)
            call = lambda f: ast.Call(ast.Name(f, ast.Load()), [ast.Constant(fd.name), ast.Constant(k)], [])
            node.test = ast.BoolOp(ast.And(), [call("__pyvc_while_head__"), node.test])
            return [node, ast.Expr(call("__pyvc_while_exit__"))]

    Tr().visit(tree)
    if count[0] == 0:
        return fn
    if count[0] != n:
        raise Unsupported(f"{fn.__name__}: {count[0]} while loops, contracts for {n}")
    ast.fix_missing_locations(tree)
    ns = fn.__globals__
    code = compile(tree, inspect.getsourcefile(fn), "exec", flags=__import__("__future__").annotations.compiler_flag, dont_inherit=True)
    code = [c for c in code.co_consts if isinstance(c, types.CodeType) and c.co_name == fd.name][0]
    if code.co_freevars:
        raise Unsupported("while loop in a closure")
    out = types.FunctionType(code, ns, fn.__name__, fn.__defaults__, None)
    out.__kwdefaults__ = fn.__kwdefaults__
    return out


LOOPS = {}
_l2f = ctypes.pythonapi.PyFrame_LocalsToFast
_l2f.argtypes = [ctypes.py_object, ctypes.c_int]
_l2f.restype = None


def _set_locals(frame, kw):
    frame.f_locals.update(kw)
    _l2f(frame, 0)


def _loop_contract(spec, lo, hi, frame):
    fname = frame.f_code.co_name
    cur = ENGINE.cur

    def contract(f, *a):
        nf, cur.nofork = cur.nofork, True
        try:
            return f(*a)
        finally:
            cur.nofork = nf

    carry, writes = _named(frame, spec.carry, "carry"), _named(frame, spec.writes, "writes")
    locs = lambda: Locals(fname, frame.f_locals)
    cur.side.append((list(cur.pc), {f"{fname}: loop invariant holds on entry": contract(spec.inv, S(lo, "i"), locs())}))
    body = ENGINE.decide(tm.lt(tm.var(fresh_name("%ghost"), "r", ""), tm.ZERO))
    i = tm.var(fresh_name("it"), "i", "") if body else hi
    iS = S(i, "i")
    _set_locals(frame, {carry[k]: mk(iS) for k, mk in spec.carry.items()})
    if not body:
        ENGINE.assume(contract(spec.inv, iS, locs()))
        for nm in spec.writes:
            st, new = frame.f_locals[writes[nm]].store, fresh_name(f"%after_{nm}")
            st.at = memo_at(lambda b, new=new: tm.app(new, "", *b))
        return
    ENGINE.assume(tm.le(lo, i))
    ENGINE.assume(tm.lt(i, hi))
    ENGINE.assume(contract(spec.inv, iS, locs()))
    keep = dict(frame.f_locals)
    sizes = {k: len(v) for k, v in keep.items() if isinstance(v, (list, dict, set))}
    it = GenIter(i)
    ITER.append(it)
    try:
        yield iS
    except GeneratorExit:
        cur.poison = "loop left before its last iteration"
        raise
    finally:
        ITER.remove(it)
    after = frame.f_locals
    bad = [k for k, v in after.items() if k in keep and v is not keep[k] and k not in carry.values() and not (isinstance(v, S) and v.t is i)]
    bad += [k for k, n in sizes.items() if len(keep[k]) != n]
    if bad:
        raise Unsupported(f"loop carries variables outside its contract: {bad}")
    ok = {id(keep[writes[nm]].store) for nm in spec.writes}
    if it.scratch or any(id(w[0]) not in ok for w in it.writes):
        raise Unsupported("loop stores outside its contract's frame")
    for st, w, inv, old, d, nd in it.writes:
        for b in it.reads.get(st.uid, []):
            if d == "rows" or len(b) != nd or (b[d] is not i and not tm.equal(b[d], i)):
                raise Unsupported("loop reads other iterations' stores")
    goals = {f"{fname}: loop invariant is preserved": contract(spec.inv, S(tm.add(i, tm.ONE), "i"), locs())}
    goals.update(contract(spec.body, iS, locs()))
    raise PathEnd(goals)


def _implies(c, g):
    return tm.or_(tm.not_(c), g)


def _chain_contract(spec, lo, hi, frame):
    fname, cur, outer = frame.f_code.co_name, ENGINE.cur, ITER[-1]
    loc = cur.local
    if loc is not None and (loc.alts or loc.prefix):
        raise Unsupported("branches before a loop under contract")
    keep = dict(frame.f_locals)
    tab = spec.pick(keep)
    if tab is None or lo is not tm.ZERO or not same_dim(tab.shape_t[0], hi) or tab.store.nd != len(tab.shape_t):
        raise Unsupported(f"loop contract of {fname}: no table to fill")
    st, nd = tab.store, tab.store.nd
    wrote = lambda b: tm.eq(b[spec.col], outer.i)
    cur.local = None
    body = ENGINE.decide(tm.lt(tm.var(fresh_name("%ghost"), "r", ""), tm.ZERO))
    if not body:
        cur.local = loc
        store_write(st, memo_at(lambda b: (tm.and_(tm.le(tm.ZERO, b[0]), tm.lt(b[0], hi), wrote(b)), spec.value(b))), None)
        return
    i = tm.var(fresh_name("it"), "i", "0+")
    ENGINE.assume(tm.lt(i, hi))
    now, before, other = spec.key(i), spec.key(tm.sub(i, tm.ONE)), fresh_name("%chain")

    def earlier(b):
        unknown = tm.app(other, "", *b)
        if tm.equal(b[0], before):
            return tm.ite(tm.eq(i, tm.ZERO), unknown, tm.ite(wrote(b), spec.value(b), unknown))
        return unknown

    it = GenIter(i)
    it.chain = st
    st.at = memo_at(earlier)
    ITER.append(it)
    sizes = {k: len(v) for k, v in keep.items() if isinstance(v, (list, dict, set))}
    try:
        yield S(i, "i")
    except GeneratorExit:
        cur.poison = "loop left before its last iteration"
        raise
    finally:
        ITER.remove(it)
    after = frame.f_locals
    bad = [k for k, v in after.items() if k in keep and v is not keep[k] and not (isinstance(v, S) and v.t is i)]
    bad += [k for k, n in sizes.items() if len(keep[k]) != n]
    if bad:
        raise Unsupported(f"loop carries variables outside its contract: {bad}")
    if it.scratch or any(w[0] is not st for w in it.writes):
        raise Unsupported("loop stores outside its contract's frame")
    row = tuple(now if d == 0 else outer.i if d == spec.col else tm.var(fresh_name("col"), "i", "0+") for d in range(nd))
    inside = tm.and_(tm.TRUE, *[tm.lt(c, n) for d, (c, n) in enumerate(zip(row, tab.shape_t)) if d not in (0, spec.col)])
    goals = {f"{fname}: iteration i leaves row key(i) as the invariant says": _implies(inside, tm.eq(st.at(row), spec.value(row)))}
    b = _generic(nd)
    for n, (_, w, inv, old, d, _) in enumerate(it.writes):
        c, _v = _wc(w, inv, b)
        goals[f"{fname}: iteration i writes nothing else ({n})"] = _implies(c, tm.and_(tm.eq(b[0], now), wrote(b)))
    ITER.remove(outer)
    raise PathEnd(goals)


class _Stale:
    """a variable of another branch of the iteration"""

    def __getattribute__(self, n):
        raise Unsupported("variable set on another branch of a loop iteration")


STALE = _Stale()


class GenIter:
    def __init__(self, var_):
        self.i = var_
        self.reads = {}
        self.writes = []
        self.kinds = {}
        self.scratch = []
        self.chain = None
        self.start = Store._n


def sym_range(*args, _depth=1):
    if not any(isinstance(a, S) and not tm.isnum(a.t) for a in args):
        return builtins.range(*[int(a) for a in args])
    if len(args) == 1:
        lo, hi = tm.ZERO, as_index(args[0])
    elif len(args) == 2:
        lo, hi = as_index(args[0]), as_index(args[1])
    else:
        raise Unsupported("range step")
    return _gen_range(lo, hi, sys._getframe(_depth))


def _accumulators(frame, keep):
    """scalar locals set before the loop that its body assigns: candidates for sums carried through the iterations"""
    ins = list(dis.get_instructions(frame.f_code))
    here = [x for x in ins if x.offset == frame.f_lasti] or [x for x in ins if x.offset == frame.f_lasti - 2 and x.opname == "FOR_ITER"]
    if not here or here[0].opname != "FOR_ITER":
        return []
    body = [x for x in ins if here[0].offset < x.offset < here[0].argval]
    # the loop's own variables are assigned first, up to the first instruction that is not a store or an unpacking
    k = 0
    while k < len(body) and body[k].opname.startswith(("STORE_FAST", "UNPACK", "CACHE", "EXTENDED")):
        k += 1
    own = {x.argval for x in body[:k] if x.opname == "STORE_FAST"}
    names = {x.argval for x in body[k:] if x.opname == "STORE_FAST"} - own
    return [n for n in names if n in keep and _scalar_local(keep[n])]


def _scalar_local(v):
    if isinstance(v, S):
        return v.k in ("r", "i")
    if isinstance(v, A):
        return v.ndim == 0 and v.k in ("r", "i")
    return isinstance(v, (int, float, np.integer, np.floating)) and not isinstance(v, bool)


def _add_up(frame, accs, sums, cond, pc):
    """what one branch of the generic iteration adds to the sums it carries"""
    after = frame.f_locals
    for k, c in accs.items():
        v = after.get(k)
        if v is c:
            sums[k].append((cond, tm.ZERO))
            continue
        if not _scalar_local(v):
            raise Unsupported(f"loop-carried variables {[k]}")
        d = tm.subst(t_of(v), {c.t: tm.ZERO})
        if not tm.equal(t_of(v), tm.add(c.t, d)):
            raise Unsupported(f"loop-carried variables {[k]}")
        sums[k].append((cond, d))
    gone = {c.t for c in accs.values()}
    for x in (cond, *pc, *(d for v in sums.values() for _, d in v)):
        if gone & set(tm.subterms(x)):
            raise Unsupported("iterations depend on a sum carried by the loop")


def _totals(frame, accs, sums, keep, it, i, lo, hi):
    gone = {c.t for c in accs.values()}
    out = {}
    for k in accs:
        if all(d is tm.ZERO for _, d in sums[k]):
            out[k] = keep[k]
            continue
        e = sums[k][-1][1]
        for cond, d in reversed(sums[k][:-1]):
            e = tm.ite(cond, d, e)
        bv = bvar()
        out[k] = S(tm.add(t_of(keep[k]), tm.red("sum", bv, tm.sub(hi, lo), tm.subst(e, {i: tm.add(lo, bv)}))))
    if accs:
        for st, w, inv, old, d, nd in it.writes:
            c, v = _wc(w, inv, _generic(nd))
            if gone & (set(tm.subterms(c)) | set(tm.subterms(v))):
                raise Unsupported("stores depend on a sum carried by the loop")
        _set_locals(frame, out)


def t_of(v):
    if isinstance(v, A):
        return toreal(v.at(()), v.k)
    v = lift(v) if not isinstance(v, S) else v
    return toreal(v.t, v.k) if isinstance(v, S) else toreal(v.at(()), v.k)


def _gen_range(lo, hi, frame):
    """One generic iteration stands for all; loop-carried scalar state is rejected, array stores generalised."""
    _check_for(frame)
    i = tm.var(fresh_name("it"), "i", "0+" if lo is tm.ZERO else "")
    before = {k: id(v) for k, v in frame.f_locals.items()}
    keep = dict(frame.f_locals)
    # zero-trip case
    if not ENGINE.decide(tm.lt(lo, hi)):
        return
    spec = LOOPS.get(frame.f_code.co_name)
    if isinstance(spec, ChainSpec) and ITER:
        yield from _chain_contract(spec, lo, hi, frame)
        return
    if spec is not None and not isinstance(spec, ChainSpec):
        yield from _loop_contract(LOOPS[frame.f_code.co_name], lo, hi, frame)
        return
    ENGINE.assume(tm.le(lo, i))
    ENGINE.assume(tm.lt(i, hi))
    it = GenIter(i)
    cur = ENGINE.cur
    sizes = {k: len(v) for k, v in keep.items() if isinstance(v, (list, dict, set))}
    accs = {k: S(tm.var(fresh_name(f"%acc_{k}"), "r", "")) for k in _accumulators(frame, keep)}
    sums = {k: [] for k in accs}
    _set_locals(frame, accs)
    before.update({k: id(v) for k, v in accs.items()})
    ITER.append(it)
    loc = cur.local = Local(cur.local)
    base, work, conds, paths = len(cur.pc), [()], [], 0
    try:
        while work:
            loc.prefix, loc.taken, loc.conds = list(work.pop()), [], []
            n0 = len(it.writes)
            yield S(i, "i")
            cl = tm.and_(*loc.conds) if loc.conds else tm.TRUE
            conds += [cl] * (len(it.writes) - n0)
            if accs:
                _add_up(frame, accs, sums, cl, cur.pc[base:])
                _set_locals(frame, accs)
            work += loc.alts
            loc.alts = []
            paths += 1
            if loc.taken and (it.scratch or any(w[4] == "rows" for w in it.writes)):
                raise Unsupported("branch on symbolic condition inside a generic loop iteration")
            if work or paths > 1:
                if paths > 40:
                    raise Unsupported("branches inside a generic loop iteration")
                del cur.pc[base:]
                if [k for k, v in frame.f_locals.items() if k in before and id(v) != before[k] and not (isinstance(v, S) and v.t is i)]:
                    raise Unsupported("loop-carried variables")
                # what this branch stored or called something is unknown to the others
                undone = set()
                for st, w, inv, old, d, nd in it.writes[n0:]:
                    if st.uid not in undone:
                        undone.add(st.uid)
                        st.at = old
                        touch(st)
                _set_locals(frame, {k: STALE for k in frame.f_locals if k not in before and frame.f_locals[k] is not STALE and not (isinstance(frame.f_locals[k], S) and frame.f_locals[k].t is i)})
    except GeneratorExit:
        cur.poison = "loop left before its last iteration"
        raise
    finally:
        if it in ITER:
            ITER.remove(it)
    cur.local = loc.outer
    _totals(frame, accs, sums, keep, it, i, lo, hi)
    after = frame.f_locals
    changed = [k for k, v in after.items() if k in before and k not in accs and id(v) != before[k] and k not in ("__",)]
    changed = [k for k in changed if not (isinstance(after[k], S) and after[k].t is i)]
    changed += [k for k, n in sizes.items() if len(keep[k]) != n]
    if changed:
        raise Unsupported(f"loop-carried variables {changed}")
    for st, w, inv, old, d, nd in it.writes:
        for b in it.reads.get(st.uid, []):
            if len(b) != nd or (b[d] is not i and not tm.equal(b[d], i)):
                raise Unsupported("loop reads other iterations' stores")
    # scratch storage: unknown content after the loop
    for st in it.scratch:
        name = fresh_name("%left")
        st.at = memo_at(lambda b, name=name: tm.app(name, "", *b))
    # re-apply stores in order, generalised over the loop variable
    first = {}
    for st, w, inv, old, d, nd in it.writes:
        if st.uid not in first:
            first[st.uid] = True
            st.at = old
    for (st, w, inv, old, d, nd), cl in zip(it.writes, conds):
        if d == "rows":
            store_write(st, memo_at(rows_write(w, inv, nd, i, lo, hi)), None)
            continue

        def gen(b, w=w, inv=inv, cl=cl):
            c, v = _wc(w, inv, b)
            if c is tm.FALSE:
                return tm.FALSE, tm.ZERO
            d = _dim_of(c, b, i)
            if d is None:
                raise Unsupported("store generalisation")
            sub_ = {i: b[d]}
            return tm.and_(tm.le(lo, b[d]), tm.lt(b[d], hi), tm.subst(cl, sub_), tm.subst(c, sub_)), tm.subst(v, sub_)

        store_write(st, memo_at(gen), None)


def _rows_of(c, b, i):
    """a write to the rows start <= b[j] < start + length that the iteration chooses -> (j, start, length, the two conditions)"""
    cs = c.args if c.op == "and" else (c,)
    for j in range(len(b)):
        for x in cs:
            if x.op == "not" and x.args[0].op == "lt" and x.args[0].args[1] is tm.ZERO:
                off = x.args[0].args[0]
                start = tm.neg(tm.subst(off, {b[j]: tm.ZERO}))
                if not tm.equal(off, tm.sub(b[j], start)):
                    continue
                for y in cs:
                    if y.op == "lt" and y.args[0] is off and b[j] not in tm.subterms(y.args[1]):
                        return j, start, y.args[1], tm.and_(*[z for z in cs if z is not x and z is not y])
    return None


def _generic(nd):
    return tuple(tm.var(f"%w{j}", "i", "0+") for j in range(nd))


def rows_write(w, inv, nd, i, lo, hi):
    """the stores of all iterations, when iteration i writes the rows from start(i) up to start(i + 1)"""
    b = _generic(nd)
    c, v = _wc(w, inv, b)
    j, start, length, rest = _rows_of(c, b, i)
    nxt = tm.subst(start, {i: tm.add(i, tm.ONE)})
    hy = list(ENGINE.cur.pc) + [tm.le(lo, i), tm.lt(i, hi)]
    if lo is not tm.ZERO or not prove(hy, tm.eq(nxt, tm.add(start, length))) or not (tm.pnonneg(tm.canon(length)) or prove(hy, tm.le(tm.ZERO, length))):
        raise Unsupported("rows written by the iterations are not consecutive")
    s0 = tm.subst(start, {i: tm.ZERO})
    off = lambda g: tm.sub(tm.subst(start, {i: g}), s0)
    gr = group(hi, off)

    def gen(bb):
        r = tm.sub(bb[j], s0)
        m = {i: gr.at(r), **dict(zip(b, bb))}
        return tm.and_(tm.le(tm.ZERO, r), tm.lt(r, off(hi)), tm.subst(rest, m)), tm.subst(v, m)

    return gen


def _wc(w, inv, b):
    if inv:
        c, idx = inv(b)
        c2, v = w(idx)
        return tm.and_(c, c2), v
    return w(b)


def _dim_of(c, b, i):
    cs = c.args if c.op == "and" else (c,)
    for j in range(len(b)):
        for x in cs:
            if x is tm.eq(b[j], i) or x is tm.eq(i, b[j]):
                return j
    # index may be an expression; accept eq(expr, i)
    for x in cs:
        if x.op == "eq" and i in x.args:
            o = x.args[0] if x.args[1] is i else x.args[1]
            for j in range(len(b)):
                if b[j] is o:
                    return j
    return None


def _check_for(frame):
    """the symbolic iterable must be driven by a ``for`` statement (not list(), sum() or a comprehension)"""
    ins = list(dis.get_instructions(frame.f_code))
    here = [x for x in ins if x.offset == frame.f_lasti] or [x for x in ins if x.offset == frame.f_lasti - 2 and x.opname == "FOR_ITER"]
    if not here or here[0].opname != "FOR_ITER":
        raise Unsupported(f"symbolic iterable consumed other than by a for statement ({frame.f_code.co_name}:{frame.f_lineno} {here[0].opname if here else None})")
    here = here[0]
    body = [x for x in ins if here.offset < x.offset < here.argval]
    inner = [(x.offset, x.argval) for x in body if x.opname == "FOR_ITER"]
    for x in body:
        if x.opname in ("LIST_APPEND", "SET_ADD", "MAP_ADD", "YIELD_VALUE"):
            depth = sum(1 for p, q in inner if p < x.offset < q)
            if x.opname == "YIELD_VALUE" or depth < 1 or (x.opname != "MAP_ADD" and x.arg - 1 > depth):
                raise Unsupported("comprehension over a symbolic iterable")


class SymZip:
    """zip of arrays of one symbolic length"""

    def __init__(self, xs):
        self.xs = xs
        arrs = [x for x in xs if isinstance(x, A)]
        if len(arrs) != len(xs):
            raise Unsupported("zip of mixed")
        self.n = arrs[0].shape_t[0]
        for a in arrs[1:]:
            if not same_dim(a.shape_t[0], self.n):
                raise Unsupported("zip of different lengths")

    def __getitem__(self, i):
        return tuple(x[i] for x in self.xs)

    def __iter__(self):
        fr = sys._getframe(1)
        return (self[i] for i in _gen_range(tm.ZERO, self.n, fr))


def sym_enumerate(x, start=0):
    if isinstance(x, SymZip) or (isinstance(x, A) and x.ndim and not tm.isnum(x.shape_t[0])):
        fr = sys._getframe(1)
        n = x.n if isinstance(x, SymZip) else x.shape_t[0]
        return ((i + start if start else i, x[i]) for i in _gen_range(tm.ZERO, n, fr))
    return builtins.enumerate(x, start)


def sym_zip(*xs, **k):
    if any(isinstance(x, SymZip) or (isinstance(x, A) and x.ndim and not tm.isnum(x.shape_t[0])) for x in xs):
        return SymZip(xs)
    return builtins.zip(*xs, **k)


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.float) or (isinstance(x, S) and x.k == "r")


class sym_float(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, S):
            return S(toreal(x.t, x.k), "r")
        if isinstance(x, A):
            if x.ndim == 0:
                return S(toreal(x.t, x.k), "r")
            raise Unsupported("float(array)")
        return builtins.float(x)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, S) and x.k == "i")


class sym_int(metaclass=_IntMeta):
    def __new__(cls, x=0):
        if isinstance(x, S):
            return S(conv(x.t, x.k, "i"), "i")
        if isinstance(x, A) and x.ndim == 0:
            return S(conv(x.t, x.k, "i"), "i")
        return builtins.int(x)


def sym_max(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], A):
            return reduce_("max", a[0])
        a = tuple(a[0])
    if any(is_sym(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = elementwise("maximum", (r, x))
        return r
    return builtins.max(*a, **k)


def sym_min(*a, **k):
    if len(a) == 1:
        if isinstance(a[0], A):
            return reduce_("min", a[0])
        a = tuple(a[0])
    if any(is_sym(x) for x in a):
        r = a[0]
        for x in a[1:]:
            r = elementwise("minimum", (r, x))
        return r
    return builtins.min(*a, **k)


def sym_sum(x, start=0):
    if isinstance(x, A):
        return reduce_("sum", x) + start
    return builtins.sum(x, start)


def sym_any(x):
    if isinstance(x, A):
        return reduce_("any", x)
    return builtins.any(x)


def sym_all(x):
    if isinstance(x, A):
        return reduce_("all", x)
    return builtins.all(x)


class SymList:
    """the elements of symbolic arrays as a list: only its number of distinct elements is asked for (unknown, not negative)"""

    def __init__(self, parts):
        self.parts = parts

    def __add__(self, o):
        return SymList(self.parts + (o.parts if isinstance(o, SymList) else [o]))

    def __radd__(self, o):
        return SymList([o] + self.parts)


class SymSet(SymList):
    pass


class _SetMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.set, SymSet))


class sym_set(metaclass=_SetMeta):
    def __new__(cls, x=()):
        if isinstance(x, SymList):
            return SymSet(x.parts)
        return builtins.set(x)


BUILTINS = {
    "len": sym_len, "range": sym_range, "enumerate": sym_enumerate, "zip": sym_zip, "float": sym_float,
    "set": sym_set, "int": sym_int, "max": sym_max, "min": sym_min, "sum": sym_sum, "any": sym_any, "all": sym_all,
}


# ------------------------------------------------------------------ numpy proxy for constructors and constants
def _c(f, real):
    def g(*a, **k):
        return f(*a, **k)

    g.__name__ = real.__name__
    return g


def np_array(x, dtype=None, copy=None, **k):
    if is_sym(x) or (isinstance(x, (list, tuple)) and _has_sym(x)):
        r = lift(x)
        if isinstance(r, S):
            r = lift0(r)
        if dtype is not None:
            r = cast(r, dtype)
        elif isinstance(r, A):
            r = r.copy()
        return r
    return np.array(x, dtype=dtype, **k)


def np_asarray(x, dtype=None, **k):
    if isinstance(x, A):
        return x if dtype is None or kind_of(dtype) == x.k else cast(x, dtype)
    if isinstance(x, S) or (isinstance(x, (list, tuple)) and _has_sym(x)):
        return np_array(x, dtype)
    return np.asarray(x, dtype=dtype, **k)


def _has_sym(x):
    return builtins.any(is_sym(y) or (isinstance(y, (list, tuple)) and _has_sym(y)) for y in x)


def _symnum(real, tfun):
    """constants: np.sqrt(2) and friends stay exact"""

    def g(x, *a, **k):
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return S(tfun(tm.num(x)))
        return real(x, *a, **k)

    g.__name__ = real.__name__
    return g


def np_isscalar(x):
    return isinstance(x, S) or np.isscalar(x)


def np_iterable(x):
    if isinstance(x, A):
        return x.ndim > 0
    if isinstance(x, S):
        return False
    return np.iterable(x)


def _zeros(shape, *a, **k):
    return c_zeros(shape, *a, **k)


OVER = {
    "zeros": c_zeros, "ones": c_ones, "full": c_full, "empty": c_empty, "linspace": c_linspace, "logspace": c_logspace,
    "geomspace": c_geomspace, "arange": c_arange, "array": np_array, "asarray": np_asarray, "asanyarray": np_asarray,
    "isscalar": np_isscalar, "iterable": np_iterable, "ascontiguousarray": np_asarray,
    "log": _symnum(np.log, t_log), "log10": _symnum(np.log10, UF["log10"][0]), "sqrt": _symnum(np.sqrt, UF["sqrt"][0]),
    "exp": _symnum(np.exp, t_fn("exp")), "sin": _symnum(np.sin, t_fn("sin")), "cos": _symnum(np.cos, t_fn("cos")),
    "log2": _symnum(np.log2, UF["log2"][0]), "arctan": _symnum(np.arctan, t_fn("arctan")),
    "atleast_1d": lambda x: _al1(x) if is_sym(x) else np.atleast_1d(x),
    "zeros_like": lambda x, *a, **k: af_zeros_like(x, *a, **k) if (is_sym(x) or np.ndim(x) <= 1) else np.zeros_like(x, *a, **k),
    "ones_like": lambda x, *a, **k: af_ones_like(x, *a, **k) if (is_sym(x) or np.ndim(x) <= 1) else np.ones_like(x, *a, **k),
    "concatenate": lambda xs, *a, **k: _concat(xs, *a, **k) if _has_sym(list(xs)) else np.concatenate(xs, *a, **k),
    "where": lambda c, *a: _where(c, *a) if (is_sym(c) or _has_sym(a)) else np.where(c, *a),
    "float64": sym_float, "min": lambda x, *a, **k: reduce_("min", x, *a, **k) if is_sym(x) else np.min(x, *a, **k),
    "max": lambda x, *a, **k: reduce_("max", x, *a, **k) if is_sym(x) else np.max(x, *a, **k),
}


class NP(types.ModuleType):
    """numpy as seen by halomod modules during a symbolic session."""

    def __init__(self):
        super().__init__("numpy")

    def __getattr__(self, n):
        if n == "pi":
            return S(tm.PI)
        if n == "e":
            return S(tm.fn("exp", tm.ONE))
        if n in OVER:
            return OVER[n]
        return getattr(np, n)


NPX = NP()


class ModProxy(types.ModuleType):
    def __init__(self, real, over):
        super().__init__(real.__name__)
        self.__dict__["_real"] = real
        self.__dict__["_over"] = over

    def __getattr__(self, n):
        o = self.__dict__["_over"]
        if n in o:
            return o[n]
        return getattr(self.__dict__["_real"], n)


def sym_quad(f, a, b, *args, **k):
    """definite integral as a binder over a real variable"""
    raise Unsupported("quad")


@contextlib.contextmanager
def session(modules, extra=None):
    """Patch module globals of the code under contract so that constructors/builtins accept symbolic values."""
    import math

    import scipy.constants
    import scipy.integrate as si
    import scipy.interpolate as sint

    extra = extra or {}
    real_over = {}
    for n, v in OVER.items():
        if hasattr(np, n):
            real_over[id(getattr(np, n))] = v
    real_over[id(si.simpson)] = sym_simpson
    real_over[id(si.trapezoid)] = sym_trapezoid
    for real, v in extra.items() if not isinstance(extra, dict) else []:
        pass
    for pair in extra.get("identity", []):
        real_over[id(pair[0])] = pair[1]
    real_over[id(si.cumulative_trapezoid)] = sym_cumtrapz
    si_over = {"cumulative_trapezoid": sym_cumtrapz, "simpson": sym_simpson, "simps": sym_simpson, "trapezoid": sym_trapezoid, "trapz": sym_trapezoid, "quad": sym_quad}
    si_over.update(extra.get("integrate", {}))
    sint_over = dict(extra.get("interpolate", {}))
    for n, v in si_over.items():
        if hasattr(si, n):
            real_over[id(getattr(si, n))] = v
    for n, v in sint_over.items():
        if hasattr(sint, n):
            real_over[id(getattr(sint, n))] = v
    proxies = {
        id(np): NPX,
        id(si): ModProxy(si, si_over),
        id(sint): ModProxy(sint, sint_over),
        id(math): ModProxy(math, {"pi": S(tm.PI), "sqrt": OVER["sqrt"], "log": OVER["log"], "exp": OVER["exp"], "log10": OVER["log10"],
                                  "floor": lambda x: cast(elementwise("floor", (x,)), int) if is_sym(x) else math.floor(x),
                                  "ceil": lambda x: cast(elementwise("ceil", (x,)), int) if is_sym(x) else math.ceil(x)}),
    }
    try:
        import mpmath

        proxies.setdefault(id(mpmath), ModProxy(mpmath, extra.get("mpmath", {})))
    except ImportError:
        pass
    import scipy

    proxies[id(scipy)] = ModProxy(scipy, {"integrate": proxies[id(si)], "interpolate": proxies[id(sint)]})
    saved = []
    missing = object()
    for mod in modules:
        d = mod.__dict__
        names = list(d)
        for n in names:
            v = d[n]
            new = missing
            if id(v) in proxies:
                new = proxies[id(v)]
            elif id(v) in real_over and not isinstance(v, type):
                new = real_over[id(v)]
            elif id(v) in real_over and n not in BUILTINS:
                new = real_over[id(v)]
            elif type(v).__name__ == "CPUDispatcher":
                new = v.py_func
            if new is not missing:
                saved.append((d, n, v))
                d[n] = new
        for n, v in BUILTINS.items():
            if n not in d or d[n] is getattr(builtins, n):
                saved.append((d, n, d.get(n, missing)))
                d[n] = v
        for n, v in extra.get("globals", {}).items():
            if n in d:
                saved.append((d, n, d[n]))
                d[n] = v
    for mod in modules:
        d = mod.__dict__
        for n, specs in extra.get("whiles", {}).items():
            if isinstance(d.get(n), types.FunctionType) and d[n].__module__ == mod.__name__:
                saved.append((d, n, d[n]))
                d[n] = mark_whiles(d[n], len(specs))
                for mk, f in (("__pyvc_while_head__", while_head), ("__pyvc_while_exit__", while_exit)):
                    saved.append((d, mk, d.get(mk, missing)))
                    d[mk] = f
    COMPACT[0] = bool(extra.get("compact"))
    LOOPS.update(extra.get("loops", {}))
    OPAQUE.update(extra.get("opaque", {}))
    ROLES.update(extra.get("roles", {}))
    WHILES.update(extra.get("whiles", {}))
    try:
        yield
    finally:
        COMPACT[0] = False
        LOOPS.clear()
        OPAQUE.clear()
        ROLES.clear()
        WHILES.clear()
        for d, n, v in reversed(saved):
            if v is missing:
                d.pop(n, None)
            else:
                d[n] = v


# ------------------------------------------------------------------ symbolic inputs
def scalar(name, sign="", k="r"):
    return S(tm.var(name, "i" if k == "i" else "r", sign), k)


def intvar(name, sign="+"):
    return S(tm.var(name, "i", sign), "i")


def array(name, *dims, sign="", k="r"):
    dims = tuple(as_index(d) for d in dims)
    out = A(dims, lambda idx: tm.app(name, sign, *idx), k)
    out.store.frame = (name, out.shape_t)
    return out


def boolarray(name, *dims):
    dims = tuple(as_index(d) for d in dims)
    return A(dims, lambda idx: tm.mk("bapp", name, *idx), "b")


def elem(x, *idx):
    """term of the element of x at idx (broadcasting S)"""
    x = lift(x)
    idx = tuple(as_index(i) for i in idx)
    if isinstance(x, S):
        return toreal(x.t, x.k)
    return toreal(x.at(idx), x.k)
