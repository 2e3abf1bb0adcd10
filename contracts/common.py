"""Shared helpers of the contract files (specification side; nothing here is code under verification)."""

from __future__ import annotations

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.terms import Unsupported
from pyvc.sym import S, A, elem, array, scalar, intvar

I = tm.var("i", "i", "0+")
J = tm.var("j", "i", "0+")
L = tm.var("l", "i", "0+")
N = tm.var("n", "i", "+")
NM = tm.var("nm", "i", "+")
NK = tm.var("nk", "i", "+")
NR = tm.var("nr", "i", "+")


def inb(i, n):
    """0 <= i < n (i already '0+')"""
    return tm.lt(i, n)


def t(x):
    """term of a scalar spec value"""
    x = sym.lift(x)
    if isinstance(x, A):
        return sym.toreal(x.t, x.k)
    return sym.toreal(x.t, x.k)


def b(x):
    x = sym.lift(x)
    return sym.tobool(x.t, x.k)


def eq(a, c):
    return tm.eq(a if isinstance(a, tm.T) else t(a), c if isinstance(c, tm.T) else t(c))


def le(a, c):
    return tm.le(a if isinstance(a, tm.T) else t(a), c if isinstance(c, tm.T) else t(c))


def lt(a, c):
    return tm.lt(a if isinstance(a, tm.T) else t(a), c if isinstance(c, tm.T) else t(c))


def shape_is(x, *dims):
    x = sym.lift(x)
    d = tuple(sym.as_index(k) for k in dims)
    if len(x.shape_t) != len(d):
        return tm.FALSE
    return tm.and_(*[tm.TRUE if tm.equal(p, q) else tm.eq(p, q) for p, q in zip(x.shape_t, d)])


class OutsideContract(AttributeError):
    """the code under contract uses something its contract says nothing about: not decided (neither accepted nor refuted)"""

    pyvc_unsupported = True


class Opaque:
    """A parameter the contract says nothing about: the code may read it (e.g. to register a dependence), not use its value."""

    def __init__(self, name):
        object.__setattr__(self, "_opaque", name)

    def _stop(self, *a, **k):
        raise Unsupported(f"uses the value of parameter {object.__getattribute__(self, '_opaque')}, on which the contract says nothing")

    __getattr__ = __call__ = __getitem__ = __iter__ = __len__ = __bool__ = __eq__ = __ne__ = __lt__ = __le__ = __gt__ = __ge__ = _stop
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __rpow__ = __neg__ = __float__ = __int__ = __contains__ = _stop
    __hash__ = object.__hash__


class Mock:
    """Stand-in for ``self``: attributes given by contracts first, otherwise the real class's own code is inlined."""

    def __init__(self, cls, **given):
        object.__setattr__(self, "_cls", cls)
        object.__setattr__(self, "_given", dict(given))
        object.__setattr__(self, "_cache", {})
        object.__setattr__(self, "_depth", [0])

    def __setattr__(self, n, v):
        self._given[n] = v

    def __getattr__(self, name):
        given = object.__getattribute__(self, "_given")
        if name in given:
            v = given[name]
            return v(self) if getattr(v, "_lazy", False) else v
        cache = object.__getattribute__(self, "_cache")
        if name in cache:
            return cache[name]
        cls = object.__getattribute__(self, "_cls")
        for k in cls.__mro__:
            if name in k.__dict__:
                a = k.__dict__[name]
                break
        else:
            raise OutsideContract(f"{cls.__name__} contract mock has no attribute {name}")
        if isinstance(a, property) and a.fset is not None:
            return Opaque(name)
        if isinstance(a, property):
            raw = unwrap(a.fget)
            v = raw(self)
            cache[name] = v
            return v
        if isinstance(a, staticmethod):
            return a.__func__
        if isinstance(a, classmethod):
            return a.__func__.__get__(cls)
        if callable(a):
            return unwrap(a).__get__(self)
        return a


def unwrap(f):
    while hasattr(f, "__wrapped__"):
        f = f.__wrapped__
    return f


def lazy(f):
    f._lazy = True
    return f


def raw(cls, name):
    """the undecorated function object behind a method / property / cached quantity of the real class"""
    for k in cls.__mro__:
        if name in k.__dict__:
            a = k.__dict__[name]
            if isinstance(a, property):
                return unwrap(a.fget)
            if isinstance(a, (staticmethod, classmethod)):
                return a.__func__
            return unwrap(a)
    raise AttributeError(name)


def logu(rng, lo, hi, n=None):
    return np.exp(rng.uniform(np.log(lo), np.log(hi), n))


def pick(rng, xs):
    return xs[int(rng.integers(len(xs)))]


def uf(name, sign=""):
    """an uninterpreted elementwise function (stands for any function a user or another module supplies)"""

    def f(*args, **kw):
        return sym.broadcast(lambda ts: tm.app(name, sign, *ts), [sym.lift(a) for a in args if a is not None], "r")

    return f


def new(cls, **attrs):
    """an instance of the real class with attributes given by contract (no constructor run)"""
    o = cls.__new__(cls)
    o.__dict__.update(attrs)
    return o


def ap(name, *ts, sign=""):
    return S(tm.app(name, sign, *[x if isinstance(x, tm.T) else t(x) for x in ts]))


def TF(d):
    return {k: (tm.TRUE if x else tm.FALSE) for k, x in d.items()}


def power_law_beyond(rc, f, x, y, up, msg, n=10):
    """bounded oracle: beyond the end of the table the function is a power law whose slope is one of the slopes at that end"""
    e = slice(-n, None) if up else slice(0, n)
    xe, ye = np.asarray(x, float)[e], np.asarray(y, float)[e]
    if not (np.all(ye > 0) or np.all(ye < 0)):
        return
    q = xe[-1] * np.array([1.5, 3.0, 6.0, 20.0]) if up else xe[0] / np.array([1.5, 3.0, 6.0, 20.0])
    v = np.asarray(f(q)) * np.sign(ye[0])
    rc.ok(np.all(v > 0), f"{msg}: keeps the sign of the table ({v} at {q})")
    sl = np.diff(np.log(v)) / np.diff(np.log(q))
    rc.close(sl, sl[0], f"{msg}: one slope", rtol=1e-6, atol=1e-6)
    loc = np.diff(np.log(np.abs(ye))) / np.diff(np.log(xe))
    w = 0.05 * (1 + np.ptp(loc))
    rc.ok(loc.min() - w <= sl[0] <= loc.max() + w, f"{msg}: the slope of the end of the table: slope {sl[0]:.6g}, table's between {loc.min():.6g} and {loc.max():.6g}")


class ColossusState:
    """contract of colossus' global cosmology (external): `fromAstropy` makes and sets one, `setCurrent` sets one, every
    colossus function uses the current one; `other()` is another model setting its own in between"""

    class Token:
        def __init__(self, cosmo, kw):
            self.cosmo, self.kw = cosmo, kw

    def __init__(self):
        self.current = None

    def fromAstropy(self, cosmo, sigma8=None, ns=None, cosmo_name=None, **kw):
        self.current = self.Token(cosmo, dict(sigma8=sigma8, ns=ns))
        return self.current

    def setCurrent(self, c):
        self.current = c

    def other(self):
        self.current = self.Token(None, {})

    def globals(self):
        return {"fromAstropy": self.fromAstropy, "setCurrent": self.setCurrent}
