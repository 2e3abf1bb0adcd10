"""C10 -- integrals over mass are the integral of the interpolated integrand between the limits asked for."""

from __future__ import annotations

import warnings

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, array, elem, scalar

from .common import *


def check(C):
    import halomod.tools as T
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    C.assumptions += ["scipy InterpolatedUnivariateSpline.integral is the exact integral of the interpolating spline (assumed contract; compared at run time with an independent quadrature)"]
    x, f = array("x", N, sign="+"), array("f", N)
    lo, hi = scalar("lo", "+"), scalar("hi", "+")
    lo0, hi0 = scalar("lo0", "0+"), scalar("hi0", "0+")
    F = "halomod.tools.spline_integral"
    ex = {"identity": [(IUS, sym.SymSplineI)]}
    hy = [tm.lt(tm.num(4), N)]
    RG = {"n": (5, 7), "x": (0.5, 2), "f": (-1, 1), "lo": (0.6, 1), "hi": (1, 2), "lo0": (0, 1), "hi0": (0, 2)}

    def want(log, a, b_):
        bv = sym.bvar()
        X, Fv = tm.app("x", "+", bv), tm.app("f", "", bv)
        mn, mx = t(x.min()), t(x.max())
        a = mn if a is None else t(a)
        b_ = mx if b_ is None else t(b_)
        ln = lambda q: tm.fn("log", q)
        if log:
            return tm.red("splint", bv, N, tm.mul(X, Fv), ln(X), ln(a), ln(b_))
        return tm.red("splint", bv, N, Fv, X, a, b_)

    for log in (True, False):
        for a, b_ in ((None, None), (lo, None), (None, hi), (lo, hi)):
            nm = f"{F} ({'ln x' if log else 'x'}, from {'xmin' if a is not None else 'the first point'} to {'xmax' if b_ is not None else 'the last point'})"
            C.prove(nm, lambda log=log, a=a, b_=b_: T.spline_integral(x, f, xmin=a, xmax=b_, log=log), lambda r, log=log, a=a, b_=b_: {"integral of the interpolated integrand between the limits": tm.eq(t(r), want(log, a, b_))}, hy, RG, F, extra=ex)
    C.prove(f"{F} (x, limits may be zero)", lambda: T.spline_integral(x, f, xmin=lo0, xmax=hi0, log=False), lambda r: {"integral of the interpolated integrand between the limits": tm.eq(t(r), want(False, lo0, hi0))}, hy, RG, F, extra=ex)

    # ---------------------------------------------------------------- bounded run-time oracles
    gx, gw = np.polynomial.legendre.leggauss(12)

    def quad_spline(sp, knots, a, b_):
        k = np.unique(np.clip(np.concatenate([[min(a, b_), max(a, b_)], knots]), min(a, b_), max(a, b_)))
        tot = 0.0
        for p, q in zip(k[:-1], k[1:]):
            tot += (q - p) / 2 * np.sum(gw * sp((p + q) / 2 + (q - p) / 2 * gx))
        return tot if b_ >= a else -tot

    def run_b(rg, i, rc):
        n = int(rg.integers(5, 60))
        log = bool(rg.integers(2))
        if log:
            xs = np.geomspace(logu(rg, 1e-3, 1e10), logu(rg, 1e11, 1e17), n) if rg.random() < 0.5 else np.unique(logu(rg, 1e-2, 1e2, n + 3))
        else:
            a0 = pick(rg, [0.0, -3.0, 1.0])
            xs = np.unique(np.concatenate([[a0, 0.0] if a0 < 0 else [a0], a0 + rg.uniform(0.1, 6, n)]))
        xs = xs[np.concatenate([[True], np.diff(np.log(xs) if log else xs) > 1e-4])]
        if len(xs) < 5:
            xs = np.linspace(1, 2, 6)
        fs = rg.normal(size=len(xs)) / (xs if log else 1)
        tr = np.log if log else (lambda q: q)
        u = tr(xs)
        inner = np.sort(rg.uniform(u[0], u[-1], 2))
        back = np.exp if log else (lambda q: q)
        choices_lo = [None, float(xs[0]), float(back(inner[0]))] + ([0.0] if not log and xs[0] <= 0 else [])
        choices_hi = [None, float(xs[-1]), float(back(inner[1]))] + ([0.0] if not log and xs[0] < 0 else [])
        a, b_ = pick(rg, choices_lo), pick(rg, choices_hi)
        rc.rec(log=log, x=xs, f=fs, xmin=a, xmax=b_)
        x0, f0 = xs.copy(), fs.copy()
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            got = T.spline_integral(xs, fs, xmin=a, xmax=b_, log=log)
        rc.ok(not ws, "no extrapolation is reported inside the table")
        rc.ok(np.array_equal(xs, x0) and np.array_equal(fs, f0), "inputs are left unchanged")
        sp = IUS(u, (xs * fs) if log else fs)
        ua, ub = (u[0] if a is None else tr(a)), (u[-1] if b_ is None else tr(b_))
        want_ = quad_spline(sp, u, ua, ub)
        sc = np.abs(quad_spline(lambda q: np.abs(sp(q)), u, min(ua, ub), max(ua, ub))) + 1e-300
        rc.close(got, want_, "integral of the interpolated integrand", 1e-8, 1e-8 * sc)
        mid = float(back((ua + ub) / 2))
        if ua < ub:
            p1, p2 = T.spline_integral(xs, fs, xmin=a, xmax=mid, log=log), T.spline_integral(xs, fs, xmin=mid, xmax=b_, log=log)
            rc.close(p1 + p2, got, "additive over adjoining ranges", 1e-8, 1e-7 * sc)
        rc.close(T.spline_integral(xs, -2.5 * fs, xmin=a, xmax=b_, log=log), -2.5 * got, "linear in the integrand", 1e-9, 1e-10 * sc)

    C.case("random tables", run_b, 300 if C.tier == "quick" else 6000, "random tables, limits inside the table (zero included), linear and logarithmic")

    def run_p(rg, i, rc):
        al = rg.uniform(-3, 2)
        xs = np.geomspace(1e9, 1e16, 400)
        a, b_ = np.sort(logu(rg, 1e9, 1e16, 2))
        rc.rec(slope=al, xmin=a, xmax=b_)
        w = (b_ ** (al + 1) - a ** (al + 1)) / (al + 1)
        rc.close(T.spline_integral(xs, xs**al, xmin=a, xmax=b_), w, "power-law integral", 1e-5)

    C.case("power laws", run_p, 40 if C.tier == "quick" else 1000)

    def run_w(rg, i, rc):
        xs = np.geomspace(1, 10, 20)
        rc.rec(i=i)
        for kw in (dict(xmin=0.5), dict(xmax=20.0)):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                T.spline_integral(xs, xs, **kw)
            rc.ok(len(ws) == 1, f"extrapolation is reported for {kw}")
        for kw in (dict(xmin=0.0), dict(xmax=-0.0, xmin=-1.0)):
            with warnings.catch_warnings(record=True) as ws:
                warnings.simplefilter("always")
                T.spline_integral(xs, xs, log=False, **kw)
            rc.ok(len(ws) >= 1, f"extrapolation is reported for {kw}")

    C.case("extrapolation is reported", run_w, 1)
