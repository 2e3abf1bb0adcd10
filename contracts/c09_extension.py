"""C09 -- tabulated functions interpolate inside their range and extend outside it as requested."""

from __future__ import annotations

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, array, elem, scalar

from .common import *


def check(C):
    import halomod.tools as T
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS
    from scipy.interpolate import UnivariateSpline as US

    C.assumptions += [
        "scipy InterpolatedUnivariateSpline interpolates its table and UnivariateSpline(k=1) fits it in the logarithm (assumed contracts, checked at run time)",
        "NaN arguments are outside the contract",
    ]
    lo_, hi_ = scalar("xlo"), scalar("xhi")
    F = "halomod.tools.ExtendedSpline"
    spl, lf, uf_ = uf("spl"), uf("lf"), uf("uf")
    hy = [tm.lt(I, N), tm.lt(J, NM), tm.lt(t(lo_), t(hi_))]
    RG = {"xlo": (0, 1), "xhi": (1, 2), "v": (-1, 3), "w": (-1, 3), "s": (-1, 3), "n": (2, 4), "nm": (2, 4), "x": (0.5, 3), "y": (-2, 2)}
    v, w, s = array("v", N), array("w", N, NM), scalar("s")

    def obj():
        return new(T.ExtendedSpline, xmin=lo_, xmax=hi_, _spl=spl, lfunc=lf, ufunc=uf_)

    def want(x):
        return tm.ite(tm.lt(x, t(lo_)), tm.app("lf", "", x), tm.ite(tm.lt(t(hi_), x), tm.app("uf", "", x), tm.app("spl", "", x)))

    C.prove(f"{F}.__call__ (vector)", lambda: obj()(v), lambda r: {"lower extension, spline, upper extension": tm.eq(elem(r, I), want(tm.app("v", "", I))), "shape": shape_is(r, N)}, hy, RG, F + ".__call__")
    C.prove(f"{F}.__call__ (matrix)", lambda: obj()(w), lambda r: {"lower extension, spline, upper extension": tm.eq(elem(r, I, J), want(tm.app("w", "", I, J))), "shape": shape_is(r, N, NM)}, hy, RG, F + ".__call__")
    C.prove(f"{F}.__call__ (scalar)", lambda: obj()(s), lambda r: {"lower extension, spline, upper extension": tm.eq(t(r), want(t(s)))}, hy, RG, F + ".__call__")

    iv = array("iv", N, k="i")
    C.prove(f"{F}.__call__ (integers)", lambda: obj()(iv), lambda r: {"not rounded": tm.eq(elem(r, I), want(tm.app("iv", "", I)))}, hy, RG, F + ".__call__")

    # --- construction
    n10 = [*hy, tm.le(tm.num(10), N)]
    x, y = array("x", N), array("y", N)
    ex = {"identity": [(IUS, sym.SymSplineI)]}

    def xspl(q):
        bv = sym.bvar()
        return tm.red("spl", bv, N, tm.app("y", "", bv), tm.app("x", "", bv), q)

    def mk(low, up):
        def f():
            got = {}

            class E_(T.ExtendedSpline):
                def _get_extension_func(self, fnc, xx, yy, match, match_x):
                    got[fnc] = (xx, yy, match, match_x)
                    return (lambda q: fnc)

            o = E_.__new__(E_)
            T.ExtendedSpline.__init__(o, x, y, lower_func="L", upper_func="U", match_lower=low, match_upper=up)
            return o, got
        return f

    def post(low, up):
        def f(r):
            o, got = r
            bv = sym.bvar()
            mn, mx = t(x.min()), t(x.max())
            K = tm.num(3)
            d = {
                "range is that of the table": tm.and_(tm.eq(t(o.xmin), mn), tm.eq(t(o.xmax), mx)),
                "inside is the interpolating spline of the table": tm.eq(t(o._spl(s)), xspl(t(s))),
                "each side has its own function": tm.TRUE if o.lfunc(0) == "L" and o.ufunc(0) == "U" else tm.FALSE,
                "each side matches where asked": tm.TRUE if got["L"][2] is low and got["U"][2] is up else tm.FALSE,
                "lower side meets the table at its first point": tm.eq(t(got["L"][3]), mn),
                "upper side meets the table at its last point": tm.eq(t(got["U"][3]), mx),
                "lower trend uses the first points": tm.and_(tm.eq(elem(got["L"][0], K), tm.app("x", "", K)), tm.eq(elem(got["L"][1], K), tm.app("y", "", K)), shape_is(got["L"][0], 10), shape_is(got["L"][1], 10)),
                "upper trend uses the last points": tm.and_(tm.eq(elem(got["U"][0], K), tm.app("x", "", tm.add(N, tm.num(-7)))), tm.eq(elem(got["U"][1], K), tm.app("y", "", tm.add(N, tm.num(-7)))), shape_is(got["U"][0], 10), shape_is(got["U"][1], 10)),
            }
            return d
        return f

    for low, up in ((True, False), (False, True)):
        C.prove(f"{F}.__init__ (match {'lower' if low else 'upper'})", mk(low, up), post(low, up), n10, RG, F + ".__init__", extra=ex)

    f_ = uf("f")
    mx_ = scalar("mx")

    def ext(fnc, match=True, xx=x, yy=y):
        return lambda: new(T.ExtendedSpline, _spl=spl)._get_extension_func(fnc, xx, yy, match, mx_)(s)

    fm, sm = tm.app("f", "", t(mx_)), tm.app("spl", "", t(mx_))
    g = F + "._get_extension_func"
    C.prove(f"{g} (function, matched)", ext(f_), lambda r: {"scaled to meet the table": ([tm.not_(tm.eq(fm, tm.ZERO))], tm.eq(tm.mul(t(r), fm), tm.mul(tm.app("f", "", t(s)), sm))), "as it is where it vanishes at the edge": ([tm.eq(fm, tm.ZERO)], tm.eq(t(r), tm.app("f", "", t(s))))}, hy, RG, [g, "halomod.tools._NormedCallable.__call__"])
    C.prove(f"{g} (function, matched, at the edge)", lambda: new(T.ExtendedSpline, _spl=spl)._get_extension_func(f_, x, y, True, mx_)(mx_), lambda r: {"continuous": ([tm.not_(tm.eq(fm, tm.ZERO))], tm.eq(t(r), sm))}, hy, RG, [g])
    C.prove(f"{g} (function, not matched)", ext(f_, False), lambda r: {"the function itself": tm.eq(t(r), tm.app("f", "", t(s)))}, hy, RG, g)
    C.prove(f"{g} (boundary)", ext("boundary"), lambda r: {"value at the edge": tm.eq(t(r), sm)}, hy, RG, [g, "halomod.tools._BoundaryExtension.__call__"])
    C.prove(f"{g} (none)", ext(None), lambda r: {"the spline continues": tm.eq(t(r), tm.app("spl", "", t(s)))}, hy, RG, g)
    C.prove(f"{g} (zero)", ext(T._zero, False), lambda r: {"zero": tm.eq(t(r), tm.ZERO)}, hy, RG, [g, "halomod.tools._zero"])
    C.prove(f"{g} (zero, matched)", ext(T._zero, True), lambda r: {"zero": tm.eq(t(r), tm.ZERO)}, hy, RG, [g, "halomod.tools._zero"])
    C.prove("halomod.tools._zero (vector)", lambda: T._zero(v), lambda r: {"zero": tm.eq(elem(r, I), tm.ZERO), "shape": shape_is(r, N)}, hy, RG, "halomod.tools._zero")

    def fakeus(xx, yy, k=3, **kw):
        if kw or k != 1:
            raise sym.Unsupported("smoothing spline options")

        def ev(q):
            q = sym.lift(q)
            bv = sym.bvar()
            return sym.broadcast(lambda ts: tm.red("nl:trend", bv, N, sym.toreal(yy.at((bv,)), yy.k), sym.toreal(xx.at((bv,)), xx.k), ts[0]), [q], "r")
        return ev

    xp, sp = array("xp", N, sign="+"), scalar("sp", "+")
    for sg, nm in ((1, "positive"), (-1, "negative")):
        yp = array("yp", N, sign="+")
        yy = yp * sg if sg < 0 else yp

        def run(yy=yy):
            return new(T.ExtendedSpline, _spl=spl)._get_extension_func("power_law", xp, yy, True, mx_)(sp)

        def pst(r, sg=sg):
            bv = sym.bvar()
            tr = tm.red("nl:trend", bv, N, tm.fn("log", tm.app("yp", "+", bv)), tm.fn("log", tm.app("xp", "+", bv)), tm.fn("log", t(sp)))
            return {"linear trend of log|y| in log x, with the sign of the table": tm.eq(t(r), tm.mul(tm.num(sg), tm.fn("exp", tr)))}

        C.prove(f"{g} (power law, {nm})", run, pst, hy, {**RG, "xp": (0.5, 2), "yp": (0.5, 2), "sp": (0.5, 2)}, [g, "halomod.tools._PowerLawExtension.__call__"], extra={"identity": [(IUS, sym.SymSplineI), (US, fakeus)]})

    a1, a2, off = uf("g1"), uf("g2"), scalar("off")
    C.prove("halomod.tools._SumCallable.__call__", lambda: T._SumCallable(a1, a2, off)(v), lambda r: {"sum of both plus the offset": tm.eq(elem(r, I), tm.add(tm.app("g1", "", tm.app("v", "", I)), tm.app("g2", "", tm.app("v", "", I)), t(off)))}, hy, RG, "halomod.tools._SumCallable.__call__")
    C.prove("halomod.tools._SumCallable.__call__ (no offset)", lambda: T._SumCallable(a1, a2)(v), lambda r: {"sum of both": tm.eq(elem(r, I), tm.add(tm.app("g1", "", tm.app("v", "", I)), tm.app("g2", "", tm.app("v", "", I))))}, hy, RG, "halomod.tools._SumCallable.__call__")
    kp = array("kp", N, sign="+")
    C.prove("halomod.tools._PowerLawK.__call__", lambda: T._PowerLawK(off)(kp), lambda r: {"power of k": tm.eq(elem(r, I), tm.pow_(tm.app("kp", "+", I), t(off)))}, hy, {**RG, "kp": (0.5, 2), "off": (-2, 2)}, "halomod.tools._PowerLawK.__call__")

    # ---------------------------------------------------------------- bounded run-time oracles
    def f_sq(q):
        return 2.0 + 0 * np.asarray(q) + np.asarray(q) ** 2

    def f_zero_at(x0):
        return lambda q: np.asarray(q) - x0

    def run_b(rg, i, rc):
        n = int(rg.integers(12, 40)) if i % 5 else int(rg.integers(41, 120))
        x_a, x_b = [(0.01, 100), (1e-4, 50), (1.0, 3e3)][i % 3]
        xs = np.sort(logu(rg, x_a, x_b, n))
        if np.any(np.diff(np.log(xs)) < 1e-3 * 12 / n):
            xs = np.geomspace(x_a * 5, x_b / 2, n)
        ints = rg.random() < 0.2
        if ints:
            xs = np.arange(2.0, 2.0 + n)
        sign = pick(rg, [1, 1, -1, 0])
        amp, sl, kk = logu(rg, 0.1, 10), rg.uniform(-2.5, 2), int(pick(rg, [1, 3, 3, 3]))
        pure = rg.random() < 0.5
        ys = amp * xs**sl * (1 if pure else (1 + 0.2 * np.sin(3 * np.log(xs))))
        ys = ys * sign if sign else ys * np.where(np.arange(n) % 2, 1, -1)
        opts = ["power_law", "boundary", None, "zero", "callable", "vanishing"]
        lo, up = pick(rg, opts), pick(rg, opts)
        ml, mu = bool(rg.integers(2)), bool(rg.integers(2))
        rc.rec(lower=lo, upper=up, match=(ml, mu), sign=sign, pure_power_law=pure, slope=sl, n=n, k=kk, x=xs, y=ys)
        fn = {"zero": T._zero, "callable": f_sq}
        lf_ = fn.get(lo, lo) if lo != "vanishing" else f_zero_at(xs[0])
        uf2 = fn.get(up, up) if up != "vanishing" else f_zero_at(xs[-1])
        x0, y0 = xs.copy(), ys.copy()
        nl, nu, nkw = 10, 10, {}
        if rg.random() < 0.3:
            nl, nu = int(rg.integers(2, 12)), int(rg.integers(2, 12))
            nkw = dict(lower_power_law_n=nl, upper_power_law_n=nu)
            rc.rec(**nkw)
        es = T.ExtendedSpline(xs, ys, lower_func=lf_, upper_func=uf2, match_lower=ml, match_upper=mu, k=kk, **nkw)
        rc.ok(np.array_equal(xs, x0) and np.array_equal(ys, y0), "the table is left unchanged")
        ref = IUS(x0, y0, k=kk)
        rc.close(es(xs), ys, "passes through the table", 1e-9, 1e-9 * np.abs(ys).max())

        def side(kind, match, q, edge, tx, ty):
            if kind == "callable":
                return f_sq(q) * (ref(edge) / f_sq(edge) if match else 1)
            if kind == "vanishing":
                return np.asarray(q) - edge
            if kind == "zero":
                return 0.0 * np.asarray(q)
            if kind == "boundary":
                return ref(edge) + 0.0 * np.asarray(q)
            if kind is None:
                return ref(q)
            if not (np.all(ty > 0) or np.all(ty < 0)):
                return 0.0 * np.asarray(q)
            co, *_ = np.polyfit(np.log(tx), np.log(np.abs(ty)), 1, full=True)
            return np.sign(ty[0]) * np.exp(np.polyval(co, np.log(q)))

        qlo, qhi = xs[0] * rg.uniform(0.05, 0.99, 4), xs[-1] * (1 + rg.uniform(0.01, 5, 4))
        qin = np.exp(rg.uniform(np.log(xs[0]), np.log(xs[-1]), 6))
        if ints:
            qlo, qhi, qin = np.array([1]), xs[-1] + np.array([1, 5, 9]), np.floor(qin) + 1
        parts = [(qlo, side(lo, ml, qlo, xs[0], xs[:nl], ys[:nl]), f"below the table ({lo}, match={ml})"), (qhi, side(up, mu, qhi, xs[-1], xs[-nu:], ys[-nu:]), f"above the table ({up}, match={mu})"), (qin, ref(qin), "inside the table")]
        sc = np.abs(ys).max()
        for q, wv, msg in parts:
            rc.close(es(q), wv, msg, 1e-7, 1e-12 * sc)
            rc.close([es(float(a)) for a in q], wv, msg + ", one at a time", 1e-7, 1e-12 * sc)
        q = np.concatenate([p[0] for p in parts])
        wv = np.concatenate([np.asarray(p[1], dtype=float) for p in parts])
        o = rg.permutation(len(q))
        if ints:
            q = q.astype(int)
            rc.close(es(list(q[o])), wv[o], "list of integers", 1e-7, 1e-12 * sc)
        q_ = q[o].copy()
        rc.close(es(q_), wv[o], "any order" + (", integers" if ints else ""), 1e-7, 1e-12 * sc)
        rc.ok(np.array_equal(q_, q[o]), "the arguments are left unchanged")
        if len(q) % 2 == 0:
            rc.close(es(q[o].reshape(2, -1)), wv[o].reshape(2, -1), "matrix of arguments", 1e-7, 1e-12 * sc)
        rc.close(es(np.array([xs[0], xs[-1]])), ys[[0, -1]], "edges belong to the table", 1e-9)
        rc.close([es(xs[0]), es(xs[-1])], ys[[0, -1]], "edges belong to the table, one at a time", 1e-9)
        big = np.concatenate([np.tile(q_, 4), [xs[0], xs[-1]]])
        rc.close(es(big), np.concatenate([np.tile(wv[o], 4), ys[[0, -1]]]), "many arguments at once, the edges among them", 1e-7, 1e-12 * sc)

    C.case("tables", run_b, 300 if C.tier == "quick" else 8000, "random tables (positive, negative, mixed sign) x extensions on either side, scalar/vector/matrix/integer arguments in any order")

    def run_refuse(rg, i, rc):
        xs = np.linspace(1, 2, 12)
        rc.rec(i=i)
        rc.raises(ValueError, lambda: T.ExtendedSpline(xs, xs, domain=(1.01, 5)), "table below the domain")
        rc.raises(ValueError, lambda: T.ExtendedSpline(xs, xs, domain=(0, 1.9)), "table above the domain")
        rc.raises(ValueError, lambda: T.ExtendedSpline(xs, xs, lower_func="bad"), "unknown lower extension")
        rc.raises(ValueError, lambda: T.ExtendedSpline(xs, xs, upper_func="bad"), "unknown upper extension")

    C.case("refusals", run_refuse, 1)
