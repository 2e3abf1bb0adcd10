"""C08 -- halo exclusion removes exactly the excluded pairs, above the minimum mass, for every variant."""

from __future__ import annotations

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, array, elem, scalar, t_of

from .common import *

L1, L2 = tm.var("a1", "i", "0+"), tm.var("a2", "i", "0+")


def check(C):
    import halomod.halo_exclusion as X
    from scipy.integrate import simpson
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    C.assumptions += [
        "scipy simpson, trapezoid and spline integrals are linear functionals of the tabulated values (assumed contracts); their accuracy is checked at run time only",
        "numba-compiled variants: the Python source numba compiles is what is under contract (that numba gives it Python's meaning is assumed; 64-bit integers and floats as elsewhere)",
        "dbltrapz_/dblsimps_ (with the windows makeH_/makeW_): used under the contract 'double rule over the upper triangle of a symmetric integrand'; their summation loops are proved over the windows, the windows and the identity of the triangular with the double sum are compared with the one-dimensional rules on grids of 3 to 40 masses (bounded; Simpson's on odd grids, its even-grid form to its own accuracy)",
    ]
    m, dens, P = array("m", NM, sign="+"), array("den", NM, sign="0+"), array("P", NK, NM)
    b1, b2, r = array("b", NM), array("b2", NR, NM), array("r", NR, sign="+")
    rho, dlnx, xm = scalar("rho", "+"), scalar("dlnx", "+"), scalar("xmin", "+")
    K_ = L
    hy = [tm.lt(I, NR), tm.lt(K_, NK), tm.lt(J, NM), tm.lt(tm.ONE, NM), tm.lt(tm.ZERO, NR), tm.lt(tm.ZERO, NK)]
    RG = {"m": (1, 50), "den": (0, 1), "P": (-1, 1), "b": (-1, 2), "b2": (-1, 2), "r": (0.1, 3), "rho": (1, 10), "dlnx": (0.05, 0.2), "xmin": (2, 20), "nm": (4, 6), "nk": (2, 3), "nr": (2, 3)}

    def M(j):
        return S(tm.app("m", "+", j))

    def D(j):
        return S(tm.app("den", "0+", j))

    def Pk(k, j):
        return S(tm.app("P", "", k, j))

    def B(two, i, j):
        return S(tm.app("b2", "", i, j) if two else tm.app("b", "", j))

    tm.RED_EVAL["mint"] = lambda ys: float(simpson([float(y) for y in ys])) if len(ys) > 1 else 0.0

    def mint(arr):
        arr = sym.lift(arr)
        return sym.red_axis(arr, -1, lambda bv, n, b, ii: tm.red("mint", bv, n, sym.toreal(b, arr.k)))

    def MI(f):
        bv = sym.bvar()
        return S(tm.red("mint", bv, NM, t(f(bv))))

    def rh(j):
        return (3 * M(j) / (4 * S(tm.PI) * rho)) ** S(tm.num(tm.Fr(1, 3)))

    Ri = S(tm.app("r", "+", I))

    def mk(cls, two=False, **kw):
        g = dict(m=m, density=dens, power_integrand=P, bias=b2 if two else b1, r=r, halo_density=rho, dlnx=dlnx, xmin=None, _spline_integrate=mint)
        g.update(kw)
        return new(getattr(X, cls), **g)

    ex = {"interpolate": {"InterpolatedUnivariateSpline": sym.SymSplineI}, "identity": [(IUS, sym.SymSplineI)]}

    # --- constructor
    def init(x):
        return X.Sphere(m, dens, P, b1, r, rho, xmin=x)

    def post_init(given):
        def f(o):
            d = {
                "grid spacing": tm.eq(t(o.dlnx), t(S(tm.fn("log", t(M(tm.ONE) / M(tm.ZERO)))))),
                "ingredients": tm.TRUE if o.m is m and o.density is dens and o.power_integrand is P and o.bias is b1 and o.r is r and o.halo_density is rho else tm.FALSE,
            }
            if given:
                d["bound kept only inside the grid"] = tm.TRUE if (o.xmin is xm or o.xmin is None) else tm.FALSE
                d["bound above the first mass is applied"] = ([tm.lt(tm.app("m", "+", tm.ZERO), t(xm))], tm.TRUE if o.xmin is xm else tm.FALSE)
                d["bound below the first mass changes nothing"] = ([tm.lt(t(xm), tm.app("m", "+", tm.ZERO))], tm.TRUE if o.xmin is None else tm.FALSE)
            else:
                d["no bound"] = tm.TRUE if o.xmin is None else tm.FALSE
            return d
        return f

    C.prove("halomod.halo_exclusion.Exclusion.__init__ (xmin)", lambda: init(xm), post_init(True), hy, RG, "halomod.halo_exclusion.Exclusion.__init__")
    C.prove("halomod.halo_exclusion.Exclusion.__init__", lambda: init(None), post_init(False), hy, RG, "halomod.halo_exclusion.Exclusion.__init__")

    # --- integration over mass
    arr = array("arr", NR, NM)

    def si(x):
        return new(X.Sphere, m=m, dlnx=dlnx, xmin=x)._spline_integrate(arr)

    def post_si(x):
        def f(v):
            bv = sym.bvar()
            a = tm.app("arr", "", I, bv)
            if x is None:
                w = tm.mul(t(dlnx), tm.red("simps", bv, NM, a))
            else:
                ln = lambda y: tm.fn("log", y)
                w = tm.red("splint", bv, NM, a, ln(tm.app("m", "+", bv)), ln(t(x)), ln(tm.app("m", "+", tm.sub(NM, tm.ONE))))
            return {"integral over ln m" + (" from the minimum mass to the top of the grid" if x is not None else ""): tm.eq(elem(v, I), w)}
        return f

    for x in (None, xm):
        C.prove(f"halomod.halo_exclusion.Exclusion._spline_integrate (xmin {'set' if x is not None else 'unset'})", lambda x=x: si(x), post_si(x), hy, RG, "halomod.halo_exclusion.Exclusion._spline_integrate", extra=ex)

    for two in (False, True):
        w = "scale-dependent bias" if two else "bias per mass"
        C.prove(f"halomod.halo_exclusion.Exclusion.raw_integrand ({w})", lambda two=two: mk("Sphere", two).raw_integrand(), lambda v, two=two: {"power integrand times bias times mass": tm.eq(elem(v, I, K_, J), t(Pk(K_, J) * B(two, I, J) * M(J))), "shape": shape_is(v, NR, NK, NM)}, hy, RG, "halomod.halo_exclusion.Exclusion.raw_integrand")
        C.prove(f"halomod.halo_exclusion.NoExclusion.integrate ({w})", lambda two=two: mk("NoExclusion", two).integrate(), lambda v, two=two: {"squared bias-weighted integral": tm.eq(elem(v, I if two else tm.ZERO, K_), t(MI(lambda j: Pk(K_, j) * B(two, I, j) * M(j)) ** 2)), "shape": shape_is(v, NR if two else tm.ONE, NK)}, hy, RG, "halomod.halo_exclusion.NoExclusion.integrate")

        def sph(two=two):
            o = mk("Sphere", two)
            return o.integrate(), o.density_mod, o.mask

        def post_sph(v, two=two):
            keep = lambda j, f: S(tm.ite(tm.lt(t(4 * S(tm.PI) * (Ri / 2) ** 3 * rho / 3), t(M(j))), tm.ZERO, t(f)))
            return {
                "only haloes of radius up to half the separation": tm.eq(elem(v[0], I, K_), t(MI(lambda j: keep(j, Pk(K_, j) * B(two, I, j) * M(j))) ** 2)),
                "density of those haloes": tm.eq(elem(v[1], I), t(MI(lambda j: keep(j, D(j) * M(j))))),
                "shape": shape_is(v[0], NR, NK),
            }

        C.prove(f"halomod.halo_exclusion.Sphere.integrate/density_mod ({w})", sph, post_sph, hy, RG, ["halomod.halo_exclusion.Sphere.integrate", "halomod.halo_exclusion.Sphere.density_mod", "halomod.halo_exclusion.Sphere.mask", "halomod.halo_exclusion.Sphere.mlim"])

    def close(a, b_):
        return S(tm.ite(tm.lt(t(Ri), t(rh(a) + rh(b_))), tm.ZERO, tm.ONE))

    C.prove("halomod.halo_exclusion.DblSphere.mask", lambda: mk("DblSphere").mask, lambda v: {"pairs whose radii overlap": tm.eq(tm.ite(sym.tobool(v.at((I, L1, L2)), v.k), tm.ONE, tm.ZERO), t(1 - close(L1, L2)))}, [*hy, tm.lt(L1, NM), tm.lt(L2, NM)], RG, "halomod.halo_exclusion.DblSphere.mask")

    def prob(a, b_):
        y = S(tm.fn("min", tm.fn("max", t((Ri / (rh(a) + rh(b_)) - 0.8) / 0.29), tm.ZERO), tm.ONE)) if False else sym.elementwise("minimum", (sym.elementwise("maximum", ((Ri / (rh(a) + rh(b_)) - 0.8) / 0.29, 0)), 1))
        return 3 * y**2 - 2 * y**3

    C.prove("halomod.halo_exclusion.DblEllipsoid.prob", lambda: mk("DblEllipsoid").prob, lambda v: {"probability of not overlapping": tm.eq(elem(v, I, L1, L2), t(prob(L1, L2)))}, [*hy, tm.lt(L1, NM), tm.lt(L2, NM)], RG, "halomod.halo_exclusion.DblEllipsoid.prob")
    y = tm.var("y", "r", "0+")
    C.lemma("exclusion probability lies in [0,1]", tm.and_(tm.le(tm.ZERO, t(3 * S(y) ** 2 - 2 * S(y) ** 3)), tm.le(t(3 * S(y) ** 2 - 2 * S(y) ** 3), tm.ONE)), [tm.le(y, tm.ONE)])

    for two in (False, True):
        w = "scale-dependent bias" if two else "bias per mass"
        for cls, weight in (("DblSphere", close), ("DblEllipsoid", prob)):
            if cls == "DblEllipsoid":
                C.prove(f"halomod.halo_exclusion.{cls}.integrate ({w})", lambda two=two, cls=cls: mk(cls, two).integrate(), lambda v, two=two, weight=weight: {"double integral over allowed pairs": tm.eq(elem(v, I, K_), t(MI(lambda a: MI(lambda b_: weight(a, b_) * Pk(K_, a) * B(two, I, a) * M(a) * Pk(K_, b_) * B(two, I, b_) * M(b_)))))}, hy, RG, f"halomod.halo_exclusion.{cls}.integrate")
            else:
                def dsp(two=two):
                    return mk("DblSphere", two, xmin=None).integrate()

                def post(v, two=two, weight=weight):
                    def SI(f):
                        bv = sym.bvar()
                        return S(tm.mul(t(dlnx), tm.red("simps", bv, NM, t(f(bv)))))

                    return {"double integral over allowed pairs": tm.eq(elem(v, I, K_), t(SI(lambda a: SI(lambda b_: weight(a, b_) * Pk(K_, a) * B(two, I, a) * M(a) * Pk(K_, b_) * B(two, I, b_) * M(b_)))))}

                C.prove(f"halomod.halo_exclusion.{cls}.integrate ({w})", dsp, post, hy, RG, [f"halomod.halo_exclusion.{cls}.integrate", "halomod.halo_exclusion.integrate_dblsphere"])

                def dspx(two=two):
                    return mk("DblSphere", two, xmin=xm).integrate()

                def postx(v, two=two, weight=weight):
                    def SI(f):
                        bv = sym.bvar()
                        ln = lambda y_: tm.fn("log", y_)
                        return S(tm.red("splint", bv, NM, t(f(bv)), ln(tm.app("m", "+", bv)), ln(t(xm)), ln(tm.app("m", "+", tm.sub(NM, tm.ONE)))))

                    return {"double integral over allowed pairs, both above the minimum mass": tm.eq(elem(v, I, K_), t(SI(lambda a: SI(lambda b_: weight(a, b_) * Pk(K_, a) * B(two, I, a) * M(a) * Pk(K_, b_) * B(two, I, b_) * M(b_)))))}

                C.prove(f"halomod.halo_exclusion.{cls}.integrate ({w}, xmin)", dspx, postx, hy, RG, [f"halomod.halo_exclusion.{cls}.integrate", "halomod.halo_exclusion.integrate_dblsphere"], extra=ex)
                if hasattr(X, cls + "_"):
                    C.prove(f"halomod.halo_exclusion.{cls}_.integrate ({w}, xmin)", lambda two=two, cls=cls: mk(cls + "_", two, xmin=xm).integrate(), postx, hy, RG, f"halomod.halo_exclusion.{cls}_.integrate", extra=ex)

    def dm(cls, x):
        return mk(cls, xmin=x).density_mod

    for cls, weight in (("DblSphere", close), ("DblEllipsoid", prob), ("DblSphere_", close), ("DblEllipsoid_", prob)):
        if not hasattr(X, cls):
            continue
        x = None if cls.startswith("DblSphere") else xm
        C.prove(f"halomod.halo_exclusion.{cls}.density_mod", lambda cls=cls, x=x: dm(cls, x), lambda v, weight=weight: {"root of the (positive) pair density integral": tm.eq(elem(v, I), t(sym.elementwise("maximum", (MI(lambda a: MI(lambda b_: weight(a, b_) * D(a) * M(a) * D(b_) * M(b_))), 0)) ** S(tm.num(0.5))))}, hy, RG, f"halomod.halo_exclusion.{cls}.density_mod")

    def ng(cls):
        return mk(cls, mask=sym.boolarray("msk", NR, NM)).integrate()

    NG = [c for c in ("NgMatched", "NgMatched_") if hasattr(X, c)]
    for cls in NG:
        C.prove(f"halomod.halo_exclusion.{cls}.integrate", lambda cls=cls: ng(cls), lambda v: {"integral over the unmasked masses, squared": tm.eq(elem(v, I, K_), t(MI(lambda j: S(tm.ite(tm.mk("bapp", "msk", I, j), tm.ZERO, t(Pk(K_, j) * B(False, I, j) * M(j))))) ** 2))}, hy, RG, f"halomod.halo_exclusion.{cls}.integrate")

    dmod = array("dmod", NR, sign="0+")
    for x in (None, xm):
        def ngm(cls, x=x):
            return mk(cls, xmin=x, density_mod=dmod).mask

        def post(v, x=x):
            def cum(j):
                bv = sym.bvar()
                return tm.mul(t(dlnx), tm.red("trapz", bv, tm.add(j, tm.ONE), t(D(bv) * M(bv))))

            c = cum(J)
            if x is not None:
                bv = sym.bvar()
                c = tm.sub(c, tm.red("interp", bv, NM, cum(bv), tm.fn("log", t(M(bv))), tm.fn("log", t(x))))
            return {"masses beyond the matched cumulative density": tm.eq(tm.ite(sym.tobool(v.at((I, J)), v.k), tm.ONE, tm.ZERO), tm.ite(tm.lt(tm.mul(tm.num(1.0001), tm.app("dmod", "0+", I)), c), tm.ONE, tm.ZERO))}

        for cls in NG:
            C.prove(f"halomod.halo_exclusion.{cls}.mask (xmin {'set' if x is not None else 'unset'})", lambda cls=cls: ngm(cls), post, hy, RG, f"halomod.halo_exclusion.{cls}.mask")

    def tw(j):
        return S(tm.ite(tm.or_(tm.eq(j, tm.ZERO), tm.eq(j, tm.sub(NM, tm.ONE))), tm.ONE, tm.num(2)))

    def dsum(f):
        a, b_ = sym.bvar(), sym.bvar()
        return S(tm.red("sum", a, NM, tm.red("sum", b_, NM, t(f(a, b_)))))

    def pw(a, b_):
        return prob(a, b_) * D(a) * M(a) * D(b_) * M(b_)

    C.prove("halomod.halo_exclusion.DblEllipsoid.density_mod (no bound)", lambda: mk("DblEllipsoid").density_mod, lambda v: {"root of the pair density integral": tm.eq(elem(v, I), t((dlnx * dlnx * dsum(lambda a, b_: tw(a) * tw(b_) * pw(a, b_)) / 4) ** S(tm.num(0.5))))}, hy, RG, "halomod.halo_exclusion.DblEllipsoid.density_mod")
    C.prove("halomod.halo_exclusion.dbltrapz", lambda: X.dbltrapz(array("X3", NR, NM, NM), dlnx), lambda v: {"trapezoid rule in both masses": ([tm.lt(I, NR)], tm.eq(elem(v, I), t(dlnx * dlnx * dsum(lambda a, b_: tw(a) * tw(b_) * S(tm.app("X3", "", I, a, b_))) / 4))), "shape": shape_is(v, NR)}, hy, {**RG, "X3": (-1, 2)}, "halomod.halo_exclusion.dbltrapz")

    # --- the compiled variants: the Python source numba compiles, taken under contract as it stands
    if hasattr(X, "prob_inner_"):
        rv = array("rv", NM, sign="+")
        RGc = {**RG, "rv": (0.05, 1.2), "integ": (-1, 2), "pr": (0, 1)}
        a_, b_ = K_, J

        def ramp(rr, a, b2_):
            y = (rr / (S(tm.app("rv", "+", a)) + S(tm.app("rv", "+", b2_))) - S(tm.num(tm.Fr(4, 5)))) / S(tm.num(tm.Fr(29, 100)))
            return S(tm.ite(tm.le(t(y), tm.ZERO), tm.ZERO, tm.ite(tm.le(tm.ONE, t(y)), tm.ONE, t(3 * y**2 - 2 * y**3))))

        tri = [tm.le(a_, b_), tm.lt(b_, NM), tm.lt(I, NR)]
        C.prove("halomod.halo_exclusion.prob_inner_r_", lambda: X.prob_inner_r_(scalar("rr", "+"), rv), lambda v: {
            "probability that two ellipsoidal haloes do not overlap": (tri, tm.eq(elem(v, a_, b_), t(ramp(scalar("rr", "+"), a_, b_)))), "shape": shape_is(v, NM, NM)}, hy, {**RGc, "rr": (0.1, 3)}, "halomod.halo_exclusion.prob_inner_r_")
        C.prove("halomod.halo_exclusion.prob_inner_", lambda: X.prob_inner_(r, rv), lambda v: {
            "probability that two ellipsoidal haloes do not overlap": (tri, tm.eq(elem(v, I, a_, b_), t(ramp(Ri, a_, b_)))), "shape": shape_is(v, NR, NM, NM)}, hy, RGc, "halomod.halo_exclusion.prob_inner_")

        # double integral over the upper triangle of a symmetric integrand: weights 1, 2, 2, ..., 1 (trapezoid) or Simpson's
        tm.RED_EVAL["smw"] = lambda ys: 3 * float(simpson([float(y) for y in ys]))
        tm.RED_EVAL["trw"] = lambda ys: sum(float(y) * (1 if j in (0, len(ys) - 1) else 2) for j, y in enumerate(ys))

        def dbl(kind, scale):
            def f(X_, dx, dy):
                X_ = sym.lift(X_)
                a, b2_ = sym.bvar(), sym.bvar()
                n = X_.shape_t[-1]
                el = tm.ite(tm.le(a, b2_), elem(X_, a, b2_), elem(X_, b2_, a))
                return dx * dy * S(tm.red(kind, a, n, tm.red(kind, b2_, n, el))) / scale
            return f

        # the kernels: sums over the diagonal and twice the upper triangle (for a symmetric integrand the double sum)
        X2 = array("X2", NM, NM)
        hh = lambda nx, ny: sym.array("HW", nx, ny)
        sim = lambda nx, ny: sym.array("SW", nx, ny)

        def tri_sum(win, scale):
            a, b2_ = sym.bvar(), sym.bvar()
            e = lambda p, q: S(tm.mul(tm.app(win, "", p, q), tm.app("X2", "", p, q)))
            n1 = tm.add(a, tm.ONE)
            low = t(e(a, a))
            up = tm.red("sum", b2_, tm.sub(NM, n1), t(2 * e(a, tm.add(n1, b2_))))
            return t(dlnx * scalar("dlny", "+") * S(tm.red("sum", a, NM, tm.ite(tm.lt(n1, NM), tm.add(low, up), low))) / scale)

        for fn, win, scale, what in (("dbltrapz_", "HW", 4, "trapezoid"), ("dblsimps_", "SW", 9, "Simpson")):
            C.prove(f"halomod.halo_exclusion.{fn}", lambda fn=fn: getattr(X, fn)(X2, dlnx, scalar("dlny", "+")), lambda v, win=win, scale=scale: {
                "window-weighted sum over the diagonal and twice the upper triangle": tm.eq(t_of(v), tri_sum(win, scale))}, hy, {**RGc, "X2": (-1, 2), "HW": (1, 4), "SW": (1, 16), "dlny": (0.05, 0.2)}, f"halomod.halo_exclusion.{fn}", extra={"globals": {"makeH_": hh, "makeW_": sim}})

        integ, pr = array("integ", NR, NK, NM), array("pr", NR, NM, NM)

        def ell(kind, scale, wt):
            a, b2_ = sym.bvar(), sym.bvar()
            e = lambda x: S(tm.app("integ", "", I, K_, x))
            return t(dlnx * dlnx * S(tm.red(kind, a, NM, tm.red(kind, b2_, NM, t(e(a) * e(b2_) * wt(a, b2_))))) / scale)

        sel = lambda f: lambda a, b2_: S(tm.ite(tm.le(a, b2_), f(a, b2_), f(b2_, a)))
        C.prove("halomod.halo_exclusion.integrate_dblell", lambda: X.integrate_dblell(integ, pr, dlnx), lambda v: {
            "pairs weighted by the probability": ([tm.lt(I, NR), tm.lt(K_, NK)], tm.eq(elem(v, I, K_), ell("trw", 4, sel(lambda a, b2_: tm.app("pr", "", I, a, b2_))))), "shape": shape_is(v, NR, NK)}, hy, RGc, "halomod.halo_exclusion.integrate_dblell", extra={"globals": {"dbltrapz_": dbl("trw", 4)}})

        gs = {"globals": {"dblsimps_": dbl("smw", 9), "dbltrapz_": dbl("trw", 4)}}
        msk = sym.boolarray("msk3", NR, NM, NM)
        unm = lambda a, b2_: tm.ite(tm.mk("bapp", "msk3", I, a, b2_), tm.ZERO, tm.ONE)
        C.prove("halomod.halo_exclusion.integrate_dblsphere_", lambda: X.integrate_dblsphere_(integ, msk, dlnx), lambda v: {
            "pairs that are not masked": ([tm.lt(I, NR), tm.lt(K_, NK)], tm.eq(elem(v, I, K_), ell("smw", 9, sel(unm)))), "shape": shape_is(v, NR, NK)}, hy, RGc, "halomod.halo_exclusion.integrate_dblsphere_", extra=gs)
        dmat = array("dmat", NM, NM)

        def post_dm(v):
            a, b2_ = sym.bvar(), sym.bvar()
            w = S(tm.red("trw", a, NM, tm.red("trw", b2_, NM, t(sel(lambda p, q: t(ramp(Ri, p, q) * S(tm.app("dmat", "", p, q))))(a, b2_)))))
            return {"root of the pair density of the haloes that do not overlap": ([tm.lt(I, NR)], tm.eq(elem(v, I), t((dlnx * dlnx * w / 4) ** S(tm.num(0.5))))), "shape": shape_is(v, NR)}

        C.prove("halomod.halo_exclusion.density_mod_", lambda: X.density_mod_(r, rv, dmat, dlnx), post_dm, hy, {**RGc, "dmat": (0, 1)}, "halomod.halo_exclusion.density_mod_", extra=gs)

        # the classes that use them
        def pairs(kind, scale, wt, f):
            a, b2_ = sym.bvar(), sym.bvar()
            return S(tm.red(kind, a, NM, tm.red(kind, b2_, NM, t(sel(lambda p, q: t(wt(p, q) * f(p) * f(q)))(a, b2_))))) * dlnx * dlnx / scale

        bigr = lambda a, b2_: (lambda y: S(tm.ite(tm.le(t(y), tm.ZERO), tm.ZERO, tm.ite(tm.le(tm.ONE, t(y)), tm.ONE, t(3 * y**2 - 2 * y**3)))))((Ri / (rh(a) + rh(b2_)) - S(tm.num(tm.Fr(4, 5)))) / S(tm.num(tm.Fr(29, 100))))
        for two in (False, True):
            w = "scale-dependent bias" if two else "bias per mass"
            f = lambda j, two=two: Pk(K_, j) * B(two, I, j) * M(j)
            C.prove(f"halomod.halo_exclusion.DblSphere_.integrate ({w})", lambda two=two: mk("DblSphere_", two).integrate(), lambda v, f=f: {"double integral over allowed pairs": ([tm.lt(I, NR), tm.lt(K_, NK)], tm.eq(elem(v, I, K_), t(pairs("smw", 9, close, f))))}, hy, RG, "halomod.halo_exclusion.DblSphere_.integrate", extra=gs)
            C.prove(f"halomod.halo_exclusion.DblEllipsoid_.integrate ({w})", lambda two=two: mk("DblEllipsoid_", two).integrate(), lambda v, f=f: {"double integral over allowed pairs": ([tm.lt(I, NR), tm.lt(K_, NK)], tm.eq(elem(v, I, K_), t(pairs("trw", 4, bigr, f))))}, hy, RG, ["halomod.halo_exclusion.DblEllipsoid_.integrate", "halomod.halo_exclusion.DblEllipsoid_.prob"], extra=gs)
            C.prove(f"halomod.halo_exclusion.DblEllipsoid_.integrate ({w}, xmin)", lambda two=two: mk("DblEllipsoid_", two, xmin=xm).integrate(), lambda v, f=f: {"double integral over allowed pairs, both above the minimum mass": tm.eq(elem(v, I, K_), t(MI(lambda a: MI(lambda b2_: prob(a, b2_) * f(a) * f(b2_)))))}, hy, RG, ["halomod.halo_exclusion.DblEllipsoid_.integrate", "halomod.halo_exclusion.DblEllipsoid_.prob"])
        C.prove("halomod.halo_exclusion.DblEllipsoid_.density_mod", lambda: mk("DblEllipsoid_").density_mod, lambda v: {"root of the pair density integral": ([tm.lt(I, NR)], tm.eq(elem(v, I), t(pairs("trw", 4, bigr, lambda j: D(j) * M(j)) ** S(tm.num(0.5)))))}, hy, RG, "halomod.halo_exclusion.DblEllipsoid_.density_mod", extra=gs)

    # ---------------------------------------------------------------- bounded run-time oracles
    VAR = ["NoExclusion", "Sphere", "DblSphere", "DblEllipsoid", "NgMatched"] + [v for v in ("DblSphere_", "DblEllipsoid_", "NgMatched_") if hasattr(X, v)]

    def weights(n, kind, dx, lnm=None, lo=None):
        out = np.empty(n)
        for j in range(n):
            e = np.zeros(n)
            e[j] = 1.0
            out[j] = simpson(e, dx=dx) if kind == "simpson" else np.trapezoid(e, dx=dx) if kind == "trapz" else IUS(lnm, e).integral(lo, lnm[-1])
        return out

    def setup(rg, odd=None):
        n = int(rg.integers(12, 30))
        if odd is not None and n % 2 != odd:
            n += 1
        mm = np.exp(np.linspace(np.log(1e10), np.log(logu(rg, 1e14, 1e16)), n))
        rho_ = logu(rg, 1e12, 1e14)
        mx = logu(rg, 1e13, 1e14)
        den = 1e-3 * (mm / 1e12) ** rg.uniform(-1.9, -1.2) * np.exp(-mm / mx) / 1e12
        nk, nr = int(rg.integers(1, 4)), int(rg.integers(1, 5))
        ks = logu(rg, 0.01, 3, nk)
        P_ = den * np.exp(-np.outer(ks, (mm / 1e14) ** (1 / 3)))
        rv = (3 * mm / (4 * np.pi * rho_)) ** (1 / 3)
        rr = np.sort(logu(rg, 0.5 * rv[0], 4 * rv[-1], nr))
        bb = 0.5 + (mm / 1e13) ** 0.3
        two = bool(rg.integers(2))
        if two:
            bb = bb * (1 + 0.3 * np.exp(-rr[:, None]))
        return n, mm, rho_, den, P_, rv, rr, bb, two

    def oracle(name, mm, den, P_, bb, rr, rv, rho_, xmin_):
        """Independent weighted sums; returns (squared integral [r, k], density modification [r])"""
        base = name.rstrip("_")
        dx = np.log(mm[1] / mm[0])
        lnm = np.log(mm)
        w = weights(len(mm), "simpson", dx) if xmin_ is None else weights(len(mm), "spline", dx, lnm, np.log(xmin_))
        f = P_[None] * mm * (bb[:, None, :] if bb.ndim == 2 else bb)
        f = np.broadcast_to(f, (len(rr),) + f.shape[1:])
        g = den * mm
        if base == "NoExclusion":
            return np.einsum("m,rkm->rk", w, f) ** 2, np.ones(len(rr))
        if base == "Sphere":
            ok = (mm[None] <= 4 * np.pi * (rr[:, None] / 2) ** 3 * rho_ / 3).astype(float)
            return np.einsum("m,rkm,rm->rk", w, f, ok) ** 2, np.einsum("m,m,rm->r", w, g, ok)
        if base == "DblSphere":
            wt = (rv[:, None] + rv[None, :] <= rr[:, None, None]).astype(float)
            return np.einsum("a,b,rka,rkb,rab->rk", w, w, f, f, wt), np.sqrt(np.maximum(np.einsum("a,b,a,b,rab->r", w, w, g, g, wt), 0))
        x = np.clip((rr[:, None, None] / (rv[:, None] + rv[None, :]) - 0.8) / 0.29, 0, 1)
        wt = x * x * (3 - 2 * x)
        wd = weights(len(mm), "trapz", dx) if xmin_ is None else w
        dm_ = np.sqrt(np.maximum(np.einsum("a,b,a,b,rab->r", wd, wd, g, g, wt), 0))
        if base == "DblEllipsoid":
            wi = wd if name.endswith("_") else w
            return np.einsum("a,b,rka,rkb,rab->rk", wi, wi, f, f, wt), dm_
        cum = np.concatenate([[0], np.cumsum((g[1:] + g[:-1]) / 2 * dx)])
        if xmin_ is not None:
            cum = cum - np.interp(np.log(xmin_), lnm, cum)
        ok = (cum[None] <= 1.0001 * dm_[:, None]).astype(float)
        amb = np.any(np.abs(cum[None] - 1.0001 * dm_[:, None]) < 1e-6 * cum[-1], axis=1)  # a threshold within round-off of a grid value decides nothing
        return np.einsum("m,rkm,rm->rk", w, f, ok) ** 2, dm_, ~amb

    def run_x(rg, i, rc):
        name = VAR[i % len(VAR)]
        even_numba = name == "DblSphere_"
        n, mm, rho_, den, P_, rv, rr, bb, two = setup(rg, odd=1 if even_numba else None)
        xmin_ = None if rg.random() < 0.5 else float(logu(rg, mm[0] * 1.01, mm[-1] * 0.01))
        rc.rec(variant=name, n=n, m0=mm[0], m1=mm[-1], r=rr, halo_density=rho_, density=den, bias_ndim=bb.ndim, xmin=xmin_)
        kw = dict(m=mm.copy(), density=den.copy(), power_integrand=P_.copy(), bias=bb.copy(), r=rr.copy(), halo_density=rho_, xmin=xmin_)
        o = getattr(X, name)(**kw)
        want, dmw, *sure = oracle(name, mm, den, P_, bb, rr, rv, rho_, xmin_)
        sure = sure[0] if sure else slice(None)
        got = np.asarray(o.integrate())
        scale = np.abs(oracle("NoExclusion", mm, den, P_, bb, rr, rv, rho_, xmin_)[0]).max()
        rc.close(np.broadcast_to(got, want.shape)[sure], want[sure], f"{name}: squared bias-weighted integral over the pairs that do not exclude each other" + (" and are above the minimum mass" if xmin_ else ""), 1e-6, 1e-9 * scale)
        # a second instance, queried for the density first
        o2 = getattr(X, name)(**kw)
        # compared squared: round-off of a vanishing double integral is of order eps times the whole
        rc.close(np.broadcast_to(np.asarray(o2.density_mod), dmw.shape) ** 2, dmw**2, f"{name}: density of the haloes that do not exclude each other", 1e-6, 1e-12 * np.sum(np.abs(np.outer(den * mm, den * mm))))
        rc.close(np.broadcast_to(np.asarray(o2.integrate()), want.shape)[sure], want[sure], f"{name}: the integral does not depend on what was asked before", 1e-6, 1e-9 * scale)
        rc.ok(all(np.array_equal(np.asarray(kw[k]), v) for k, v in (("m", mm), ("density", den), ("power_integrand", P_), ("bias", bb), ("r", rr))), f"{name}: inputs are left unchanged")
        # nothing is excluded far away, everything is excluded at contact
        far = getattr(X, name)(**{**kw, "r": rr * 0 + 40 * rv[-1]})
        nw = oracle("NoExclusion", mm, den, P_, bb, rr, rv, rho_, xmin_)[0]
        if name in ("NoExclusion", "Sphere", "DblSphere", "DblEllipsoid", "DblSphere_"):
            rc.close(np.broadcast_to(np.asarray(far.integrate()), nw.shape), nw, f"{name}: far apart nothing is excluded", 1e-6, 1e-9 * scale)
        if name != "NoExclusion" and not name.startswith("Ng"):
            near = getattr(X, name)(**{**kw, "r": rr * 0 + 0.5 * rv[0]})
            rc.close(np.asarray(near.integrate()), np.zeros_like(nw), f"{name}: haloes closer than their radii are excluded", 0, 1e-12 * scale)

    C.case("exclusion integrals", run_x, 160 if C.tier == "quick" else 3000, "every variant (compiled ones included) x random grids, spectra, separations, bias per mass or per separation, with and without a minimum mass")

    def run_even(rg, i, rc):
        if not hasattr(X, "DblSphere_"):
            return
        n, mm, rho_, den, P_, rv, rr, bb, two = setup(rg, odd=0)
        rc.rec(n=n, r=rr, halo_density=rho_, density=den, bias_ndim=bb.ndim)
        kw = dict(m=mm, density=den, power_integrand=P_, bias=bb, r=rr * 0 + 40 * rv[-1], halo_density=rho_)
        a, b_ = X.DblSphere_(**kw).integrate(), X.DblSphere(**kw).integrate()
        rc.close(a, b_, "compiled double-sphere integral on an even mass grid agrees with the plain one where nothing is excluded", 0.05)

    def run_kernels(rg, i, rc):
        # the compiled double rules are linear in the integrand: the unit arrays decide them for a given size
        if not hasattr(X, "dblsimps_"):
            return
        n = 3 + i % 38
        dx = float(rg.uniform(0.05, 0.5))
        rc.rec(n=n, dx=dx)
        E = np.eye(n)
        ws, wt = simpson(E, dx=dx, axis=-1), np.trapezoid(E, dx=dx, axis=-1)
        one = rg.normal(size=(n, n))
        one = one + one.T
        rc.close(X.dbltrapz_(one, dx, dx), wt @ one @ wt, "compiled trapezoid rule in both masses", 1e-9, 1e-9)
        rc.close(X.dbltrapz(one, dx), wt @ one @ wt, "trapezoid rule in both masses", 1e-9, 1e-9)
        if n % 2:
            rc.close(X.dblsimps_(one, dx, dx), ws @ one @ ws, "compiled Simpson rule in both masses", 1e-9, 1e-9)
        else:
            e = np.exp(-np.linspace(0, 1, n) * 2)
            rc.close(X.dblsimps_(np.outer(e, e), 1 / (n - 1), 1 / (n - 1)), ((1 - np.exp(-2)) / 2) ** 2, "compiled Simpson rule of a smooth function on an even grid", 0.2 / n)
        a, b_ = int(rg.integers(n)), int(rg.integers(n))
        u = np.zeros((n, n))
        u[a, b_] = u[b_, a] = 1
        rc.close(X.dbltrapz_(u, dx, dx), (wt[a] * wt[b_]) * (1 if a == b_ else 2), "weight of one pair", 1e-9)

    C.case("compiled double rules", run_kernels, 76 if C.tier == "quick" else 760, "grids of 3 to 40 masses, random symmetric integrands and single pairs")
    C.case("compiled variant, even grid", run_even, 10 if C.tier == "quick" else 200)

    import halomod.halo_model as HM

    def run_hm(rg, i, rc):
        name = VAR[1:][i % (len(VAR) - 1)]
        central = bool(i % 2)
        mmin = float(rg.uniform(11.3, 12.4))
        sd = pick(rg, [None, None, "TinkerSD05"])
        rc.rec(variant=name, central=central, M_min=mmin, sd_bias=sd)
        kw = dict(transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.1, lnk_min=-6, lnk_max=4, dlnk=0.2, hod_model="Zehavi05", hod_params={"central": central, "M_min": mmin}, rmin=0.1, rmax=100, rnum=8, dr_table=0.3, sd_bias_model=sd)
        h = HM.TracerHaloModel(exclusion_model=name, **kw)
        ref = HM.TracerHaloModel(exclusion_model="NoExclusion", **kw)
        for what, get, dens, uk, mn in (
            ("tracer", lambda q: q._tracer_exclusion, h.dndm * h.total_occupation / h.mean_tracer_den, h.tracer_profile_ukm, h.tracer_mmin),
            ("matter", lambda q: q._matter_exclusion, h.dndm * h.m / h.mean_density_in_halos, h.halo_profile_ukm, None),
        ):
            x, y = get(h), get(ref)
            rc.ok(type(x) is getattr(X, name), "the halo model uses the exclusion model asked for")
            sel = slice(None) if mn is None else h.m >= mn
            rc.close(x.density[sel], dens[sel], f"{what}: density the exclusion acts on", 1e-8)
            rc.close(x.power_integrand[..., sel], (dens * uk)[..., sel], f"{what}: power integrand the exclusion acts on", 1e-8)
            rc.close(x.halo_density, h.halo_overdensity_mean * h.mean_density0, f"{what}: halo density of the exclusion radius", 1e-10)
            rc.close(x.r, h._r_table, f"{what}: separations", 1e-12)
            want_b = h.halo_bias if sd is None else np.outer(h.sd_bias.bias_scale(), h.halo_bias)
            rc.close(x.bias, want_b, f"{what}: halo bias", 1e-10)
            rc.ok(x.xmin == (mn if mn is not None and mn > h.m[0] else None), f"{what}: minimum mass {x.xmin} instead of {mn}")
            a, b_ = np.asarray(x.integrate()), np.asarray(y.integrate())
            rc.close(a[-1], np.broadcast_to(b_, a.shape)[-1], f"{what}: at the largest separation nothing is excluded", 0.08 if name.startswith(("Ng", "DblEllipsoid_")) else 1e-3)
            rc.ok(bool(np.all(np.asarray(x.density_mod)[np.asarray(x.r) < x.r_halo[0]] <= 1e-6 * np.max(x.density_mod))), f"{what}: nothing is left closer than the smallest haloes")

    C.case("in a halo model", run_hm, 14 if C.tier == "quick" else 60, "every variant in TracerHaloModel, with sharp minimum masses and scale-dependent bias")
