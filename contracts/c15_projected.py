"""C15 -- projected and angular clustering are the stated projections of the three-dimensional correlation."""

from __future__ import annotations

import functools
import inspect

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, LoopSpec, array, elem, scalar

from .c13_two_point import tf
from .common import *


def mul(*a):
    return functools.reduce(tm.mul, a)


class Q:
    """a quantity with units: only its value is looked at"""

    def __init__(self, v):
        self.value = v

    def __mul__(self, o):
        return Q(self.value * o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return Q(self.value / o)


class Cosmo:
    h = scalar("h", "+")
    hubble_distance = Q(scalar("DH", "+"))

    @staticmethod
    def efunc(z):
        return uf("E", "+")(z)

    @staticmethod
    def comoving_distance(z):
        return Q(uf("DC", "+")(z))


def check(C):
    import halomod.integrate_corr as M
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    F = "halomod.integrate_corr"
    C.assumptions += [
        "cosmology by contract: comoving_distance(z) [Mpc], hubble_distance [Mpc], h and efunc of astropy (external)",
        "Simpson integration is a linear functional of the tabulated integrand; the cubic interpolating spline is an uninterpreted function of its table (both assumed; their accuracy is bounded run-time checked)",
        "tracer and matter correlation functions by contract (C13)",
    ]
    app = tm.app
    num = tm.num
    RG = {"n": (3, 9), "nk": (3, 9), "nr": (3, 9), "nm": (2, 5), "h": (0.5, 0.9)}

    # ------------------------------------------------------------------ grids of the projected model
    lo, hi, pl = scalar("lo", "+"), scalar("hi", "+"), scalar("pl", "+")
    nrp = S(N, "i")
    lst = array("given", N, sign="+")
    P = M.ProjectedCF
    g = lambda a, b_, n, i: tm.add(a, tm.mul(i, tm.div(tm.sub(b_, a), tm.sub(n, num(1)))))
    l10 = lambda x: tm.div(tm.fn("log", t(x)), tm.fn("log", num(10)))
    p10 = lambda x: tm.fn("exp", tm.mul(x, tm.fn("log", num(10))))
    hg = [tm.lt(t(lo), t(hi)), tm.lt(num(1), N), tm.lt(I, N)]

    def ends(r, a, b_, n, logspaced):
        f = (lambda x: tm.fn("log", x)) if logspaced else (lambda x: x)
        d = {"one value per point": shape_is(r, n), "first": tm.eq(f(elem(r, num(0))), f(t(a))), "last": tm.eq(f(elem(r, tm.sub(n, num(1)))), f(t(b_)))}
        w = p10(g(l10(a), l10(b_), n, I)) if logspaced else g(t(a), t(b_), n, I)
        d["evenly spaced" + (" in the logarithm" if logspaced else "")] = tm.eq(elem(r, I), w)
        return d

    for lg in (True, False):
        C.prove(f"{F}.ProjectedCF.rp ({'log' if lg else 'linear'})", lambda lg=lg: Mock(P, rp_min=lo, rp_max=hi, rp_num=nrp, rp_log=lg).rp, lambda r, lg=lg: ends(r, lo, hi, N, lg), hg, RG, f"{F}.ProjectedCF.rp")
    C.prove(f"{F}.ProjectedCF.rlim (given)", lambda: Mock(P, rp=lst, proj_limit=pl).rlim, lambda r: {"the given limit": eq(t(r), t(pl))}, [tm.lt(num(0), N)], RG, f"{F}.ProjectedCF.rlim")

    def post_rlim(r):
        top = t(lst.max())
        five = tm.mul(num(5), top)
        return {"the larger of 80 and five times the largest separation": tm.eq(t(r), tm.ite(tm.lt(num(80), five), five, num(80)))}

    C.prove(f"{F}.ProjectedCF.rlim (default)", lambda: Mock(P, rp=lst, proj_limit=None).rlim, post_rlim, [tm.lt(num(0), N)], RG, f"{F}.ProjectedCF.rlim")
    C.prove(f"{F}.ProjectedCF.r", lambda: Mock(P, rp=lst, rlim=hi, rnum=S(NR, "i")).r, lambda r: ends(r, lst.min(), hi, NR, True), [tm.lt(num(0), N), tm.lt(num(1), NR), tm.lt(I, NR)], RG, f"{F}.ProjectedCF.r")

    calls = []

    def rec(*a, **k):
        calls.append((a, k))
        return ("RESULT", len(calls))

    r_, xi_, rp_ = array("r", NR, sign="+"), array("xi", NR, sign="+"), array("rp", N, sign="+")

    def run_wire():
        calls.clear()
        return Mock(P, r=r_, corr_auto_tracer=xi_, rlim=hi, rp=rp_).projected_corr_gal

    def bind(f, call):
        b_ = inspect.signature(f).bind(*call[0], **call[1])
        b_.apply_defaults()
        return b_.arguments

    real_proj = M.projected_corr_gal

    def post_wire(v):
        a = bind(real_proj, calls[0])
        return {"one projection": tf(len(calls) == 1 and v == ("RESULT", 1)), "of the tracer correlation over its own separations": tf(a["r"] is r_ and a["xir"] is xi_), "to the projection limit at the projected separations": tf(a["rlim"] is hi and a["rp_out"] is rp_)}

    C.prove(f"{F}.ProjectedCF.projected_corr_gal", run_wire, post_wire, [], RG, f"{F}.ProjectedCF.projected_corr_gal", extra={"globals": {"projected_corr_gal": rec}})

    # ------------------------------------------------------------------ the projection integral (loop contract)
    TH = uf("TH", "+")
    av = scalar("a_in")

    def inv(i, loc):
        # once a steepness has been set, it is at least 1.3 and theta is the cut belonging to it
        if "theta" not in loc:
            return tm.and_(tm.eq(t(i), num(0)), tm.eq(t(sym.lift(loc["a"])), num(0)))
        a = t(sym.lift(loc["a"]))
        return tm.or_(tm.and_(tm.eq(t(i), num(0)), tm.eq(a, num(0))), tm.and_(tm.le(tm.div(num(13), num(10)), a), tm.eq(t(loc["theta"]), app("TH", "+", a))))

    def body(i, loc):
        rp = app("rp", "+", t(i))
        th_ = app("TH", "+", t(sym.lift(loc["a"])))
        ymin, ylim = mul(th_, tm.div(num(1), num(10000)), rp), tm.sub(t(hi), rp)
        got = elem(loc["p"], t(i))
        y = loc["y"]
        q = sym.bvar()
        yq = elem(y, q)
        n = y.shape_t[0]
        b_ = sym.bvar()
        spl = tm.red("spl", b_, NR, app("xi", "+", b_), app("r", "+", b_), tm.add(yq, rp))
        f = tm.div(mul(tm.add(yq, rp), spl), tm.fn("sqrt", tm.mul(tm.add(yq, tm.mul(num(2), rp)), yq)))
        return {
            "line-of-sight grid starts just outside the projected separation": tm.eq(elem(y, num(0)), ymin),
            "line-of-sight grid ends at the projection limit": tm.eq(elem(y, tm.sub(n, num(1))), ylim),
            "w_p = 2 int r xi(r) / sqrt(r^2 - rp^2) dr with r = rp + y": tm.eq(got, tm.mul(num(2), tm.red("simps_x", q, n, f, yq))),
        }

    loops = {"projected_corr_gal": LoopSpec({"a": lambda i: av, "theta": lambda i: TH(av)}, inv, body, ("p",))}
    C.prove(f"{F}.projected_corr_gal", lambda: M.projected_corr_gal(r_, xi_, hi, rp_), lambda w: {"one value per projected separation": shape_is(w, N)}, [tm.lt(num(3), NR), tm.lt(num(0), N)], {**RG, "rp": (0.1, 1), "hi": (2, 9), "TH": (0.5, 2), "a_in": (1.3, 3)}, f"{F}.projected_corr_gal", extra={"globals": {"_get_theta": TH}, "identity": [(IUS, sym.SymSplineI)], "loops": loops})


    # ------------------------------------------------------------------ radial distance per redshift and selections
    zz = array("z", N, sign="+")
    hl = [tm.lt(I, N)]
    C.prove(f"{F}.dxdz", lambda: M.dxdz(zz, Cosmo()), lambda r: {"d(comoving distance)/dz = c / H(z) in Mpc/h": tm.eq(tm.mul(elem(r, I), app("E", "+", app("z", "+", I))), mul(t(Cosmo.hubble_distance.value), t(Cosmo.h))), "one value per redshift": shape_is(r, N)}, hl, RG, f"{F}.dxdz")
    za, zb = scalar("za", "+"), scalar("zb", "+")

    def post_flat(r):
        z = app("z", "+", I)
        return {"uniform density inside the range, none outside": tm.eq(elem(r, I), tm.ite(tm.and_(tm.le(t(za), z), tm.le(z, t(zb))), tm.div(num(1), tm.sub(t(zb), t(za))), num(0))), "one value per redshift": shape_is(r, N)}

    C.prove(f"{F}.flat_z_dist", lambda: M.flat_z_dist(za, zb)(zz), post_flat, hl + [tm.lt(t(za), t(zb))], {**RG, "za": (0.1, 0.5), "zb": (0.6, 1.0), "z": (0.05, 1.2)}, f"{F}.flat_z_dist")

    # ------------------------------------------------------------------ grids of the angular model
    AC = M.AngularCF
    nz, nu, nt = S(N, "i"), S(NK, "i"), S(NM, "i")
    ulo, uhi = scalar("ulo"), scalar("uhi")
    C.prove(f"{F}.AngularCF.zvec", lambda: Mock(AC, zmin=za, zmax=zb, znum=nz).zvec, lambda r: ends(r, za, zb, N, False), [tm.lt(t(za), t(zb)), tm.lt(num(1), N), tm.lt(I, N)], RG, f"{F}.AngularCF.zvec")
    C.prove(f"{F}.AngularCF.uvec", lambda: Mock(AC, logu_min=ulo, logu_max=uhi, unum=nu).uvec, lambda r: {"one value per point": shape_is(r, NK), "evenly spaced in the logarithm over the given decades": tm.eq(elem(r, I), p10(g(t(ulo), t(uhi), NK, I)))}, [tm.lt(num(1), NK), tm.lt(I, NK)], RG, f"{F}.AngularCF.uvec")
    C.prove(f"{F}.AngularCF.xvec", lambda: Mock(AC, zvec=zz, cosmo=Cosmo()).xvec, lambda r: {"comoving distance in Mpc/h": tm.eq(elem(r, I), tm.mul(app("DC", "+", app("z", "+", I)), t(Cosmo.h))), "one value per redshift": shape_is(r, N)}, hl, RG, f"{F}.AngularCF.xvec")
    for lg in (True, False):
        C.prove(f"{F}.AngularCF.theta ({'log' if lg else 'linear'})", lambda lg=lg: Mock(AC, theta_min=lo, theta_max=hi, theta_num=nt, theta_log=lg).theta, lambda r, lg=lg: ends(r, lo, hi, NM, lg), [tm.lt(t(lo), t(hi)), tm.lt(num(1), NM), tm.lt(I, NM)], RG, f"{F}.AngularCF.theta")
    C.prove(f"{F}.AngularCF.theta (reversed range)", lambda: Mock(AC, theta_min=lo, theta_max=hi, theta_num=nt, theta_log=True).theta, lambda r: {"rejected": tm.FALSE}, [tm.lt(t(hi), t(lo)), tm.lt(num(1), NM)], RG, f"{F}.AngularCF.theta", allow_raise=(ValueError,))
    thv, xv = array("theta", NM, sign="+"), array("xv", N, sign="+")

    def post_r(r):
        e = lambda u, q, x: tm.fn("sqrt", tm.add(tm.mul(p10(u), p10(u)), tm.mul(tm.mul(q, q), tm.mul(x, x))))
        lg = lambda x: tm.fn("log", x)
        return {"from the closest pair of the projection": tm.eq(lg(elem(r, num(0))), lg(e(t(ulo), t(thv.min()), t(xv.min())))), "to the most distant pair": tm.eq(lg(elem(r, tm.sub(NR, num(1)))), lg(e(t(uhi), t(thv.max()), t(xv.max())))), "one value per point": shape_is(r, NR)}

    C.prove(f"{F}.AngularCF.r", lambda: Mock(AC, theta=thv, xvec=xv, logu_min=ulo, logu_max=uhi, rnum=S(NR, "i")).r, post_r, [tm.lt(num(1), NR), tm.lt(num(0), N), tm.lt(num(0), NM)], {**RG, "ulo": (-2, -1), "uhi": (1, 2)}, f"{F}.AngularCF.r")

    real_ang = M.angular_corr_gal
    p2_ = lambda z: None
    p1_ = lambda z: None
    for nm, src in (("angular_corr_gal", "corr_auto_tracer_fnc"), ("angular_corr_matter", "corr_auto_matter_fnc")):
        for p1g in (p1_, None):
            xi_f = object()
            cosmo = object()
            vals = dict(theta=thv, zmin=za, zmax=zb, logu_min=ulo, logu_max=uhi, znum=nz, unum=nu, p2=p2_, check_p_norm=object(), cosmo=cosmo, p_of_z=object())

            def run_w(nm=nm, src=src, xi_f=xi_f, vals=vals, p1g=p1g):
                calls.clear()
                return getattr(Mock(AC, p1=p1g, **{src: xi_f}, **vals), nm)

            def post_w(v, xi_f=xi_f, vals=vals, p1g=p1g):
                a = bind(real_ang, calls[0])
                d = {"one projection": tf(len(calls) == 1 and v == ("RESULT", 1)), "of the model's own correlation function": tf(a["xi"] is xi_f and not a.get("xi_kw"))}
                d.update({f"with its {k}": tf(a[k] is w) for k, w in vals.items()})
                if p1g is not None:
                    d["and its selection"] = tf(a["p1"] is p1g)
                    return d
                r = a["p1"](zz)
                d["uniform selection over the current redshift range by default"] = ([tm.lt(I, N)], post_flat(r)["uniform density inside the range, none outside"])
                return d

            C.prove(f"{F}.AngularCF.{nm} ({'given' if p1g else 'default'} selection)", run_w, post_w, [tm.lt(t(za), t(zb))], {**RG, "za": (0.1, 0.5), "zb": (0.6, 1.0), "z": (0.05, 1.2)}, f"{F}.AngularCF.{nm}", extra={"globals": {"angular_corr_gal": rec}})

    # ------------------------------------------------------------------ normalised selections
    pz = uf("p", "0+")
    b0 = sym.bvar()
    integ = tm.red("simps_x", b0, N, app("p", "0+", app("z", "+", b0)), app("z", "+", b0))

    def post_norm(f):
        got = elem(f(zz), I)
        p = app("p", "0+", app("z", "+", I))
        return {"selection as given or divided by its integral": tm.or_(tm.eq(got, p), tm.eq(tm.mul(got, integ), p)), "one value per redshift": shape_is(f(zz), N),
                "kept only if it already integrates to one within a per cent": tm.or_(tm.eq(tm.mul(got, integ), p), tm.and_(tm.le(num_(-101, 10000), tm.sub(integ, num(1))), tm.le(tm.sub(integ, num(1)), num_(101, 10000))))}

    def num_(a, b_):
        return tm.div(num(a), num(b_))

    C.prove(f"{F}._check_p", lambda: M._check_p(pz, zz), post_norm, hl + [tm.lt(num(2), N), tm.lt(num(0), integ)], RG, f"{F}._check_p")

    class WithIntegral:
        def __call__(self, z):
            return pz(z)

        def integral(self, a, b_):
            return uf("INT", "+")(a, b_)

    z0, z1 = scalar("z0", "+"), scalar("z1", "+")

    def post_int(f):
        got = elem(f(zz), I)
        p = app("p", "0+", app("z", "+", I))
        i_ = app("INT", "+", t(zz.min()), t(zz.max()))
        return {"selection as given or divided by its own integral over the range": tm.or_(tm.eq(got, p), tm.eq(tm.mul(got, i_), p))}

    C.prove(f"{F}._check_p (selection with its own integral)", lambda: M._check_p(WithIntegral(), zz), post_int, hl + [tm.lt(num(2), N)], RG, f"{F}._check_p")

    # ------------------------------------------------------------------ the angular projection
    xi = uf("XI")
    p2f = uf("p2", "0+")
    nth = array("theta", NM, sign="+")
    for p_of_z in (True, False):
        for two in (False, True):
            for chk in (True, False):
                def run_a(p_of_z=p_of_z, two=two, chk=chk):
                    return M.angular_corr_gal(nth, xi, pz, za, zb, ulo, uhi, znum=nz, unum=nu, p2=p2f if two else None, check_p_norm=chk, cosmo=Cosmo(), p_of_z=p_of_z)

                def chk_p(p, z):
                    # contract of _check_p: the selection, normalised over the grid it is given
                    lab = "p" if p is pz else "p2"
                    return lambda x: uf(f"N{lab}")(x, z[0], z[-1])

                def post_a(r, p_of_z=p_of_z, two=two, chk=chk):
                    def z(q):
                        return g(t(za), t(zb), N, q)

                    def x(q):
                        if p_of_z:
                            return tm.mul(app("DC", "+", z(q)), t(Cosmo.h))
                        return tm.mul(g(app("DC", "+", t(za)), app("DC", "+", t(zb)), N, q), t(Cosmo.h))

                    s = z if p_of_z else x

                    def p(lab, q):
                        if chk:
                            return app(f"N{lab}", "", s(q), s(num(0)), s(tm.sub(N, num(1))))
                        return app(lab, "0+", s(q))

                    def w(q):
                        v = tm.mul(p("p", q), p("p2" if two else "p", q))
                        if p_of_z:
                            dx = tm.div(mul(t(Cosmo.hubble_distance.value), t(Cosmo.h)), app("E", "+", z(q)))
                            v = tm.div(v, tm.mul(dx, dx))
                        return v

                    th_ = app("theta", "+", J)
                    q1, q2 = sym.bvar(), sym.bvar()
                    u = p10(g(t(ulo), t(uhi), NK, q2))
                    R = tm.fn("sqrt", tm.add(mul(th_, th_, x(q1), x(q1)), tm.mul(u, u)))
                    inner = tm.red("simps_x", q2, NK, tm.mul(app("XI", "", R), w(q1)), u)
                    return {"w(theta) = 2 int dx p1 p2 int du xi(sqrt(u^2 + theta^2 x^2))": tm.eq(elem(r, J), tm.mul(num(2), tm.red("simps_x", q1, N, inner, x(q1)))), "one value per angle": shape_is(r, NM)}

                C.prove(f"{F}.angular_corr_gal (p of {'z' if p_of_z else 'distance'}, {'two selections' if two else 'one selection'}, {'normalised' if chk else 'as given'})", run_a, post_a, [tm.lt(J, NM), tm.lt(num(2), N), tm.lt(num(2), NK), tm.lt(t(za), t(zb))], {**RG, "ulo": (-2, -1), "uhi": (1, 2), "za": (0.1, 0.5), "zb": (0.6, 1.0)}, f"{F}.angular_corr_gal", extra={"globals": {"_check_p": chk_p}} if chk else None)
    # ------------------------------------------------------------------ bounded run-time contracts
    import warnings

    from scipy.integrate import quad
    from scipy.interpolate import CubicSpline

    def gl(f, a, b_, n=40, panels=40):
        """composite Gauss-Legendre in a transformed coordinate: independent of the code's Simpson grids"""
        x, w = np.polynomial.legendre.leggauss(n)
        e = np.linspace(a, b_, panels + 1)
        h = np.diff(e)[:, None] / 2
        q = (e[:-1, None] + h) + h * x
        return np.sum(f(q.ravel()) * (h * w).ravel(), axis=-1)

    def wp(xi, rp, rlim):
        # r = rp cosh(t): w_p = 2 int r xi(r) dt
        return np.array([gl(lambda t_: 2 * xi(p * np.cosh(t_)) * p * np.cosh(t_), 0, np.arccosh(rlim / p)) for p in rp])

    def shapes(rg, rc):
        kind_ = int(rg.integers(3))
        g1, r0, g2, L_ = rg.uniform(1.3, 2.6), rg.uniform(1, 10), rg.uniform(0.9, 1.3), rg.uniform(5, 60)
        rc.rec(shape=kind_, slope=g1, r0=r0, slope2=g2, cut=L_)
        return {0: lambda r: (r / r0) ** -g1, 1: lambda r: (r / r0) ** -g1 + 0.3 * (r / r0) ** -g2, 2: lambda r: (r / r0) ** -g1 * np.exp(-r / L_)}[kind_]

    def run_proj(rg, i, rc):
        f = shapes(rg, rc)
        rlim = rg.uniform(40, 400)
        n = int(rg.integers(200, 400))
        r = np.geomspace(0.008, rlim, n)
        rp = np.sort(logu(rg, 0.01, rlim / 6, [1, int(rg.integers(2, 25)), int(rg.integers(41, 90))][i % 3]))
        rc.rec(rlim=rlim, n=n, rp=rp)
        got = M.projected_corr_gal(r, f(r), rlim, rp)
        want = wp(f, rp, rlim)
        rc.close(got, want, "projected correlation: twice the line-of-sight integral", rtol=0.015)
        rc.ok(np.all(got <= want * (1 + 1e-3)), "only the innermost sliver of the line of sight is left out")
        if i % 5 == 0:
            rp2 = r[r < rlim / 6]
            rc.close(M.projected_corr_gal(r, f(r), rlim)[: len(rp2)], wp(f, rp2, rlim), "projected separations default to the tabulated ones", rtol=0.015)
        rc.close(M.projected_corr_gal(r, 3 * f(r), rlim, rp), 3 * got, "projection is linear", rtol=1e-9)
        whole = np.array([1, 2, 4])
        rc.close(M.projected_corr_gal(r, f(r), rlim, whole), wp(f, whole, rlim), "whole-number projected separations", rtol=0.015)
        sh = rg.permutation(len(rp))
        rc.close(M.projected_corr_gal(r, f(r), rlim, rp[sh]), got[sh], "each projected separation on its own", rtol=0.015)

    C.case("projected correlation of given shapes", run_proj, 25 if C.tier == "quick" else 400, "power laws, sums and cut-off power laws; against Gauss-Legendre quadrature in r = rp cosh t")

    def run_sep(rg, i, rc):
        # a shape that is negative at large separations
        a, b_ = rg.uniform(20, 60), rg.uniform(1.5, 2.2)
        f = lambda r: (r / 5) ** -b_ * (1 - r / a)
        r = np.geomspace(0.008, 120, 400)
        rp = logu(rg, 0.02, 15, 12)
        rc.rec(zero=a, slope=b_, rp=rp)
        got = M.projected_corr_gal(r, f(r), 120.0, np.sort(rp))
        want = wp(f, np.sort(rp), 120.0)
        rc.close(got, want, "projected correlation when clustering turns negative", rtol=0.008, atol=0.01 * np.abs(want).max())

    C.case("projected correlation through zero", run_sep, 6 if C.tier == "quick" else 100)

    base = dict(transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.1, lnk_min=-8, lnk_max=6, dlnk=0.05, dr_table=0.05)

    def run_pm(rg, i, rc):
        kw = dict(base, rp_min=float(rg.uniform(0.05, 0.3)), rp_max=float(rg.uniform(5, 25)), rp_num=int(rg.integers(4, 12)), rp_log=bool(rg.integers(2)), z=float(rg.uniform(0, 1.7)))
        if i % 6 == 3:
            kw["rp_num"] = 1
        if i % 3 == 1:
            kw["proj_limit"] = float(rg.uniform(45, 90))
        if i % 3 == 2:
            kw["rp_min"] = list(np.sort(logu(rg, 0.1, 20, 7)) if i % 2 else logu(rg, 0.1, 20, 7))  # in any order
        kw["rnum"] = 200
        rc.rec(**kw)
        m = P(**kw)
        rp = np.asarray(kw["rp_min"]) if i % 3 == 2 else (np.geomspace if kw["rp_log"] else np.linspace)(kw["rp_min"], kw["rp_max"], kw["rp_num"])
        rc.close(m.rp, rp, "projected separations", rtol=1e-10)
        lim = kw.get("proj_limit") or max(80.0, 5 * rp.max())
        rc.close(m.rlim, lim, "projection limit", rtol=1e-12)
        rc.close(m.r, np.geomspace(rp.min(), lim, 200), "separations from the smallest projected one to the limit", rtol=1e-9)
        want = wp(lambda r: m.corr_auto_tracer_fnc(r), rp, lim)
        rc.close(m.projected_corr_gal, want, "projected tracer correlation of the model", rtol=0.01, atol=2e-3 * np.abs(want).max())
        k2 = dict(kw, z=kw["z"] + 0.4, hod_params={"M_min": 12.3})
        m.update(z=k2["z"], hod_params=k2["hod_params"])
        rc.close(m.projected_corr_gal, P(**k2).projected_corr_gal, "follows the model's parameters", rtol=1e-8)

    C.case("projected correlation of a model", run_pm, 6 if C.tier == "quick" else 60, "ProjectedCF grids and w_p against quadrature of the model's own correlation function")

    def limber(theta, xi_, W, x0, x1, u0, u1):
        xq, xw = np.polynomial.legendre.leggauss(200)
        uq, uw = np.polynomial.legendre.leggauss(400)
        x = 0.5 * (x1 - x0) * xq + 0.5 * (x1 + x0)
        lu = 0.5 * np.log(u1 / u0) * uq + 0.5 * np.log(u1 * u0)
        u = np.exp(lu)
        out = []
        for th_ in np.atleast_1d(theta):
            r = np.sqrt(u[None] ** 2 + (th_ * x[:, None]) ** 2)
            inn = np.sum(xi_(r) * u * uw, axis=1) * 0.5 * np.log(u1 / u0)
            out.append(2 * np.sum(W(x) * inn * xw) * 0.5 * (x1 - x0))
        return np.array(out)

    def sel(rg, lo_, hi_, rc, tag, norm):
        m0, s, a = rg.uniform(lo_, hi_), rg.uniform(0.15, 0.4) * (hi_ - lo_), rg.uniform(0.3, 4)
        if norm:
            from scipy.stats import norm as gs

            a = 1 / (s * np.sqrt(2 * np.pi) * (gs.cdf((hi_ - m0) / s) - gs.cdf((lo_ - m0) / s)))
        rc.rec(**{tag: (m0, s, a)})
        return (lambda z: a * np.exp(-0.5 * ((z - m0) / s) ** 2)), a

    import astropy.cosmology as ac

    def run_ang(rg, i, rc):
        f = shapes(rg, rc)
        cos = ac.FlatLambdaCDM(H0=float(rg.uniform(60, 80)), Om0=float(rg.uniform(0.2, 0.4)))
        z0 = rg.uniform(0.05, 0.8)
        z1 = z0 + rg.uniform(0.1, 0.5)
        pz_ = bool(i % 2)
        chk = bool((i // 2) % 2)
        rc.rec(H0=cos.H0.value, Om0=cos.Om0, z=(z0, z1), p_of_z=pz_, check=chk)
        D = lambda z: cos.comoving_distance(z).value * cos.h
        X0, X1 = D(z0), D(z1)
        a, b_ = (z0, z1) if pz_ else (X0, X1)
        p1, _ = sel(rg, a, b_, rc, "p1", not chk)
        two = bool((i // 4) % 2)
        p2g, _ = sel(rg, a, b_, rc, "p2", not chk) if two else (p1, 1)
        th_ = np.sort(logu(rg, 1e-4, 0.03, 5))
        got = M.angular_corr_gal(th_, f, p1, z0, z1, -3.0, 2.0, znum=201, unum=1501, p2=p2g if two else None, check_p_norm=chk, cosmo=cos, p_of_z=pz_)
        n1 = gl(p1, a, b_, panels=10)
        n2 = gl(p2g, a, b_, panels=10)
        if pz_:
            zt = np.linspace(z0, z1, 2001)
            zx = CubicSpline(D(zt), zt)

            def W(x):
                z = zx(x)
                dz = cos.efunc(z) * 100 / 299792.458
                return p1(z) * p2g(z) * dz**2 / (n1 * n2)
        else:
            W = lambda x: p1(x) * p2g(x) / (n1 * n2)
        want = limber(th_, f, W, X0, X1, 1e-3, 1e2)
        rc.close(got, want, "angular correlation: the correlation summed over pairs of the two selections", rtol=0.022 if chk else 0.003, atol=1e-3 * np.abs(want).max())
        if i % 4 == 0:
            rc.close(M.angular_corr_gal(th_, lambda r, s=1.0: s * f(r), p1, z0, z1, -3.0, 2.0, znum=201, unum=1501, p2=p2g if two else None, check_p_norm=chk, cosmo=cos, p_of_z=pz_, s=2.0), 2 * got, "options of the correlation function are handed on", rtol=1e-9)

    C.case("angular correlation of given shapes", run_ang, 24 if C.tier == "quick" else 300, "power laws and cut-offs, one or two selections, in redshift or distance, normalised or not; against Gauss-Legendre quadrature of Limber's double integral")

    def run_un(rg, i, rc):
        f = shapes(rg, rc)
        cos = ac.FlatLambdaCDM(H0=70, Om0=0.3)
        z0, z1 = 0.2, float(rg.uniform(0.3, 0.7))
        p1, _ = sel(rg, z0, z1, rc, "p1", True)
        s = float(rg.choice([rg.uniform(0.2, 0.95), rg.uniform(1.05, 8)]))
        rc.rec(scale=s, zmax=z1)
        th_ = np.array([1e-3, 1e-2])
        zz_ = np.linspace(z0, z1, 1001)
        zt_ = CubicSpline(cos.comoving_distance(zz_).value * cos.h, zz_)
        kw = dict(znum=101, unum=401, cosmo=cos)
        a = M.angular_corr_gal(th_, f, p1, z0, z1, -3, 2, **kw)
        rc.close(M.angular_corr_gal(th_, f, lambda z: s * p1(z), z0, z1, -3, 2, **kw), a, "selections need not be normalised", rtol=0.025)
        rc.close(M.angular_corr_gal(th_, f, p1, z0, z1, -3, 2, p2=lambda z: s * p1(z), **kw), a, "nor the second one", rtol=0.025)
        rc.close(M.angular_corr_gal(th_, f, lambda z: s * p1(z), z0, z1, -3, 2, check_p_norm=False, **kw), s * s * a, "taken as given without the check", rtol=0.025)

        class Sp:
            def __call__(self, z):
                return s * p1(z)

            def integral(self, x, y):
                return quad(self, x, y)[0]

        rc.close(M.angular_corr_gal(th_, f, Sp(), z0, z1, -3, 2, **kw), a, "selections that know their own integral", rtol=0.025)
        z = np.linspace(z0, z1, 101)
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            M.angular_corr_gal(th_, f, lambda z: s * p1(z), z0, z1, -3, 2, **kw)
        rc.ok(len(ws) == 1, "renormalising is reported")
        many = logu(rg, 1e-4, 0.03, int(rg.integers(41, 70)))
        rc.rec(angles=many)
        g = M.angular_corr_gal(many, f, p1, z0, z1, -3, 2, **kw)
        rc.close(g, limber(many, f, lambda x: p1(zt_(x)) ** 2 * (cos.efunc(zt_(x)) * 100 / 299792.458) ** 2, cos.comoving_distance(z0).value * cos.h, cos.comoving_distance(z1).value * cos.h, 1e-3, 1e2), "many angles, in any order", rtol=0.03, atol=2e-3 * np.abs(g).max())
        rc.close(M.angular_corr_gal(many[7:8], f, p1, z0, z1, -3, 2, **kw), g[7:8], "a single angle", rtol=1e-9)
        fz = M.flat_z_dist(z0, z1)
        rc.close(fz(z), 1 / (z1 - z0), "flat selection", rtol=1e-12)
        rc.close(fz(np.array([z0 - 0.01, z1 + 0.01])), 0, "flat selection outside its range")
        rc.close(M.dxdz(z, cos), np.gradient(cos.comoving_distance(np.linspace(z0, z1, 100001)).value, (z1 - z0) / 100000)[::1000] * cos.h, "change of distance with redshift", rtol=1e-4)

    C.case("normalisation of selections", run_un, 8 if C.tier == "quick" else 100)

    def run_am(rg, i, rc):
        z0 = float(rg.uniform(0.1, 0.5)) if i % 2 else float(rg.uniform(0.9, 1.5))
        z1 = z0 + float(rg.uniform(0.1, 0.3))
        cosP = dict(cosmo_params={"Om0": float(rg.uniform(0.2, 0.45)), "H0": float(rg.uniform(60, 80))}) if i % 2 else {}
        kw = dict(base, z=(z0 + z1) / 2, zmin=z0, zmax=z1, znum=41, unum=201, theta_min=10 ** float(rg.uniform(-4, -3)), theta_max=10 ** float(rg.uniform(-2.5, -1.6)), theta_num=5, theta_log=bool(rg.integers(2)), logu_min=-2.5, logu_max=2.0, rnum=60, **cosP)
        p1 = p2g = None
        chk = i % 6 != 1
        pz_ = i % 6 != 4
        rc.rec(**kw, check=chk, p_of_z=pz_)
        kw.update(check_p_norm=chk, p_of_z=pz_)
        from hmf import Cosmology

        co_ = Cosmology(**cosP).cosmo
        D = lambda z: co_.comoving_distance(z).value * co_.h
        lo_, hi_ = (z0, z1) if pz_ else (D(z0), D(z1))
        if i % 3:
            p1, _ = sel(rg, lo_, hi_, rc, "p1", chk)
        if i % 3 == 2:
            p2g, _ = sel(rg, lo_, hi_, rc, "p2", chk)
        m = AC(p1=p1, p2=p2g, **kw)
        tg = (np.geomspace if kw["theta_log"] else np.linspace)(kw["theta_min"], kw["theta_max"], 5)
        rc.close(m.theta, tg, "angles", rtol=1e-10)
        rc.close(m.uvec, np.geomspace(10**-2.5, 100, 201), "line-of-sight grid", rtol=1e-10)
        rc.close(m.zvec, np.linspace(z0, z1, 41), "redshift grid", rtol=1e-10)
        rc.close(m.xvec, D(m.zvec), "comoving distances in Mpc/h", rtol=1e-10)
        rc.close(m.r[[0, -1]], [np.hypot(10**-2.5, tg.min() * D(z0)), np.hypot(100, tg.max() * D(z1))], "separations cover every pair of the projection", rtol=1e-9)
        zt = np.linspace(z0, z1, 401)
        zx = CubicSpline(D(zt), zt)
        q1 = p1 or (lambda z: 1 / (z1 - z0) + 0 * z)
        q2 = p2g or q1

        def W(x):
            z = zx(np.clip(x, D(z0), D(z1)))
            return q1(z) * q2(z) * (co_.efunc(z) * 100 / 299792.458) ** 2 if pz_ else q1(x) * q2(x)

        for nm, f in (("angular_corr_gal", m.corr_auto_tracer_fnc), ("angular_corr_matter", m.corr_auto_matter_fnc)):
            want = limber(tg, f, W, D(z0), D(z1), 10**-2.5, 100)
            rc.close(getattr(m, nm), want, f"{nm} of the model", rtol=0.03, atol=5e-3 * np.abs(want).max())
        if i % 3 == 0:
            k2 = dict(kw, zmin=z0 - 0.05, zmax=z1 + 0.1)
            m.update(zmin=k2["zmin"], zmax=k2["zmax"])
            rc.close(m.angular_corr_gal, AC(**k2).angular_corr_gal, "the default selection follows the redshift range", rtol=1e-8)

    C.case("angular correlation of a model", run_am, 6 if C.tier == "quick" else 45, "AngularCF grids, tracer and matter angular correlations against quadrature of the model's own correlation functions")
