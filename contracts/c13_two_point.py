"""C13 -- halo-model power spectra and correlation functions are the stated one- and two-halo integrals."""

from __future__ import annotations

import warnings

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, array, elem, scalar

from .c12_tracer_quantities import Hod, splint
from .common import *


class ES:
    """contract of tools.ExtendedSpline (property C09): records its table and extensions"""

    def __init__(self, x, y, lower_func=None, upper_func=None, match_lower=True, match_upper=True, domain=(-np.inf, np.inf), k=3, lower_power_law_n=10, upper_power_law_n=10):
        self.x, self.y, self.lower, self.upper, self.ml, self.mu, self.k = x, y, lower_func, upper_func, match_lower, match_upper, k

    def __call__(self, x):
        return uf("es")(x)


class HK:
    """contract of tools.hankel_transform (property C18): records what is transformed, at which points and which way"""

    log = []

    def __init__(self):
        self.log = []

    def __call__(self, f, trns_var, trns_var_name="r", h=0.005, atol=1e-15, rtol=None):
        self.log.append((f, trns_var, trns_var_name))
        return uf("hk")(trns_var)


def spline_contract(x, f, xmin=None, xmax=None, log=True):
    """contract of tools.spline_integral (property C10) on the logarithmic mass grid"""
    bv = sym.bvar()
    if not (log and isinstance(x, A) and isinstance(f, A) and x.ndim == f.ndim == 1 and sym.same_dim(x.shape_t[0], f.shape_t[0])):
        raise tm.Unsupported("spline_integral outside its contract")
    X, Fv = t(S(x.at((bv,)), x.k)), t(S(f.at((bv,)), f.k))
    ln = lambda q: tm.fn("log", t(q))
    return S(tm.red("splint", bv, x.shape_t[0], tm.mul(X, Fv), ln(S(X)), ln(x.min() if xmin is None else xmin), ln(x.max() if xmax is None else xmax)))


def kind(f):
    """what an extension does: 'zero', 'power_law', 'boundary', 'spline' or the function object itself"""
    if f is None:
        return "spline"
    if isinstance(f, str):
        return f
    try:
        if tm.equal(t(f(S(tm.app("probe", "+")))), tm.ZERO):
            return "zero"
    except Exception:
        pass
    return f


def tf(x):
    return tm.TRUE if x else tm.FALSE


def check(C):
    import halomod.halo_model as HM
    import halomod.tools as T
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS
    from halomod.halo_exclusion import NoExclusion, Sphere

    C.assumptions += [
        "tools.ExtendedSpline, tools.hankel_transform and tools.spline_integral are used through their contracts (properties C09, C18, C10)",
        "profile transforms, self-convolutions, pair counts, exclusion integrals and biases are used through their contracts (properties C06, C02, C08, C03)",
    ]
    CL, DM = HM.TracerHaloModel, HM.DMHaloModel
    F, FD = "halomod.halo_model.TracerHaloModel", "halomod.halo_model.DMHaloModel"
    app = tm.app
    m, dn, hb = array("m", N, sign="+"), array("dn", N, sign="0+"), array("hb", N, sign="+")
    k, rt = array("k", NK, sign="+"), array("rt", NR, sign="+")
    uh, ut = array("uh", NK, N), array("ut", NK, N)
    lamh, lamt, rhot = array("lamh", NR, N), array("lamt", NR, N), array("rhot", NR, N)
    rho0, D, nbar = scalar("rho0", "+"), scalar("Dm", "+"), scalar("nbar", "+")
    r_, kh = array("r", NM, sign="+"), array("kh", NM, sign="+")
    hy = [tm.lt(tm.num(10), N), tm.lt(tm.num(10), NK), tm.lt(tm.num(10), NR), tm.lt(I, NK), tm.lt(J, N)]
    hyr = hy[:3] + [tm.lt(I, NR)]
    RG = {"n": (11, 13), "nk": (11, 13), "nr": (11, 13), "nm": (2, 3), "m": (0.5, 3), "k": (0.1, 2), "rt": (0.1, 2), "lgmmin": (0.01, 0.4), "dn": (0.1, 2), "hb": (0.5, 2), "rho0": (0.5, 2), "Dm": (0.5, 2), "nbar": (0.5, 2), "uh": (0.1, 1), "ut": (0.1, 1)}
    M_, DN, HB, K_ = (lambda q: app("m", "+", q)), (lambda q: app("dn", "0+", q)), (lambda q: app("hb", "+", q)), (lambda q: app("k", "+", q))
    SSq, CSq = (lambda q: app("SS", "0+", M_(q))), (lambda q: app("CS", "0+", M_(q)))
    UT, UH = (lambda i, q: app("ut", "", i, q)), (lambda i, q: app("uh", "", i, q))
    mul = lambda *a: __import__("functools").reduce(tm.mul, a)
    T0, Rho0, Nb = t(scalar("Dm", "+")), t(rho0), t(nbar)
    spl = {"identity": [(T.spline_integral, spline_contract), (T.ExtendedSpline, ES)]}
    ten_mmin = t(10 ** scalar("lgmmin", "+"))

    def hk():
        h = HK()
        return h, {"identity": [(T.spline_integral, spline_contract), (T.ExtendedSpline, ES), (T.hankel_transform, h)]}

    def table(es, x, n, val, lower, upper, ml=None):
        """posts of a returned extended spline: abscissae, table values, what happens outside"""
        out = {"tabulated at the model's points": tm.and_(eq(elem(es.x, I), app(x, "+", I)), shape_is(es.x, n)), "table values": val(elem(es.y, I)), "one value per point": shape_is(es.y, n), "extension below the table": tf(kind(es.lower) == lower), "extension above the table": tf(kind(es.upper) == upper)}
        if ml is not None:
            out["lower extension matched to the table"] = tf(bool(es.ml) == ml)
        return out

    # ------------------------------------------------------------------ one-halo mass integral
    w, w0 = array("w", NK, N), scalar("m0", "+")
    for turn in (True, False):
        def lim(i, turn=turn):
            if not turn:
                return t(w0)
            pi = S(tm.PI)
            rr = pi / S(K_(i)) / 10
            return t(sym.lift(np.maximum(S(t(w0)), 4 * pi * rho0 * D / 3 * rr ** 3)))

        def run(turn=turn):
            return Mock(DM, m=m, k=k, force_1halo_turnover=turn, mean_density0=rho0, halo_overdensity_mean=D)._do_1halo_integral(w0, w, nbar)

        C.prove(f"{FD}._do_1halo_integral (large-scale cut {turn})", run, lambda p, lim=lim: {"integral over masses of each wavenumber's integrand, over the mean density squared": tm.eq(mul(elem(p, I), Nb, Nb), splint(lambda q: app("w", "", I, q), lim(I))), "one value per wavenumber": shape_is(p, NK)}, hy, {**RG, "m0": (0.5, 1)}, [FD + "._do_1halo_integral", "halomod.tools.spline_integral"], extra=spl)

    class OneHalo:
        def __call__(self, max_mmin=None, integrand=None, mean_dens=None):
            self.args = (max_mmin, integrand, mean_dens)
            return array("p1", NK, sign="+")

    low_ok = lambda a: tm.or_(tm.eq(t(a), t(scalar("lgmmin", "+"))), tm.eq(t(a), ten_mmin), tm.eq(t(a), app("m", "+", tm.num(0))), tm.eq(t(a), t(m.min())))
    for turn in (True, False):
        for nm, want, dens, cls in (
            ("power_1h_auto_matter_fnc", lambda i, q: mul(DN(q), M_(q), M_(q), UH(i, q), UH(i, q)), Rho0, DM),
            ("power_1h_ss_auto_tracer_fnc", lambda i, q: mul(DN(q), SSq(q), UT(i, q), UT(i, q)), Nb, CL),
            ("power_1h_cs_auto_tracer_fnc", lambda i, q: mul(tm.num(2), DN(q), CSq(q), UT(i, q)), Nb, CL),
        ):
            def run(nm=nm, turn=turn, cls=cls):
                oh = OneHalo()
                o = Mock(cls, m=m, k=k, dndm=dn, halo_profile_ukm=uh, tracer_profile_ukm=ut, hod=Hod(True, True, False), mean_density0=rho0, mean_tracer_den=nbar, force_1halo_turnover=turn, _do_1halo_integral=oh)
                return getattr(o, nm), oh.args

            def post(v, want=want, dens=dens, turn=turn):
                es, (mm, integ, md) = v
                return {"integrand": tm.eq(elem(integ, I, J), want(I, J)), "one integrand per wavenumber and mass": shape_is(integ, NK, N), "normalised by the mean density": tm.eq(t(md), dens), "no populated mass is left out": low_ok(mm), **table(es, "k", NK, lambda y: tm.eq(y, app("p1", "+", I)), "zero" if turn else "boundary", "power_law")}

            q = (F if cls is CL else FD) + "." + nm
            C.prove(f"{q} (large-scale cut {turn})", run, post, hy, RG, q, extra=spl)

    # ------------------------------------------------------------------ one-halo correlations
    class P_:
        def __init__(self, has):
            self.has_lam = has

    dlg = scalar("dlg", "+")

    def run_m():
        return Mock(DM, m=m, dndm=dn, halo_profile=P_(True), halo_profile_lam=lamh, mean_density0=rho0, dlog10m=dlg, _r_table=rt).corr_1h_auto_matter_fnc

    def want_m():
        bv = sym.bvar()
        return mul(tm.fn("log", tm.num(10)), t(dlg), tm.red("trapz", bv, N, mul(DN(bv), M_(bv), M_(bv), M_(bv), app("lamh", "", I, bv))))

    C.prove(f"{FD}.corr_1h_auto_matter_fnc (self-convolution)", run_m, lambda e: table(e, "rt", NR, lambda y: tm.eq(mul(tm.add(y, tm.ONE), Rho0, Rho0), want_m()), "power_law", "zero"), hyr, {**RG, "dlg": (0.1, 1), "lamh": (0, 1)}, FD + ".corr_1h_auto_matter_fnc", extra=spl)

    def hank(nm, cls, src, **given):
        """a quantity that is the transform of a power to the model's separations"""
        h, ex = hk()
        f = uf(src)

        def run():
            h.log.clear()
            return getattr(Mock(cls, _r_table=rt, r=r_, **{src: f}, **given), nm), list(h.log)

        def post(v):
            e, log = v
            ok = len(log) >= 1 and log[-1][0] is f and log[-1][2] == "r"
            return {"transform of the matching power": tf(ok), "evaluated at the model's separations": tm.and_(tm.eq(elem(log[-1][1], I), app("rt", "+", I)), shape_is(log[-1][1], NR)) if log else tm.FALSE, **table(e, "rt", NR, lambda y: tm.eq(y, app("hk", "", app("rt", "+", I))), "power_law", "zero")}

        q = (F if cls is CL else FD) + "." + nm
        C.prove(f"{q} (transform)", run, post, hyr, RG, q, extra=ex)

    hank("corr_1h_auto_matter_fnc", DM, "power_1h_auto_matter_fnc", halo_profile=P_(False))
    hank("corr_linear_mm_fnc", DM, "linear_power_fnc")
    hank("corr_halofit_mm_fnc", DM, "nonlinear_power_fnc")
    hank("corr_1h_ss_auto_tracer_fnc", CL, "power_1h_ss_auto_tracer_fnc", tracer_profile=P_(False), hod=Hod(True, True, False), m=m)
    hank("corr_1h_cross_tracer_matter_fnc", CL, "power_1h_cross_tracer_matter_fnc")
    hank("corr_2h_cross_tracer_matter_fnc", CL, "power_2h_cross_tracer_matter_fnc")

    for cut in (True, False):
        lo = ten_mmin if cut else None
        g = dict(m=m, dndm=dn, hod=Hod(cut, True, False), mean_tracer_den=nbar, tracer_profile=P_(True), tracer_profile_lam=lamt, tracer_profile_rho=rhot, _r_table=rt)
        LA, RO = (lambda q: app("lamt", "", I, q)), (lambda q: app("rhot", "", I, q))
        for nm, f, off in (
            ("corr_1h_ss_auto_tracer_fnc", lambda q: mul(DN(q), SSq(q), LA(q)), tm.ONE),
            ("corr_1h_cs_auto_tracer_fnc", lambda q: mul(tm.num(2), DN(q), CSq(q), RO(q)), tm.ONE),
            ("corr_1h_auto_tracer_fnc", lambda q: tm.mul(DN(q), tm.add(tm.mul(SSq(q), LA(q)), mul(tm.num(2), CSq(q), RO(q)))), tm.ZERO),
        ):
            C.prove(f"{F}.{nm} (minimum mass {cut})", lambda nm=nm, g=g: getattr(Mock(CL, **g), nm), lambda e, f=f, off=off, lo=lo: table(e, "rt", NR, lambda y: tm.eq(mul(tm.add(y, off), Nb, Nb), splint(f, lo)), "power_law", "zero"), hyr, {**RG, "lamt": (0, 1), "rhot": (0, 1)}, f"{F}.{nm}", extra=spl)

    cs_, ss_ = uf("XCS"), uf("XSS")
    C.prove(f"{F}.corr_1h_auto_tracer_fnc (no self-convolution)", lambda: Mock(CL, tracer_profile=P_(False), corr_1h_cs_auto_tracer_fnc=cs_, corr_1h_ss_auto_tracer_fnc=ss_, _r_table=rt, r=r_).corr_1h_auto_tracer_fnc(r_), lambda v: {"sum of both parts, of which the first is less one": tm.eq(elem(v, I), tm.add(tm.add(app("XCS", "", app("r", "+", I)), app("XSS", "", app("r", "+", I))), tm.ONE))}, [tm.lt(I, NM)], RG, F + ".corr_1h_auto_tracer_fnc")

    # ------------------------------------------------------------------ totals
    def total(nm, cls, a, b_, off, pts, extra=None, via="_fnc"):
        fa, fb = uf("FA"), uf("FB")
        pv = "kh" if pts is kh else "r"
        q = (F if cls is CL else FD) + "." + nm

        def run():
            return getattr(Mock(cls, **{a: fa, b_: fb, "k_hm": kh, "r": r_}, **(extra or {})), nm)

        C.prove(f"{q} (total{', ' + str(off) if off else ''})", run, lambda v: {"sum of the one- and two-halo terms": tm.eq(elem(v, I), tm.add(tm.add(app("FA", "", app(pv, "+", I)), app("FB", "", app(pv, "+", I))), tm.num(off))), "one value per point": shape_is(v, NM)}, [tm.lt(I, NM)], RG, [q, q + "_fnc"])

    total("power_auto_matter", DM, "power_1h_auto_matter_fnc", "power_2h_auto_matter_fnc", 0, kh)
    total("corr_auto_matter", DM, "corr_1h_auto_matter_fnc", "corr_2h_auto_matter_fnc", 0, r_, {"halo_profile": P_(False)})
    total("corr_auto_matter", DM, "corr_1h_auto_matter_fnc", "corr_2h_auto_matter_fnc", 1, r_, {"halo_profile": P_(True)})
    total("power_1h_auto_tracer", CL, "power_1h_cs_auto_tracer_fnc", "power_1h_ss_auto_tracer_fnc", 0, kh)
    total("power_auto_tracer", CL, "power_1h_auto_tracer_fnc", "power_2h_auto_tracer_fnc", 0, kh)
    total("corr_auto_tracer", CL, "corr_1h_auto_tracer_fnc", "corr_2h_auto_tracer_fnc", 0, r_)
    total("power_cross_tracer_matter", CL, "power_1h_cross_tracer_matter_fnc", "power_2h_cross_tracer_matter_fnc", 0, kh)
    total("corr_cross_tracer_matter", CL, "corr_1h_cross_tracer_matter_fnc", "corr_2h_cross_tracer_matter_fnc", 0, r_)
    for cls, names in ((DM, ["power_1h_auto_matter", "corr_1h_auto_matter", "power_2h_auto_matter", "corr_2h_auto_matter", "corr_linear_mm", "corr_halofit_mm"]), (CL, ["power_1h_ss_auto_tracer", "power_1h_cs_auto_tracer", "corr_1h_ss_auto_tracer", "corr_1h_cs_auto_tracer", "corr_1h_auto_tracer", "power_2h_auto_tracer", "corr_2h_auto_tracer", "power_1h_cross_tracer_matter", "corr_1h_cross_tracer_matter", "power_2h_cross_tracer_matter", "corr_2h_cross_tracer_matter"])):
        for nm in names:
            pv = "kh" if nm.startswith("power") else "r"
            q = (F if cls is CL else FD) + "." + nm
            C.prove(f"{q} (evaluation)", lambda nm=nm, cls=cls: getattr(Mock(cls, **{nm + "_fnc": uf("FA"), "k_hm": kh, "r": r_}), nm), lambda v, pv=pv: {"the function at the model's points": tm.eq(elem(v, I), app("FA", "", app(pv, "+", I)))}, [tm.lt(I, NM)], RG, q)

    # ------------------------------------------------------------------ linear and non-linear spectra, spectrum of halo centres
    pw, nl, ns = array("pw", NK, sign="+"), array("nl", NK, sign="+"), scalar("ns", "")
    hk3 = hy[:3] + [tm.lt(I, NK)]
    for nm, src in (("linear_power_fnc", "pw"), ("nonlinear_power_fnc", "nl")):
        def post(e, src=src):
            d = table(e, "k", NK, lambda y: tm.eq(y, app(src, "+", I)), e.lower, "power_law")
            d["extension below the table"] = tm.TRUE
            q = scalar("q", "+")
            d["below the table as the primordial spectrum"] = tm.eq(t(e.lower(q)), tm.pow_(t(q), t(ns)))
            d["matched to the table"] = tf(e.ml)
            return d

        C.prove(f"{FD}.{nm}", lambda nm=nm: getattr(Mock(DM, k=k, power=pw, nonlinear_power=nl, n=ns), nm), post, hk3, {**RG, "pw": (0.5, 2), "nl": (0.5, 2), "ns": (-1, 1), "q": (0.1, 2)}, f"{FD}.{nm}", extra=spl)
    fl, fn_ = uf("LIN"), uf("NLIN")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for hc, f in (("linear", fl), ("nonlinear", fn_)):
            C.prove(f"{FD}._power_halo_centres_fnc ({hc})", lambda hc=hc: (Mock(DM, hc_spectrum=hc, linear_power_fnc=fl, nonlinear_power_fnc=fn_)._power_halo_centres_fnc,), lambda v, f=f: {"spectrum of halo centres": tf(v[0] is f)}, [], {}, FD + "._power_halo_centres_fnc")
    cl_, cn_ = uf("CL"), uf("CN")
    for hc, f in (("linear", cl_), ("nonlinear", cn_), ("filtered-nl", cn_)):
        C.prove(f"{FD}._corr_mm_base_fnc ({hc})", lambda hc=hc: (Mock(DM, hc_spectrum=hc, corr_linear_mm_fnc=cl_, corr_halofit_mm_fnc=cn_)._corr_mm_base_fnc,), lambda v, f=f: {"correlation of the underlying spectrum": tf(v[0] is f)}, [], {}, FD + "._corr_mm_base_fnc")

    # ------------------------------------------------------------------ cross tracer-matter
    for cut in (True, False):
        lo = ten_mmin if cut else None
        g = dict(m=m, k=k, dndm=dn, halo_bias=hb, hod=Hod(cut, True, False), mean_tracer_den=nbar, mean_density0=rho0, tracer_profile_ukm=ut, halo_profile_ukm=uh)

        def occ(i, q, cut=cut):
            mm = t(sym.lift(np.maximum(S(M_(q)), S(ten_mmin)))) if cut else M_(q)
            return tm.add(app("Nc", "0+", mm), tm.mul(app("Ns", "0+", M_(q)), UT(i, q)))

        C.prove(f"{F}.power_1h_cross_tracer_matter_fnc (minimum mass {cut})", lambda g=g: Mock(CL, **g).power_1h_cross_tracer_matter_fnc, lambda e, lo=lo, occ=occ: table(e, "k", NK, lambda y: tm.eq(mul(y, Nb, Rho0), splint(lambda q: mul(DN(q), M_(q), UH(I, q), occ(I, q)), lo)), "power_law", "power_law"), hk3, RG, F + ".power_1h_cross_tracer_matter_fnc", extra=spl)
        for hc, up in (("linear", "power_law"), ("filtered-lin", "zero")):
            C.prove(f"{F}.power_2h_cross_tracer_matter_fnc (minimum mass {cut}, {hc})", lambda g=g, hc=hc: Mock(CL, hc_spectrum=hc, _power_halo_centres_fnc=uf("PHC"), **g).power_2h_cross_tracer_matter_fnc, lambda e, lo=lo, occ=occ, up=up: table(e, "k", NK, lambda y: tm.eq(mul(y, Nb, Rho0), mul(splint(lambda q: mul(DN(q), HB(q), occ(I, q)), lo), splint(lambda q: mul(DN(q), HB(q), M_(q), UH(I, q))), app("PHC", "", K_(I)))), "power_law", up), hk3, {**RG, "PHC": (0.5, 2)}, F + ".power_2h_cross_tracer_matter_fnc", extra=spl)

    # ------------------------------------------------------------------ halo-halo power between mass ranges
    hhk = array("kq", NM, sign="+")
    q1, q2, q3, q4 = (scalar(x_) for x_ in ("lo1", "hi1", "lo2", "hi2"))
    ex_hh = {"compact": True, "identity": [(IUS, sym.SymSplineI)]}
    hb_ = array("hb", N, sign="+")

    def mean_b(a, b):
        """number-weighted mean bias of haloes of log10 mass a..b; at a == b the bias at that mass"""
        if a is b:
            return t(sym.SymSplineI(np.log10(m), hb_)(a))
        w_ = (m >= 10 ** a) & (m <= 10 ** b)
        return t(sym.sym_simpson((hb_ * dn)[w_], x=m[w_]) / sym.sym_simpson(dn[w_], x=m[w_]))

    for nm, a, d in (("all haloes", (), (q1, q2, q1, q2)), ("one range", (q3, q4), (q3, q4, q3, q4)), ("two ranges", (q1, q2, q3, q4), (q1, q2, q3, q4)), ("a mass and a range", (q1, q1, q3, q4), (q1, q1, q3, q4)), ("a range and a mass", (q1, q2, q3, q3), (q1, q2, q3, q3)), ("one mass", (q1, q1), (q1, q1, q1, q1)), ("two masses", (q1, q1, q3, q3), (q1, q1, q3, q3))):
        run = lambda a=a: Mock(DM, m=m, dndm=dn, halo_bias=hb_, Mmin=q1, Mmax=q2, _power_halo_centres_fnc=uf("PHC", "+")).power_hh(hhk, *a)
        ne = [tm.not_(tm.eq(t(x_), t(y_))) for x_, y_ in ((q1, q2), (q3, q4))]
        C.prove(f"{FD}.power_hh ({nm})", run, lambda p, d=d: {"mean bias of either range, times the spectrum of halo centres": tm.eq(elem(p, I), mul(mean_b(d[0], d[1]), mean_b(d[2], d[3]), app("PHC", "+", app("kq", "+", I)))), "one value per wavenumber": shape_is(p, NM)}, [tm.lt(tm.num(10), N), tm.lt(I, NM), *ne], {**RG, "dn": (0.5, 2), "lo1": (-0.3, 0), "hi1": (0.2, 0.6), "lo2": (-0.4, -0.1), "hi2": (0.1, 0.4), "kq": (0.1, 2)}, FD + ".power_hh", extra=ex_hh)

    # ------------------------------------------------------------------ two-halo term
    NS = 3  # number of separations in these proofs (each is an independent element of the list; varied in the bounded checks)

    class Exc:
        def __init__(self, two, nr):
            self.m, self.density, self.two, self.nr = m, array("den", N, sign="0+"), two, nr
            self.bias = array("b2", nr, N, sign="+") if two else array("b1", N, sign="+")
            self.density_mod = array("dmod", nr, sign="+")

        def integrate(self):
            return array("G", self.nr, NK, sign="0+")

    beff = scalar("beff", "+")
    linf, phc = uf("LIN"), uf("PHC")
    RG2 = {**RG, "den": (0.1, 1), "b1": (0.5, 2), "b2": (0.5, 2), "dmod": (0.5, 1), "G": (0.5, 2), "PHC": (0.5, 2), "beff": (0.5, 2)}
    for excl in (NoExclusion, Sphere):
        for hc in ("linear", "filtered-lin", "nonlinear", "filtered-nl"):
            for deb in (True, False):
                for two in (True, False):
                    if (two and hc != "linear") or (hc in ("nonlinear", "filtered-nl") and deb):
                        continue

                    def run(excl=excl, hc=hc, deb=deb, two=two):
                        o = Mock(DM, k=k, exclusion_model=excl, hc_spectrum=hc, linear_power_fnc=linf, _power_halo_centres_fnc=phc)
                        e = Exc(two, NS)
                        return o._get_power_2h_primitive(e, beff, debias=deb)

                    def post(v, deb=deb, two=two, excl=excl, hc=hc):
                        out = {"one function per separation": tf(len(v) == NS)}
                        for i in range(len(v)):
                            ii = tm.num(i)
                            val = mul(app("G", "0+", ii, I), app("dmod", "+", ii), app("PHC", "", K_(I)))
                            if deb:
                                eb = splint(lambda q: tm.mul(app("den", "0+", q), app("b2", "+", tm.num(NS - 1), q) if two else app("b1", "+", q)))
                                cond = lambda y, eb=eb, val=val: tm.eq(mul(y, eb, eb), mul(val, t(beff), t(beff)))
                            else:
                                cond = lambda y, val=val: tm.eq(y, val)
                            for kk, p in table(v[i], "k", NK, cond, linf, "power_law" if excl is NoExclusion and "filtered" not in hc else "zero", True).items():
                                out[f"{kk} (separation {i})"] = p if not (deb and kk == "table values") else ([tm.not_(tm.eq(eb, tm.ZERO))], p)
                        return out

                    C.prove(f"{FD}._get_power_2h_primitive ({excl.__name__}, {hc}, debias {deb}, bias {'per separation' if two else 'of mass'})", run, post, hk3, RG2, FD + "._get_power_2h_primitive", extra=spl)

    for nm, ex_attr, beff_attr, cls in (("auto_matter", "_matter_exclusion", "bias_effective_matter", DM), ("auto_tracer", "_tracer_exclusion", "bias_effective_tracer", CL)):
        for q in ("corr", "power"):
            for unity in (True, False):
                got = {}

                def helper(exclusion, effective_bias, debias=True):
                    got["args"] = (exclusion, effective_bias, debias)
                    return uf("OUT")

                def run(nm=nm, q=q, unity=unity, cls=cls, ex_attr=ex_attr, beff_attr=beff_attr, helper=helper):
                    class Nrm:
                        normalized = True
                        pair_hmf = (int,)

                    e = object()
                    o = Mock(cls, **{ex_attr: e, beff_attr: beff, "force_unity_dm_bias": unity, f"_get_{q}_2h_auto_fnc": helper, "hmf": Nrm(), "bias": Nrm(), "hmf_model": int})
                    return getattr(o, f"{q}_2h_{nm}_fnc"), e

                C.prove(f"{F if cls is CL else FD}.{q}_2h_{nm}_fnc (unit matter bias {unity})", run, lambda v, got=got, unity=unity, nm=nm: {"own exclusion": tf(got["args"][0] is v[1]), "own effective bias": tm.eq(t(got["args"][1]), t(beff)), "forced to the effective bias only where asked (matter)": tf(bool(got["args"][2]) == (unity if nm == "auto_matter" else False))}, [], RG2, f"{F if cls is CL else FD}.{q}_2h_{nm}_fnc")

    for excl in (NoExclusion, Sphere):
        for n_ in (1, 3):
            h, ex = hk()
            prim = [ES(k, array(f"pp{i}", NK), None, None) for i in range(n_)]

            def run(excl=excl, h=h, prim=prim):
                h.log.clear()
                args = {}

                def gp(exclusion, effective_bias, debias=True):
                    args["a"] = (exclusion, effective_bias, debias)
                    return prim

                e = new(excl)
                out = Mock(DM, _r_table=rt, _get_power_2h_primitive=gp)._get_corr_2h_auto_fnc(e, beff, debias=False)
                return out, list(h.log), args["a"], e

            def post(v, excl=excl, prim=prim, n_=n_):
                es, log, a, e = v
                src = log[-1][0]
                same = (src is prim[0]) if n_ == 1 else (isinstance(src, list) and len(src) == n_ and all(x is y for x, y in zip(src, prim)))
                return {"transform of the two-halo power of each separation": tf(same and log[-1][2] == "r"), "at the model's separations": tm.eq(elem(log[-1][1], I), app("rt", "+", I)), "arguments passed on": tf(a[0] is e and a[2] is False), "effective bias passed on": tm.eq(t(a[1]), t(beff)), **table(es, "rt", NR, lambda y: tm.eq(y, app("hk", "", app("rt", "+", I))), "power_law" if excl is NoExclusion else "zero", "zero")}

            C.prove(f"{FD}._get_corr_2h_auto_fnc ({excl.__name__}, {n_} spectra)", run, post, hyr, RG2, FD + "._get_corr_2h_auto_fnc", extra=ex)

    prim = [ES(k, array("pp0", NK), None, None)]
    C.prove(f"{FD}._get_power_2h_auto_fnc (no exclusion)", lambda: (Mock(DM, exclusion_model=NoExclusion, sd_bias_model=None, _get_power_2h_primitive=lambda e, b_, debias=True: prim)._get_power_2h_auto_fnc(None, beff, debias=False),), lambda v: {"the two-halo power itself": tf(v[0] is prim[0])}, [], RG2, FD + "._get_power_2h_auto_fnc")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for sd, excl in ((None, Sphere), (object, NoExclusion)):
            for deb in (True, False):
                h, ex = hk()

                def run(h=h, sd=sd, excl=excl, deb=deb):
                    h.log.clear()
                    a = {}
                    cf = uf("XI")

                    def gc(exclusion, effective_bias, debias=True):
                        a["a"] = (exclusion, effective_bias, debias)
                        return cf

                    e = object()
                    out = Mock(DM, k=k, k_hm=array("kbig", NM, sign="+") + 1, power=pw, exclusion_model=excl, sd_bias_model=sd, _get_corr_2h_auto_fnc=gc)._get_power_2h_auto_fnc(e, beff, debias=deb)
                    return out, list(h.log), a["a"], e, cf

                def post(v, deb=deb):
                    es, log, a, e, cf = v
                    return {"transform of the two-halo correlation": tf(log[-1][0] is cf and log[-1][2] == "k"), "at the model's wavenumbers": tm.eq(elem(log[-1][1], I), K_(I)), "own exclusion": tf(a[0] is e and bool(a[2]) == deb), "effective bias": tm.eq(t(a[1]), t(beff)), **table(es, "k", NK, lambda y: tm.eq(y, app("hk", "", K_(I))), "power_law", "zero")}

                C.prove(f"{FD}._get_power_2h_auto_fnc ({'scale-dependent bias' if sd else 'exclusion'}, debias {deb})", run, post, hk3, {**RG2, "kbig": (0.1, 1), "pw": (0.5, 2)}, FD + "._get_power_2h_auto_fnc", extra=ex)

    # ------------------------------------------------------------------ what the exclusion models are given
    class XM:
        def __init__(self, **kw):
            self.kw = kw

    sdc = array("sdc", NR, sign="+")
    for nm, cls, dens, u, cut in (("_matter_exclusion", DM, lambda q: tm.div(mul(DN(q), M_(q)), t(scalar("rhoh", "+"))), UH, None), ("_tracer_exclusion", CL, None, UT, True), ("_tracer_exclusion", CL, None, UT, False)):
        for sd in (False, True):
            hod = Hod(bool(cut), True, False)

            def dens_t(q, cut=cut):
                mm = t(sym.lift(np.maximum(S(M_(q)), S(ten_mmin)))) if cut else M_(q)
                return tm.div(tm.mul(DN(q), tm.add(app("Nc", "0+", mm), app("Ns", "0+", M_(q)))), Nb)

            d = dens or dens_t

            def run(nm=nm, cls=cls, sd=sd, hod=hod):
                o = Mock(cls, m=m, dndm=dn, halo_bias=hb, hod=hod, mean_tracer_den=nbar, mean_density_in_halos=scalar("rhoh", "+"), mean_density0=rho0, halo_overdensity_mean=D, tracer_profile_ukm=ut, halo_profile_ukm=uh, _r_table=rt, sd_bias_model=object if sd else None, sd_bias_correction=sdc if sd else None, exclusion_model=XM, exclusion_params={"par": scalar("par", "")})
                return getattr(o, nm).kw

            def post(kw, d=d, u=u, sd=sd, cut=cut):
                out = {"masses": tm.eq(elem(kw["m"], J), M_(J)), "weighted abundance": tm.eq(elem(kw["density"], J), d(J)), "abundance times profile transform": tm.eq(elem(kw["power_integrand"], I, J), tm.mul(d(J), u(I, J))), "one per wavenumber and mass": shape_is(kw["power_integrand"], NK, N), "separations": tm.eq(elem(kw["r"], L), app("rt", "+", L)), "density inside haloes": tm.eq(t(kw["halo_density"]), mul(t(scalar("Dm", "+")), Rho0)), "user parameters": tm.eq(t(kw["par"]), t(scalar("par", "")))}
                out["bias"] = tm.and_(tm.eq(elem(kw["bias"], L, J), mul(app("sdc", "+", L), HB(J))), shape_is(kw["bias"], NR, N)) if sd else tm.and_(tm.eq(elem(kw["bias"], J), HB(J)), shape_is(kw["bias"], N))
                x = kw.get("xmin")
                out["minimum mass"] = tm.eq(t(x), ten_mmin) if cut and x is not None else tf(x is None and not cut)
                return out

            q = (F if cls is CL else FD) + "." + nm
            C.prove(f"{q} ({'minimum mass, ' if cut else ''}{'scale-dependent bias' if sd else 'bias of mass'})", run, post, hy + [tm.lt(L, NR)], {**RG, "rhoh": (0.5, 2), "sdc": (0.5, 2), "par": (0, 1)}, q)

    # ------------------------------------------------------------------ the grids everything is tabulated on
    g0, g1, st, nr_ = scalar("g0"), scalar("g1"), scalar("st", "+"), S(tm.var("nr_", "i", "+"), "i")
    ten = S(tm.num(10))
    RGG = {"g0": (-3, -1), "g1": (1, 3), "st": (0.1, 0.5), "rlo": (0.1, 1), "rhi": (2, 5), "nr_": (4, 6)}
    grid = lambda lo, step: t(ten ** (lo + S(I, "i") * step))
    C.prove(f"{FD}._r_table", lambda: Mock(DM, _logr_table_min=g0, _logr_table_max=g1, dr_table=st)._r_table, lambda r: {"even steps of log10 r from its lower end": tm.eq(elem(r, I), grid(g0, st))}, [tm.lt(t(g0), t(g1))], RGG, FD + "._r_table")
    C.prove(f"{FD}.k_hm", lambda: Mock(DM, hm_logk_min=g0, hm_logk_max=g1, hm_dlog10k=st).k_hm, lambda r: {"even steps of log10 k from its lower end": tm.eq(elem(r, I), grid(g0, st))}, [tm.lt(t(g0), t(g1))], RGG, FD + ".k_hm")
    rlo, rhi = scalar("rlo", "+"), scalar("rhi", "+")
    last = nr_ - 1
    C.prove(f"{FD}.r (logarithmic)", lambda: Mock(DM, rmin=rlo, rmax=rhi, rnum=nr_, rlog=True).r, lambda r: {"even steps of ln r over exactly the range": tm.eq(elem(r, I), t(np.exp(np.log(rlo) + S(I, "i") * (np.log(rhi) - np.log(rlo)) / last))), "as many as asked for": shape_is(r, nr_.t)}, [tm.lt(tm.ONE, nr_.t), tm.lt(I, nr_.t)], RGG, FD + ".r")
    C.prove(f"{FD}.r (linear)", lambda: Mock(DM, rmin=rlo, rmax=rhi, rnum=nr_, rlog=False).r, lambda r: {"even steps of r over exactly the range": tm.eq(elem(r, I), t(rlo + S(I, "i") * (rhi - rlo) / last)), "as many as asked for": shape_is(r, nr_.t)}, [tm.lt(tm.ONE, nr_.t), tm.lt(I, nr_.t)], RGG, FD + ".r")
    rg_ = array("rgiven", NR, sign="+")
    C.prove(f"{FD}.r (given)", lambda: Mock(DM, rmin=rg_).r, lambda r: {"the separations given": tm.eq(elem(r, I), tm.app("rgiven", "+", I)), "each once": shape_is(r, NR)}, [tm.lt(I, NR)], RGG, FD + ".r")

    # ------------------------------------------------------------------ bounded run-time oracles
    from scipy.interpolate import CubicSpline

    HODS = ["Zehavi05", "Zheng05", "Tinker05", "Contreras13", "Zehavi05Marked", "Constant", "PowerLaw" if hasattr(__import__("halomod.hod"), "PowerLaw") else "Zheng05"]
    PROF = ["NFW", "NFWInf", "Einasto", "CoredNFW", "Hernquist"]

    def build(rg, i, rc, **more):
        P = {}
        name = HODS[i % len(HODS)]
        import halomod.hod as H

        cl = getattr(H, name)
        if "M_min" in cl._defaults:
            P["M_min"] = float(rg.uniform(11.2, 12.8))
        if "central" in cl._defaults:
            P["central"] = bool((i // 2) % 2)
        kw = dict(hod_model=name, hod_params=P, halo_profile_model=pick(rg, PROF[:1] * 2 + PROF), z=float(pick(rg, [0.0, 0.6, 1.7])), force_1halo_turnover=bool(rg.integers(2)), hc_spectrum=pick(rg, ["linear", "linear", "nonlinear", "filtered-lin", "filtered-nl"]), force_unity_dm_bias=bool(rg.integers(2)))
        if rg.integers(2):
            kw["tracer_profile_model"] = pick(rg, PROF)
        kw.update(more)
        if rc is not None:
            rc.rec(**{a: str(v) for a, v in kw.items()})
        h = HM.TracerHaloModel(transfer_model="EH", Mmin=9.5, Mmax=16, dlog10m=float(pick(rg, [0.1, 0.1, 0.07])), lnk_min=-6.5, lnk_max=4, dlnk=0.25, dr_table=0.15, rmin=0.05, rmax=60, rnum=12, **kw)
        return h, kw

    def lint(h, f, lo=None):
        """integral over ln m of the (not-a-knot) cubic through m f, from lo (inside the grid) to the end; zero outside the grid"""
        x = np.log(h.m)
        a = x[0] if lo is None else max(np.log(lo), x[0])
        return CubicSpline(x, h.m * f, axis=-1).integrate(a, x[-1]) if a < x[-1] else 0 * f[..., 0]

    def cutmass(h):
        hod = h.hod
        return 10**hod.mmin if hod.sharp_cut and (hod._central or hod.central_condition_inherent) else None

    def one_halo(h, f, dens):
        """f[k, m]"""
        out = []
        for kk, ff in zip(h.k, f):
            lo = None
            if h.force_1halo_turnover:
                lo = max(h.m[0], 4 * np.pi / 3 * h.mean_density0 * h.halo_overdensity_mean * (np.pi / kk / 10) ** 3)
                if lo >= h.m[-1]:
                    out.append(np.nan)
                    continue
            out.append(lint(h, ff, lo) / dens**2)
        return np.array(out)

    def run_b(rg, i, rc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h, kw = build(rg, i, rc)
            K, mm, dn_ = h.k, h.m, h.dndm
            hod = h.hod
            nc, ns_ = hod.central_occupation(mm), hod.satellite_occupation(mm)
            lo = cutmass(h)
            ncx = hod.central_occupation(np.maximum(mm, lo)) if lo else nc
            n = lint(h, dn_ * (ncx + ns_), lo)
            uH = h.halo_profile.u(K, mm, c=h.halo_concentration.cm(mm, h.z))
            uT = h.tracer_profile.u(K, mm, c=h.tracer_concentration.cm(mm, h.z))
            ss, cs = hod.ss_pairs(mm), hod.cs_pairs(mm)
            # powers
            ok = slice(None)
            for nm, f, d in (("power_1h_auto_matter", dn_ * mm**2 * uH**2, h.mean_density0), ("power_1h_ss_auto_tracer", dn_ * ss * uT**2, n), ("power_1h_cs_auto_tracer", 2 * dn_ * cs * uT, n)):
                want = one_halo(h, f, d)
                got = getattr(h, nm + "_fnc")(K)
                ok = np.isfinite(want)
                rc.close(got[ok], want[ok], f"{nm}: one-halo integral", rtol=1e-6, atol=1e-9 * np.max(np.abs(want[ok])))
                if np.any(~ok):
                    rc.ok(np.all(np.abs(got[~ok]) <= 1e-6 * np.max(np.abs(got))), f"{nm}: nothing on scales larger than the largest halo")
            p1 = h.power_1h_ss_auto_tracer_fnc(K) + h.power_1h_cs_auto_tracer_fnc(K)
            rc.close(h.power_1h_auto_tracer_fnc(K), p1, "one-halo tracer power is the sum of its parts", rtol=1e-10)
            rc.close(h.power_auto_tracer_fnc(K), p1 + h.power_2h_auto_tracer_fnc(K), "tracer power is the sum of both terms", rtol=1e-10)
            rc.close(h.power_auto_matter_fnc(K), h.power_1h_auto_matter_fnc(K) + h.power_2h_auto_matter_fnc(K), "matter power is the sum of both terms", rtol=1e-10)
            rc.close(h.power_auto_tracer, h.power_auto_tracer_fnc(h.k_hm), "at the model's wavenumbers", rtol=1e-12)
            rc.close(h.corr_auto_tracer, h.corr_1h_auto_tracer_fnc(h.r) + h.corr_2h_auto_tracer_fnc(h.r), "tracer correlation is the sum of both terms", rtol=1e-10)
            # two-halo powers without exclusion
            phc_ = h._power_halo_centres_fnc(K)
            bt = lint(h, (dn_ * h.halo_bias * (ncx + ns_) * uT) / n, lo)
            rc.close(h.power_2h_auto_tracer_fnc(K), phc_ * bt**2, "two-halo tracer power: squared bias-weighted integral times the spectrum of halo centres", rtol=0.2, atol=1e-7 * phc_.max())
            G = h._tracer_exclusion.integrate()
            rc.close(h.power_2h_auto_tracer_fnc(K), phc_ * (G[0] if G.ndim == 2 else G), "two-halo tracer power: the exclusion model's integral times the spectrum of halo centres", rtol=1e-8, atol=1e-10 * phc_.max())
            bm = lint(h, (dn_ * h.halo_bias * mm * uH) / h.rho_gtm[0])
            if kw["force_unity_dm_bias"]:
                bm = bm / lint(h, dn_ * h.halo_bias * mm / h.rho_gtm[0])
            rc.close(h.power_2h_auto_matter_fnc(K), phc_ * bm**2, "two-halo matter power", rtol=0.1, atol=1e-7 * phc_.max())
            G = h._matter_exclusion.integrate()
            G = G[0] if G.ndim == 2 else G
            if kw["force_unity_dm_bias"]:
                G = G / lint(h, dn_ * h.halo_bias * mm / h.rho_gtm[0]) ** 2
            rc.close(h.power_2h_auto_matter_fnc(K), phc_ * G, "two-halo matter power: the exclusion model's integral times the spectrum of halo centres", rtol=1e-6, atol=1e-10 * phc_.max())
            # cross
            x1 = lint(h, (dn_ * mm * uH * (ncx + ns_ * uT)), lo) / n / h.mean_density0
            rc.close(h.power_1h_cross_tracer_matter_fnc(K), x1, "one-halo tracer-matter power: centrals at the centre, satellites on the profile", rtol=1e-6, atol=1e-9 * x1.max())
            x2 = lint(h, (dn_ * h.halo_bias * (ncx + ns_ * uT)), lo) * lint(h, (dn_ * h.halo_bias * mm * uH)) * phc_ / n / h.mean_density0
            rc.close(h.power_2h_cross_tracer_matter_fnc(K), x2, "two-halo tracer-matter power", rtol=1e-6, atol=1e-10 * phc_.max())
            rc.close(h.power_cross_tracer_matter, (h.power_1h_cross_tracer_matter_fnc(h.k_hm) + h.power_2h_cross_tracer_matter_fnc(h.k_hm)), "tracer-matter power is the sum of both terms", rtol=1e-10)
            # correlations
            R = h._r_table
            if h.tracer_profile.has_lam:
                cT = h.tracer_concentration.cm(mm, h.z)
                lam = h.tracer_profile.lam(R, mm, norm="m", c=cT)
                rho = h.tracer_profile.rho(R, mm, norm="m", c=cT)
                want = lint(h, (dn_ * (ss * lam + 2 * cs * rho)), lo) / n**2
                rc.close(h.corr_1h_auto_tracer_fnc(R), want, "one-halo tracer correlation: pairs on the self-convolution and on the profile", rtol=1e-6, atol=1e-6 * np.max(want) * 1e-6)
                rc.close(h.corr_1h_ss_auto_tracer_fnc(R) + h.corr_1h_cs_auto_tracer_fnc(R) + 2, want, "parts of the one-halo correlation, each less one", rtol=1e-6, atol=1e-6)
            else:
                sat = T.hankel_transform(h.power_1h_ss_auto_tracer_fnc, R, "r")
                rho = h.tracer_profile.rho(R, mm, norm="m", c=h.tracer_concentration.cm(mm, h.z))
                want = lint(h, (dn_ * 2 * cs * rho), lo) / n**2 + sat
                rc.close(h.corr_1h_auto_tracer_fnc(R), want, "one-halo tracer correlation: transform of satellite power plus centrals on the profile", rtol=1e-6, atol=1e-5)
            off = 0.0
            if h.halo_profile.has_lam:
                lam = h.halo_profile.lam(R, mm, norm="m", c=h.halo_concentration.cm(mm, h.z))
                want = np.sum((dn_ * mm**3 * lam * np.log(10) * h.dlog10m)[:, 1:-1], axis=1) + 0.5 * np.log(10) * h.dlog10m * (dn_ * mm**3 * lam)[:, [0, -1]].sum(axis=1)
                rc.close(h.corr_1h_auto_matter_fnc(R) + 1, want / h.mean_density0**2, "one-halo matter correlation: self-convolutions weighted by mass squared", rtol=1e-6, atol=1e-9)
                off = 1.0
            else:
                rc.close(h.corr_1h_auto_matter_fnc(R), T.hankel_transform(h.power_1h_auto_matter_fnc, R, "r"), "one-halo matter correlation is the transform of its power", rtol=1e-6, atol=1e-9)
            rc.close(h.corr_auto_matter_fnc(R), h.corr_1h_auto_matter_fnc(R) + h.corr_2h_auto_matter_fnc(R) + off, "matter correlation is the sum of both terms", rtol=1e-10, atol=1e-12)
            for nm in ("corr_1h_cross_tracer_matter", "corr_2h_cross_tracer_matter", "corr_2h_auto_tracer", "corr_2h_auto_matter", "corr_linear_mm"):
                src = getattr(h, {"corr_linear_mm": "linear_power"}.get(nm, nm.replace("corr", "power")) + "_fnc")
                rc.close(getattr(h, nm + "_fnc")(R[5:-3]), T.hankel_transform(src, R[5:-3], "r", h=0.0001 if "2h_auto" in nm else 0.005), f"{nm} is the transform of its power", rtol=1e-5, atol=1e-9)
            rc.close(h.corr_cross_tracer_matter_fnc(R), h.corr_1h_cross_tracer_matter_fnc(R) + h.corr_2h_cross_tracer_matter_fnc(R), "tracer-matter correlation is the sum of both terms", rtol=1e-10, atol=1e-12)

            # every quantity is its function at the model's own points
            for nm in ("1h_auto_matter", "2h_auto_matter", "auto_matter", "1h_ss_auto_tracer", "1h_cs_auto_tracer", "1h_auto_tracer", "2h_auto_tracer", "auto_tracer", "1h_cross_tracer_matter", "2h_cross_tracer_matter", "cross_tracer_matter"):
                rc.close(getattr(h, "power_" + nm), getattr(h, f"power_{nm}_fnc")(h.k_hm), f"power_{nm} at the model's wavenumbers", rtol=1e-12)
                rc.close(getattr(h, "corr_" + nm), getattr(h, f"corr_{nm}_fnc")(h.r), f"corr_{nm} at the model's separations", rtol=1e-12)
            # beyond the tables
            far = R[-1] * np.array([1.5, 4.0])
            low = K[0] * np.array([0.2, 0.6])
            turn = h.force_1halo_turnover
            filt = "filtered" in kw["hc_spectrum"]
            for nm in ("1h_auto_matter", "1h_ss_auto_tracer", "1h_cs_auto_tracer"):
                f = getattr(h, f"power_{nm}_fnc")
                y = f(K)
                rc.close(f(low), 0.0 if turn else y[0], f"power_{nm} below the table: {'none' if turn else 'that of the largest scale'}", rtol=1e-10)
                power_law_beyond(rc, f, K, y, True, f"power_{nm} above the table")
            for nm in ("2h_auto_matter", "2h_auto_tracer"):
                f = getattr(h, f"power_{nm}_fnc")
                y = f(K)
                rc.close(f(low), y[0] * h.linear_power_fnc(low) / h.linear_power_fnc(K[0]), f"power_{nm} below the table follows the linear power", rtol=1e-8)
                if filt:
                    rc.close(f(K[-1] * np.array([1.5, 4])), 0.0, f"power_{nm} above the table", atol=1e-14)
                else:
                    power_law_beyond(rc, f, K, y, True, f"power_{nm} above the table")
            for nm in ("1h_cross_tracer_matter", "2h_cross_tracer_matter"):
                f = getattr(h, f"power_{nm}_fnc")
                y = f(K)
                power_law_beyond(rc, f, K, y, False, f"power_{nm} below the table")
                if not (filt and nm[0] == "2"):
                    power_law_beyond(rc, f, K, y, True, f"power_{nm} above the table")
            for nm in ("1h_auto_matter", "2h_auto_matter", "1h_ss_auto_tracer", "1h_cs_auto_tracer", "2h_auto_tracer", "1h_cross_tracer_matter", "2h_cross_tracer_matter", "linear_mm", "halofit_mm"):
                f = getattr(h, f"corr_{nm}_fnc")
                rc.close(f(far), 0.0, f"corr_{nm} beyond the largest separation", atol=1e-14)
                power_law_beyond(rc, f, R, f(R), False, f"corr_{nm} below the smallest separation")

    C.case("integrals without exclusion", run_b, 14 if C.tier == "quick" else 150, "random HODs, profiles, spectra of halo centres, redshifts and switches; independent sums over the same mass grid")

    def sinc_xi(pf, r, kmin, kmax):
        """xi(r) by direct quadrature with a Gaussian cut well beyond the scales asked for"""
        kk = np.exp(np.linspace(np.log(kmin), np.log(kmax), 40000))
        out = []
        for q in r:
            f = kk**3 * pf(kk) * np.sinc(kk * q / np.pi) / (2 * np.pi**2) * np.exp(-((kk * q / 60.0) ** 2))
            out.append(np.trapezoid(f, np.log(kk)))
        return np.array(out)

    def run_x(rg, i, rc):
        """correlations against an independent transform of the powers"""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h, kw = build(rg, [1, 3, 6, 0][i % 4], rc, halo_profile_model="NFW", force_1halo_turnover=False, hc_spectrum=pick(rg, ["linear", "nonlinear"]))
            rr = np.array([0.5, 1.0])
            x = sinc_xi(h.power_1h_auto_tracer_fnc, rr, 1e-4, 2e2)
            g = h.corr_1h_auto_tracer_fnc(rr)
            rc.close(g, x, "one-halo tracer correlation is the transform of its power", rtol=0.3, atol=0.05 * g[0])
            rr = np.array([2.0, 8.0, 25.0])
            for nm in ("2h_auto_tracer", "2h_auto_matter", "2h_cross_tracer_matter"):
                x = sinc_xi(getattr(h, f"power_{nm}_fnc"), rr, 1e-4, 40)
                rc.close(getattr(h, f"corr_{nm}_fnc")(rr), x, f"corr_{nm} is the transform of its power", rtol=0.05, atol=1e-3)

    C.case("correlation and power", run_x, 6 if C.tier == "quick" else 50, "independent quadrature of the Fourier integral")

    def run_e(rg, i, rc):
        ex_ = ["Sphere", "DblSphere_", "DblEllipsoid_", "NgMatched_"][i % 4]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h, kw = build(rg, int(rg.integers(2)), rc, exclusion_model=ex_, hm_logk_min=-3, hc_spectrum="linear", halo_profile_model="NFW")
            ref = h.clone(exclusion_model="NoExclusion")
            rr = np.array([40.0, 60.0])
            rc.close(h.corr_2h_auto_tracer_fnc(rr), ref.corr_2h_auto_tracer_fnc(rr), "haloes do not exclude each other at large separations", rtol=0.05, atol=2e-3)
            kk = h.k[h.k < 0.01][3:]
            rc.close(h.power_2h_auto_tracer_fnc(kk), h.linear_power_fnc(kk) * h.bias_effective_tracer**2, "two-halo power on the largest scales: linear power times the squared effective bias", rtol=1e-5)
            kk = h.k[(h.k > 0.015) & (h.k < 0.1)]
            rc.close(h.power_2h_auto_tracer_fnc(kk), T.hankel_transform(h.corr_2h_auto_tracer_fnc, kk, "k", h=0.001), "two-halo power with exclusion is the transform of the two-halo correlation", rtol=1e-5, atol=1e-6)
            e = h._tracer_exclusion
            G, dm = e.integrate(), e.density_mod
            j = int(rg.integers(len(h._r_table) // 3, len(h._r_table)))
            pj = T.ExtendedSpline(h.k, G[j] * dm[j] * h.linear_power_fnc(h.k), lower_func=h.linear_power_fnc, upper_func=T._zero)
            pr = T.hankel_transform(pj, np.array([h._r_table[j]]), "r", h=0.0001)
            rc.close(h.corr_2h_auto_tracer_fnc(h._r_table[j]), np.ravel(pr)[0], "two-halo correlation at each separation uses that separation's exclusion", rtol=1e-4, atol=1e-6)

    C.case("with exclusion", run_e, 4 if C.tier == "quick" else 24, "exclusion models; limits of small and large scales; per-separation spectra")

    def run_sd(rg, i, rc):
        """a bias that depends on separation: each separation has its own spectrum, all with one normalisation"""
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            unity = i % 2 == 0
            ex_ = ["NoExclusion", "Sphere"][(i // 2) % 2]
            h, kw = build(rg, int(rg.integers(2)), rc, sd_bias_model=["TinkerSD05", "TinkerSD05"][i % 2], force_unity_dm_bias=unity, exclusion_model=ex_, hc_spectrum="linear", halo_profile_model="NFW")
            K, mm, dn_, R = h.k, h.m, h.dndm, h._r_table
            sc = h.sd_bias_correction
            rc.ok(np.ptp(sc) > 0.05, "the correction depends on separation")
            hod = h.hod
            lo = cutmass(h)
            ncx = hod.central_occupation(np.maximum(mm, lo)) if lo else hod.central_occupation(mm)
            n = lint(h, dn_ * (ncx + hod.satellite_occupation(mm)), lo)
            uH = h.halo_profile.u(K, mm, c=h.halo_concentration.cm(mm, h.z))
            uT = h.tracer_profile.u(K, mm, c=h.tracer_concentration.cm(mm, h.z))
            phc_ = h._power_halo_centres_fnc(K)
            for nm, e, f, u, xlo in (("matter", h._matter_exclusion, dn_ * mm / h.rho_gtm[0], uH, None), ("tracer", h._tracer_exclusion, dn_ * (ncx + hod.satellite_occupation(mm)) / n, uT, lo)):
                B = lint(h, f * h.halo_bias * u, xlo)
                want = np.outer(sc**2, B**2)
                if ex_ == "NoExclusion":
                    rc.close(e.integrate(), want, f"{nm}: squared integral weighted by the bias at each separation", rtol=0.15, atol=1e-4 * np.max(want))
                G = e.integrate() * np.reshape(e.density_mod, (-1, 1))
                if nm == "matter" and unity:
                    G = G / (sc[-1] * lint(h, f * h.halo_bias)) ** 2
                for j in (0, len(R) // 2, len(R) - 1):
                    pj = T.ExtendedSpline(K, G[j] * phc_, lower_func=h.linear_power_fnc, upper_func="power_law" if ex_ == "NoExclusion" else T._zero)
                    pr = T.hankel_transform(pj, np.array([R[j]]), "r", h=0.0001)
                    rc.close(getattr(h, f"corr_2h_auto_{nm}_fnc")(R[j]), np.ravel(pr)[0], f"{nm}: two-halo correlation at each separation uses that separation's bias", rtol=1e-3, atol=1e-6)
            if unity and ex_ == "NoExclusion":
                far = R > 30
                rc.close(h.corr_2h_auto_matter_fnc(R[far]) / (sc[far] / sc[-1]) ** 2, h.corr_linear_mm_fnc(R[far]), "unit matter bias on the largest scales", rtol=0.1, atol=1e-3)

    C.case("scale-dependent bias", run_sd, 4 if C.tier == "quick" else 24, "with and without unit matter bias and exclusion; per-separation spectra")

    def run_s(rg, i, rc):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            hc = ["linear", "nonlinear", "filtered-lin", "filtered-nl"][i % 4]
            h, kw = build(rg, 1, rc, hc_spectrum=hc)
            K = h.k
            base, R_ = (h.power, 2.0) if hc == "filtered-lin" else (h.nonlinear_power, 3.0)
            if hc.startswith("filt"):
                x = K * R_
                w_ = 3 * (np.sin(x) - x * np.cos(x)) / x**3
                pos = np.cumprod(w_ > 0).astype(bool)
                rc.close(h._power_halo_centres_fnc(K), np.where(pos, base * w_, 0), "filtered spectrum of halo centres: top-hat up to its first zero", rtol=1e-6, atol=1e-9 * base.max())
                rc.close(h._power_halo_centres_fnc(np.array([K[-1] * 3])), 0.0, "nothing beyond", atol=1e-12)
            else:
                rc.close(h._power_halo_centres_fnc(K), h.power if hc == "linear" else h.nonlinear_power, "spectrum of halo centres", rtol=1e-8)
            q = np.array([K[0] / 7, K[0] / 2])
            rc.close(h.linear_power_fnc(q), h.power[0] * (q / K[0]) ** h.n, "linear power continues as the primordial spectrum on larger scales", rtol=1e-8)
            rc.close(h.linear_power_fnc(K), h.power, "linear power", rtol=1e-10)
            rc.close(h.nonlinear_power_fnc(K), h.nonlinear_power, "non-linear power", rtol=1e-10)
            # halo-halo power between mass ranges
            a = np.sort(rg.uniform(10, 14.5, 2))
            b_ = np.sort(rg.uniform(10, 14.5, 2))
            if a[1] - a[0] < 0.5:
                a[1] = a[0] + 0.6
            if b_[1] - b_[0] < 0.5:
                b_[1] = b_[0] + 0.6

            def mb(p, q_):
                if p == q_:
                    return np.interp(p, np.log10(h.m), h.halo_bias)
                k_ = (h.m >= 10**p) & (h.m <= 10**q_)
                return np.trapezoid((h.halo_bias * h.dndm * h.m)[k_], np.log(h.m[k_])) / np.trapezoid((h.dndm * h.m)[k_], np.log(h.m[k_]))

            kk = np.array([0.05, 0.3, 1.0])
            p0 = h._power_halo_centres_fnc(kk)
            rc.close(h.power_hh(kk, a[0], a[1]), mb(*a) ** 2 * p0, "halo-halo power of one mass range", rtol=0.03)
            rc.close(h.power_hh(kk, a[0], a[1], b_[0], b_[1]), mb(*a) * mb(*b_) * p0, "halo-halo power of two mass ranges", rtol=0.03)
            rc.close(h.power_hh(kk, a[0], a[0], b_[0], b_[1]), mb(a[0], a[0]) * mb(*b_) * p0, "halo-halo power of one mass and a mass range", rtol=0.03)
            rc.close(h.power_hh(kk, 12.0, 12.0), mb(12.0, 12.0) ** 2 * p0, "halo-halo power at one mass", rtol=0.03)
            rc.close(h.power_hh(kk), mb(h.Mmin, h.Mmax) ** 2 * p0, "halo-halo power of all haloes", rtol=0.03)
            rc.close(h.k_hm, 10 ** np.arange(h.hm_logk_min, h.hm_logk_max, h.hm_dlog10k), "wavenumbers of the halo model", rtol=1e-12)

    C.case("spectra", run_s, 8 if C.tier == "quick" else 60, "spectra of halo centres, their extension and halo-halo power between mass ranges")
