"""C06 -- Fourier transforms and self-convolutions of halo profiles are those of the density they return."""

from __future__ import annotations

import shutil
import tempfile
from pathlib import Path

import numpy as np
from scipy.integrate import quad
from scipy.interpolate import InterpolatedUnivariateSpline as IUS

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import S, array, elem, scalar

from .c05_profile_mass import rs_spec
from .common import *
from .profspec import CM, FIN, INF, PARS, SHAPES, ftsum, gen_params, msum

LAM = {"NFW": lambda z: -1 / (1 + z), "NFWInf": lambda z: -1 / (1 + z), "HernquistInf": lambda z: -0.5 / (1 + z) ** 2}


def lamsum(name, x, c):
    """int f(|y|) f(|x-y|) d^3y over both points within c (c may be inf); F is an antiderivative of z f(z)"""
    F = LAM[name]
    f = SHAPES[name]
    hi = min(c, 1e6)
    g = lambda y: y * f(y, {}) * (F(np.minimum(x + y, c)) - F(abs(x - y)))
    lo = max(0.0, x - c)
    cuts = sorted({lo, *[q for q in (x / 100, x / 10, x / 2, x, 2 * x, c - x, 5 * x, 30 * x, 300 * x) if lo < q < hi], hi})
    tot = 0.0
    for a, b_ in zip(cuts, cuts[1:]):
        if a > 0 and b_ / a > 3:
            tot += quad(lambda w: np.exp(w) * g(np.exp(w)), np.log(a), np.log(b_), limit=200, epsabs=0, epsrel=1e-9)[0]
        elif abs(a - x) < 1e-14 or abs(b_ - x) < 1e-14:
            s = 1 if abs(a - x) < 1e-14 else -1
            tot += quad(lambda w: 2 * w * g(x + s * w * w), 0, np.sqrt(b_ - a), limit=200, epsabs=0, epsrel=1e-9)[0]
        else:
            tot += quad(g, a, b_, limit=200, epsabs=0, epsrel=1e-9)[0]
    return 2 * np.pi / x * tot


def check(C):
    import halomod.halo_model as HM
    import halomod.profiles as P

    C.assumptions += [
        "self-convolutions: Leibniz' rule (growth with the outer radius) and the fundamental theorem of calculus; the whole halo is the limit of c -> infinity",
        "fundamental theorem of calculus: p(K,0)=0 and dp/dc = c f(c) sin(Kc)/K make p(K,c) the transform of the truncated density in units of 4 pi rho_s r_s^3",
        "limits Si->pi/2, Ci->0 and boundedness of sin, cos (remainder identities of the untruncated profiles)",
        "Gamma-function integral of x^(1-b) exp(-a x) sin(Kx) (Gradshteyn 3.944.5)",
        "Einasto: its tabulated transform is data of the package (the interpolation, its units and its limits are proved); shapes without a closed transform (GeneralizedNFW, Moore, user-defined): scipy's quad is the integral it is asked for, whatever the break points, and argsort a permutation (what is integrated, from where to where, tabulated and looked up is proved for any number of haloes and wavenumbers; accuracy bounded, against independent quadrature)",
    ]
    K, c = scalar("K", "+"), scalar("c", "+")
    R = {"K": (0.05, 20), "c": (0.5, 20), "a": (0.05, 2), "b": (1.2, 2.9)}
    for name in ("NFW", "Hernquist", "Constant", "CoredNFW"):
        q = f"halomod.profiles.{name}._p"

        def post(v, name=name):
            p = t(v)
            return {
                "dp/dc = c f(c) sin(Kc)/K": tm.eq(tm.diff(p, t(c)), tm.mul(t(c * SHAPES[name](c, {}) / K), tm.fn("sin", t(K * c)))),
                "p(K,0) = 0": tm.eq(tm.subst(p, {t(c): tm.ZERO}), tm.ZERO),
            }

        C.prove(q, lambda name=name: new(getattr(P, name), params=dict(getattr(P, name)._defaults))._p(K, c), post, [], R, q)

    def si(x):
        return S(tm.fn("Si", t(x)))

    def ci(x):
        return S(tm.fn("Ci", t(x)))

    def sin(x):
        return S(tm.fn("sin", t(x)))

    def cos(x):
        return S(tm.fn("cos", t(x)))

    pi = S(tm.PI)
    half = S(tm.num(0.5))
    Kc = (1 + c) * K

    def remainder_nfw():
        return sin(K) * (si(Kc) - half * pi) + cos(K) * ci(Kc) - sin(c * K) / Kc

    def remainder_hern():
        return half * (K * (ci(Kc) * sin(K) - cos(K) * (si(Kc) - half * pi)) - cos(c * K) / (1 + c) - sin(c * K) / ((1 + c) ** 2 * K))

    for name, rem in (("NFW", remainder_nfw), ("Hernquist", remainder_hern)):
        q = f"halomod.profiles.{name}Inf._p"
        C.prove(q, lambda name=name: (new(getattr(P, name))._p(K, c), new(getattr(P, name + "Inf"))._p(K)), lambda v, rem=rem: {"finite transform minus infinite one is a remainder vanishing as c -> infinity": tm.eq(tm.sub(t(v[0]), t(v[1])), t(rem()))}, [], R, q)
    q = "halomod.profiles.PowerLawWithExpCut._p"
    a, b_ = scalar("a", "+"), scalar("b", "+")

    def post_pl(v):
        at = S(tm.fn("arctan", t(K / a)))
        return {"closed-form transform": tm.eq(t(v), t((a**2 + K**2) ** (b_ / 2 - 1) * S(tm.fn("gamma", t(2 - b_))) * sin((2 - b_) * at) / K))}

    def post_pl2(v):
        return {"closed-form transform, b = 2": tm.eq(t(v), t(S(tm.fn("arctan", t(K / a))) / K))}

    C.prove(f"{q} (b != 2)", lambda: new(P.PowerLawWithExpCut, params={"a": a, "b": b_})._p(K), post_pl, [lt(b_, 2)], {**R, "b": (1.2, 1.9)}, q)
    C.prove(f"{q} (b > 2)", lambda: new(P.PowerLawWithExpCut, params={"a": a, "b": b_})._p(K), post_pl, [lt(2, b_), lt(b_, 3)], {**R, "b": (2.05, 2.9)}, q)
    C.prove(f"{q} (b = 2)", lambda: new(P.PowerLawWithExpCut, params={"a": a, "b": 2})._p(K), post_pl2, [], R, q)

    # ---- self-convolutions.  With g(y) = y f(y), G an antiderivative of g and both points within c,
    #   lambda(x, c) = (2 pi / x) L(x, c),  L = int dy g(y) [G(min(x + y, c)) - G(|x - y|)],
    # so that (Leibniz' rule, exchange of the two points)  dL/dc = 2 g(c) [G(c) - G(|c - x|)] for c > x/2, L(x, x/2) = 0.
    x_, c_ = scalar("x", "+"), scalar("c", "+")
    two = S(tm.num(2))
    log = lambda q: S(tm.fn("log", t(q)))
    RL = {"x": (0.1, 5), "c": (0.5, 20), "xx": (0.1, 5), "cc": (0.5, 20), "n": (2, 4), "nm": (2, 4), "nk": (2, 4)}
    GS = {"NFW": (lambda y: 1 / (1 + y) ** 2, lambda y: -1 / (1 + y)), "Hernquist": (lambda y: 1 / (1 + y) ** 3, lambda y: -half / (1 + y) ** 2)}

    def lam_near(name, x, c):  # ghost: antiderivative in c of 2 g(c) [G(c) - G(x - c)]
        u, w = 1 / (1 + c), 1 / (1 + x - c)
        lg = log((1 + c) / (1 + x - c))
        if name == "NFW":
            return u**2 + 2 * lg / (x + 2) ** 2 - 2 * u / (x + 2)
        return u**4 / 4 - u**2 / (2 * (x + 2) ** 2) + w / (x + 2) ** 3 - 2 * u / (x + 2) ** 3 + 3 * lg / (x + 2) ** 4

    def lam_far(name, x, a):  # ghost: antiderivative in c = 1/a of 2 g(c) [G(c) - G(c - x)]
        u, q = a / (1 + a), a / (1 + a - a * x)
        lg = log((1 + a) / (1 + a - a * x))
        if name == "NFW":
            return u**2 + 2 * u / x - 2 * lg / x**2
        return u**4 / 4 - q / x**3 - u**2 / (2 * x**2) - 2 * u / x**3 + 3 * lg / x**4

    for name, (g_, G_) in GS.items():
        near = t(lam_near(name, x_, c_))
        C.lemma(f"{name}: growth of the self-convolution with the outer radius, c < x", tm.eq(tm.diff(near, t(c_)), t(two * g_(c_) * (G_(c_) - G_(x_ - c_)))), [lt(c_, x_)], RL)
        far = tm.subst(t(lam_far(name, x_, scalar("a", "+"))), {t(scalar("a", "+")): tm.pow_(t(c_), tm.num(-1))})
        C.lemma(f"{name}: growth of the self-convolution with the outer radius, c > x", tm.eq(tm.diff(far, t(c_)), t(two * g_(c_) * (G_(c_) - G_(c_ - x_)))), [lt(x_, c_)], RL)
        C.lemma(f"{name}: the antiderivative vanishes at infinity", tm.eq(t(lam_far(name, x_, S(tm.ZERO))), tm.ZERO), [], RL)
        at_x = lam_near(name, x_, x_) - lam_near(name, x_, x_ / 2)  # L(x, x)
        q = f"halomod.profiles.{name}Inf._l"
        C.prove(q, lambda name=name: new(getattr(P, name + "Inf"))._l(x_), lambda v, name=name, at_x=at_x: {"self-convolution of the whole halo": tm.eq(tm.mul(t(v), t(x_)), t(two * pi * (at_x - lam_far(name, x_, 1 / x_))))}, [], RL, q)
    q = "halomod.profiles.NFW._l"
    g_, G_ = GS["NFW"]
    xs2, cs1 = array("xx", NK, NM, sign="+"), array("cc", NM, sign="+")
    X, CC = tm.app("xx", "+", I, J), tm.app("cc", "+", J)
    hy2 = [tm.lt(I, NK), tm.lt(J, NM)]

    def grow(v, far):
        e = tm.div(tm.mul(elem(v, I, J), X), tm.mul(tm.num(2), tm.PI))
        return {"growth with the outer radius": tm.eq(tm.diff(e, CC), t(two * g_(S(CC)) * (G_(S(CC)) - G_(S(CC) - S(X) if far else S(X) - S(CC))))), "one value per separation and halo": shape_is(v, NK, NM)}

    C.prove(f"{q} (x < c)", lambda: new(P.NFW)._l(xs2, cs1), lambda v: grow(v, True), [*hy2, tm.lt(X, CC)], RL, q)
    C.prove(f"{q} (c < x < 2c)", lambda: new(P.NFW)._l(xs2, cs1), lambda v: grow(v, False), [*hy2, tm.lt(CC, X), tm.lt(X, tm.mul(tm.num(2), CC))], RL, q)
    C.prove(f"{q} (x > 2c)", lambda: new(P.NFW)._l(xs2, cs1), lambda v: {"no pair of points": tm.eq(elem(v, I, J), tm.ZERO)}, [*hy2, tm.lt(tm.mul(tm.num(2), CC), X)], RL, q)
    xs1 = array("xx", N, sign="+")
    C.prove(f"{q} (x = 2c)", lambda: new(P.NFW)._l(xs1, xs1 / 2), lambda v: {"no pair of points": tm.eq(elem(v, I), tm.ZERO), "one value per separation": shape_is(v, N)}, [tm.lt(I, N)], RL, q)
    C.prove(f"{q} (x = c)", lambda: new(P.NFW)._l(xs1, xs1), lambda v: {"self-convolution at x = c": tm.eq(tm.mul(elem(v, I), tm.app("xx", "+", I)), t(two * pi * (lam_near("NFW", S(tm.app("xx", "+", I)), S(tm.app("xx", "+", I))) - lam_near("NFW", S(tm.app("xx", "+", I)), S(tm.app("xx", "+", I)) / 2))))}, [tm.lt(I, N)], RL, q)

    # ---- generic u and lam for an arbitrary transform / convolution
    d, rho, rho0, eta, zz = scalar("delta", "+"), scalar("rho_z", "+"), scalar("rho_0", "+"), scalar("eta"), scalar("z", "0+")
    kk, rr, m, cc = array("k", NK, sign="+"), array("r", N, sign="+"), array("m", NM, sign="+"), array("cc", NM, sign="+")
    hy = [tm.lt(I, NK), tm.lt(J, NM), tm.lt(tm.ONE, NK), tm.lt(tm.ONE, NM)]
    hyr = [tm.lt(I, N), tm.lt(J, NM), tm.lt(tm.ONE, N), tm.lt(tm.ONE, NM)]
    RG = {"delta": (100, 400), "rho_z": (1, 10), "rho_0": (1, 10), "eta": (-0.5, 0.5), "k": (0.01, 3), "r": (0.01, 3), "m": (1, 1000), "cc": (2, 20), "p": (0.1, 3), "h": (0.2, 5), "l": (0.2, 3), "nuf": (0.3, 4), "crel": (2, 20), "z": (0, 3), "kap": (0.01, 40)}

    class Rel:
        def cm(self, mm, z):
            return uf("crel", "+")(mm, z)

    def pK(*a_):
        return uf("p")(*a_[:2])

    def lX(*a_):
        return uf("l")(*a_[:2])

    base = dict(delta_halo=d, mean_dens=rho, mean_density0=rho0, params={"eta_bloat": eta}, nu_fn=uf("nuf", "+"), _f=uf("f", "+"), _h=uf("h", "+"), _p=pK, _l=lX, z=zz, _cm_relation=Rel(), has_lam=True)

    class Fin(P.Profile, abstract=True):
        pass

    class Inf(P.ProfileInf, abstract=True):
        pass

    Ki, Mj, Cj, Ri = S(tm.app("k", "+", I)), S(tm.app("m", "+", J)), S(tm.app("cc", "+", J)), S(tm.app("r", "+", I))
    nuM = ap("nuf", Mj, sign="+")
    # ---- transforms by quadrature: every tabulated wavenumber, from one concentration to the next, then looked up
    NT, J2 = tm.var("ntab", "i", "+"), tm.var("j2", "i", "0+")
    Kq, cq = array("K", NK, NM, sign="+"), array("cc", NM, sign="+")
    made = {}

    def fshape(x):
        return uf("fsh", "+")(x)

    def primitive(kx, upper):
        """contract of quad: the integral of x f(x) sin(k x)/k from 0 to upper (a functional of the integrand)"""
        bv = sym.bvar()
        x = S(bv)
        return tm.red("prim", bv, t(upper), t(x * fshape(x) * np.sin(S(kx) * x) / S(kx)))

    def quad_(fun, a, b_, args=(), points=None, limit=50, **kw):
        if args or set(kw) - {"epsabs", "epsrel"}:
            raise sym.Unsupported("quad form")
        bv = sym.bvar()
        body_ = t(fun(S(bv)))
        at = lambda e: tm.ZERO if t(e) is tm.ZERO else tm.red("prim", bv, t(e), body_)
        return S(tm.sub(at(b_), at(a))), S(tm.var("quad_error", "r", "0+"))

    def run_q():
        old = sym.OVER["logspace"]

        def table(a, b_, n=50, endpoint=True, base=10.0, **kw):
            made.update(a=t(a), b=t(b_), n=n, plain=endpoint is True and base == 10.0 and not kw)
            return array("kk", NT, sign="+")

        sym.OVER["logspace"] = table
        try:
            made.clear()
            v = new(GenNum, params={})._p(Kq, cq)
        finally:
            sym.OVER["logspace"] = old
        lo, hi = Kq.min(), Kq.max()
        return v, dict(made), lo, hi

    class GenNum(P.Profile, abstract=True):
        def _f(self, x):
            return fshape(x)

    def post_q(r):
        v, mk_, lo, hi = r
        bv = sym.bvar()
        tabv = tm.red("spl", bv, NT, primitive(tm.app("kk", "+", bv), S(tm.app("cc", "+", J))), tm.app("kk", "+", bv), tm.app("K", "+", I, J))
        lg = lambda e: tm.div(tm.fn("log", t(e)), tm.fn("log", tm.num(10)))
        same = tm.eq(t(lo), t(hi))
        return {
            "the transform to each halo's own concentration, at each of its wavenumbers": tm.eq(elem(v, I, J), tabv),
            "one value per wavenumber and halo": shape_is(v, NK, NM),
            "tabulated from the smallest wavenumber": tm.or_(same, tm.eq(mk_["a"], lg(lo))),
            "to the largest": tm.or_(same, tm.eq(mk_["b"], lg(hi))),
            "in logarithmic steps, a hundred": tm.TRUE if mk_["plain"] and mk_["n"] >= 100 else tm.FALSE,
        }

    def pick_table(loc):
        for v in loc.values():
            if isinstance(v, sym.A) and v.ndim == 2 and sym.same_dim(v.shape_t[0], NM) and sym.same_dim(v.shape_t[1], NT) and v.store.frame is None:
                return v
        return None

    chain = sym.ChainSpec(
        pick_table,
        lambda i: tm.app("argsort[cc]", "0+", i),
        1,
        lambda b_: primitive(tm.app("kk", "+", b_[1]), S(tm.app("cc", "+", b_[0]))),
    )
    q = "halomod.profiles.Profile._p"
    C.prove(q, run_q, post_q, [tm.lt(I, NK), tm.lt(J, NM), tm.lt(tm.ONE, NK), tm.lt(tm.ONE, NM), tm.lt(tm.num(4), NT)], {"k": (0.1, 2), "K": (0.1, 2), "cc": (2, 20)}, q, extra={"compact": True, "loops": {"_p": chain}, "integrate": {"quad": quad_}, "identity": [(IUS, sym.SymSplineI)]})

    # ---- the tabulated Einasto transform
    NT, NC = tm.var("nt", "i", "+"), tm.var("nct", "i", "+")
    tabs = []

    class Table2:
        """contract of RectBivariateSpline: a function of the two coordinates determined by its grids and table"""

        def __init__(self, x_, y_, z_, **k_):
            if k_:
                raise sym.Unsupported("bivariate spline options")
            tabs.append((sym.lift(x_), sym.lift(y_), sym.lift(z_).copy()))

        def ev(self, x_, y_):
            return uf("tab2")(x_, y_)

    def np_load(path):
        tabs.append(str(path))
        return {k_: v_.copy() for k_, v_ in {"pk": array("pkt", NT, NC), "K": array("Kt", NT, sign="+"), "c": array("ct", NC, sign="+")}.items()}  # fresh arrays

    class NPL:
        load = staticmethod(np_load)

        def __getattr__(self, n_):
            return getattr(sym.NPX, n_)

    from scipy.interpolate import RectBivariateSpline as RBS

    xt = {"globals": {"np": NPL()}, "identity": [(RBS, Table2)]}
    KM, Kv = array("KM", NK, NM, sign="+"), array("kv", NK, sign="+")

    def run_e(arg, cv_):
        del tabs[:]
        v = new(P.Einasto, params={"alpha": 0.18, "use_interp": True})._p(arg, cv_)
        return v, list(tabs)

    def post_e(want, shp):
        def f(res):
            v, tb = res
            path, (x_, y_, z_) = tb[0], tb[1]
            a_, b_ = tm.var("ta", "i", "0+"), tm.var("tb", "i", "0+")
            pk = tm.app("pkt", "", a_, b_)
            return {
                "looked up at each wavenumber and each halo's own concentration": tm.eq(want[0](v), want[1]),
                "one value for each": shp(v),
                "the table in the package's data": tm.TRUE if len(tb) == 2 and path.endswith("data/uKc_einasto.npz") else tm.FALSE,
                "log-log table": tm.and_(tm.eq(elem(x_, a_), tm.fn("log", tm.app("Kt", "+", a_))), tm.eq(elem(y_, b_), tm.fn("log", tm.app("ct", "+", b_))), tm.eq(elem(z_, a_, b_), tm.fn("log", tm.ite(tm.le(pk, tm.ZERO), tm.num(1e-8), pk)))),
            }
        return f

    look = lambda k_, c_: tm.fn("exp", tm.app("tab2", "", tm.fn("log", k_), tm.fn("log", c_)))
    CJ, C0 = tm.app("cc", "+", J), tm.app("c0", "+")
    q = "halomod.profiles.Einasto._p"
    RT = {**RG, "KM": (0.1, 9), "kv": (0.1, 9), "pkt": (-0.1, 1), "Kt": (0.1, 9), "ct": (1, 9), "tab2": (-2, 0), "c0": (1, 20), "k0": (0.1, 9)}
    hT = [*hy, tm.lt(tm.ZERO, NT), tm.lt(tm.ZERO, NC), tm.lt(tm.var("ta", "i", "0+"), NT), tm.lt(tm.var("tb", "i", "0+"), NC)]
    C.prove(f"{q} (table, matrix)", lambda: run_e(KM, cc), post_e((lambda v: elem(v, I, J), look(tm.app("KM", "+", I, J), CJ)), lambda v: shape_is(v, NK, NM)), hT, RT, q, extra=xt)
    C.prove(f"{q} (table, one halo)", lambda: run_e(Kv, scalar("c0", "+")), post_e((lambda v: elem(v, I), look(tm.app("kv", "+", I), t(scalar("c0", "+")))), lambda v: shape_is(v, NK)), hT, RT, q, extra=xt)
    C.prove(f"{q} (table, one wavenumber per halo)", lambda: run_e(array("kj", NM, sign="+"), cc), post_e((lambda v: elem(v, J), look(tm.app("kj", "+", J), CJ)), lambda v: shape_is(v, NM)), hT, {**RT, "kj": (0.1, 9)}, q, extra=xt)

    for cls, inf in ((Fin, False), (Inf, True)):
        cn = cls.__mro__[1].__name__
        q = f"halomod.profiles.{cn}.u"
        for coord in ("k", "kappa"):
            for norm in ("m", None):
                def run(cls=cls, coord=coord, norm=norm):
                    arg = kk if coord == "k" else array("kap", NK, NM, sign="+")
                    return new(cls, **base).u(arg, m, norm=norm, c=cc, coord=coord)

                def post(v, inf=inf, coord=coord, norm=norm):
                    rs = rs_spec(Mj, Cj, d, rho0, nuM, eta)
                    KK = Ki * rs if coord == "k" else ap("kap", I, J, sign="+")
                    p = ap("p", KK) if inf else ap("p", KK, Cj)
                    w = p / ap("h", Cj, sign="+") * (Mj if norm is None else 1)
                    return {"transform over enclosed mass" + (" times mass" if norm is None else ""): tm.eq(elem(v, I, J), t(w)), "one row per wavenumber, one column per mass": shape_is(v, NK, NM)}

                C.prove(f"{q} (norm={norm}, coord={coord})", run, post, hy, RG, q)

        def run0(cls=cls):
            return new(cls, **base).u(kk, m)

        def post0(v, inf=inf):
            c_ = ap("crel", Mj, zz, sign="+")
            KK = Ki * rs_spec(Mj, c_, d, rho0, nuM, eta)
            return {"defaults: unit mass, physical wavenumber, the relation's concentration": tm.eq(elem(v, I, J), t((ap("p", KK) if inf else ap("p", KK, c_)) / ap("h", c_, sign="+")))}

        C.prove(f"{q} (defaults)", run0, post0, hy, RG, q)
        sk, sm, sc = scalar("k0", "+"), scalar("m0", "+"), scalar("c0", "+")

        def runs(cls=cls):
            return new(cls, **base).u(sk, sm, c=sc)

        def posts(v, inf=inf):
            KK = sk * rs_spec(sm, sc, d, rho0, ap("nuf", sm, sign="+"), eta)
            return {"one halo, one wavenumber": tm.eq(t(v), t((ap("p", KK) if inf else ap("p", KK, sc)) / ap("h", sc, sign="+")))}

        C.prove(f"{q} (scalar)", runs, posts, [], {**RG, "k0": (0.1, 3), "m0": (1, 99), "c0": (2, 20)}, q)

        q = f"halomod.profiles.{cn}.lam"
        for norm in ("m", None):
            for coord in ("r", "s"):
                def runl(cls=cls, norm=norm, coord=coord):
                    return new(cls, **base).lam(rr, m, norm=norm, c=cc, coord=coord)

                def postl(v, inf=inf, norm=norm, coord=coord):
                    rs = rs_spec(Mj, Cj, d, rho0, nuM, eta)
                    x = Ri / rs if coord == "r" else Ri * Cj
                    H = ap("h", Cj, sign="+")
                    amp = 1 / (4 * S(tm.PI) * rs**3 * H) if norm == "m" else Cj**3 * d * rho / (3 * H)
                    return {"l(x) r_s^3 rho_s^2": tm.eq(elem(v, I, J), t((ap("l", x) if inf else ap("l", x, Cj)) * rs**3 * amp**2))}

                C.prove(f"{q} (norm={norm}, coord={coord})", runl, postl, hyr, RG, q)

    # ---- wiring in the halo model
    class PW:
        has_lam = True

        def __init__(self, base_):
            self.base = base_

        def __getattr__(self, n):
            if n in ("u", "rho", "lam"):
                import inspect

                sg = inspect.signature(getattr(self.base, n))

                def f(*a_, **kw):
                    bd = sg.bind(self, *a_, **kw)
                    bd.apply_defaults()
                    return (n, dict(bd.arguments))

                return f
            raise AttributeError(n)

    for pre, cls in (("halo", HM.DMHaloModel), ("tracer", HM.TracerHaloModel)):
        for bs in (P.Profile, P.ProfileInf):
            g = {"k": object(), "m": object(), "_r_table": object(), "r": object(), f"{'' if pre == 'halo' else 'tracer_'}cmz_relation": object(), f"{pre}_profile": PW(bs)}

            def runw(cls=cls, g=g, pre=pre):
                mk = Mock(cls, **g)
                return {n: getattr(mk, f"{pre}_profile_{n}") for n in ("ukm", "rho", "lam")}

            def postw(v, g=g, pre=pre):
                cm = g[f"{'' if pre == 'halo' else 'tracer_'}cmz_relation"]
                out = {}
                for n, meth, arg, first in (("ukm", "u", "k", "k"), ("rho", "rho", "r", "_r_table"), ("lam", "lam", "r", "_r_table")):
                    mth, b2 = v[n]
                    out[f"{pre} {n}: wavenumbers/separations, masses, concentrations"] = mth == meth and b2[arg] is g[first] and b2["m"] is g["m"] and b2["c"] is cm
                    out[f"{pre} {n}: normalised to unit mass"] = b2["norm"] == "m" and b2["coord"] == ("k" if n == "ukm" else "r")
                return TF(out)

            C.prove(f"halomod.halo_model.{cls.__name__}.{pre}_profile_ukm/rho/lam ({bs.__name__})", runw, postw, (), {}, [f"halomod.halo_model.{cls.__name__}.{pre}_profile_{n}" for n in ("ukm", "rho", "lam")])

    # ---------------- bounded
    names = list(SHAPES)

    def mk(rg, name):
        from hmf.halos.mass_definitions import SOCritical, SOMean

        p = gen_params(rg, name)
        eta_ = float(pick(rg, [0.0, 0.0, 0.3]))
        md = pick(rg, [SOMean(), SOMean(overdensity=300), SOCritical()])
        nuf = (lambda mm: 1 + 0 * np.asarray(mm)) if eta_ == 0 else (lambda mm: (np.asarray(mm) / 1e12) ** 0.3)
        kw = dict(p)
        if eta_:
            kw["eta_bloat"] = eta_
        return getattr(P, name)(CM(rg.uniform(4, 10), rg.uniform(-0.15, 0)), mdef=md, nu_fn=nuf, **kw), p

    slow = {"GeneralizedNFW", "Moore", "Einasto"}
    mp_ = {"MooreInf", "GeneralizedNFWInf"}

    def run_u(rg, i, r):
        name = names[i % len(names)]
        o, p = mk(rg, name)
        nm_ = int(rg.integers(1, 4))
        nk = int(rg.integers(1, 6))
        ms, cs = logu(rg, 1e10, 1e15, nm_), rg.uniform(2, 15, nm_)
        if rg.random() < 0.6:
            ms = np.sort(ms)
        mode = pick(rg, ["array", "array", "scalar m", "scalar k", "both scalar", "default c"])
        if mode == "default c":
            cs = o.cm_relation(ms)
        Kmax = 30 if name not in mp_ else 20
        kap = np.sort(logu(rg, 0.03, Kmax, nk))
        if rg.random() < 0.5:
            kap = rg.permutation(kap)
        norm = pick(rg, ["m", "m", None])
        coord = pick(rg, ["k", "k", "kappa"])
        if mode in ("scalar m", "both scalar"):
            ms, cs = float(ms[0]), float(cs[0])
        rs = np.atleast_1d(o._rs_from_m(ms, cs))
        ks = kap / rs[0]
        if mode in ("scalar k", "both scalar"):
            ks = float(ks[0])
        KK = np.atleast_1d(ks)[:, None] * rs[None, :]
        arg = ks
        if coord == "kappa":
            if mode in ("scalar k", "both scalar"):
                arg = float(KK[0, 0]) if np.ndim(ms) == 0 else KK[:1] * 1.0
                KK = KK[:1]
            elif mode == "scalar m":
                arg = KK[:, 0]
            else:
                arg = KK
        r.rec(profile=name, params=p, m=ms, c=cs, kappa=KK, mode=mode, norm=norm, coord=coord)
        before = np.array(arg, copy=True)
        got = np.asarray(o.u(arg, ms, norm=norm, coord=coord, **({} if mode == "default c" else {"c": cs})))
        r.ok(np.array_equal(before, arg), f"{name}: the caller's wavenumbers are untouched")
        c1 = np.atleast_1d(cs) * np.ones(len(rs))
        inf = name in INF
        ceff = c1
        if name == "Moore" and mode == "default c":
            ceff = np.atleast_1d(cs)
        want = np.array([[ftsum(name, p, q_, np.inf if inf else ceff[j]) for j, q_ in enumerate(row)] for row in KK])
        hh = np.array([msum(name, p, q_) for q_ in ceff])
        if name == "PowerLawWithExpCut":
            from scipy.special import gamma

            hh = np.full(len(hh), gamma(3 - p["b"]) * p["a"] ** (p["b"] - 3))
        want = want / hh[None, :] * (np.atleast_1d(ms)[None, :] if norm is None else 1)
        sc_ = 1 if norm == "m" else np.max(ms)
        KI = rg.integers(1, 9, (2, len(rs)))
        r.rec(whole_kappa=KI)
        r.close(o.u(KI, np.atleast_1d(ms), norm=norm, c=c1, coord="kappa"), o.u(KI.astype(float), np.atleast_1d(ms), norm=norm, c=c1, coord="kappa"), f"{name}: whole-number wavenumbers", 1e-9, 1e-12)
        tol = {"Moore": (1e-3, 2e-3), "GeneralizedNFW": (2e-3, 2e-3), "Einasto": (1e-3, 2e-3)}.get(name, (1e-5, 1e-7))
        r.close(got.reshape(want.shape), want, f"{name} transform (norm={norm}, coord={coord}, {mode})", tol[0], tol[1] * sc_)

    C.case("transform", run_u, 130 if C.tier == "quick" else 2600, "all profiles x scalar/array x normalisation x coordinate x unsorted inputs, against quadrature of the published shape")

    def run_many(rg, i, r):
        """many haloes and wavenumbers at once, at any epoch"""
        from astropy.cosmology import Planck15

        name = names[i % len(names)]
        o, p = mk(rg, name)
        o = getattr(P, name)(o._cm_relation, mdef=o.mdef, z=float(rg.uniform(1.1, 6)), nu_fn=o.nu_fn, **o.params)
        few = name in slow or name in mp_
        nm_ = int(rg.integers(41, 130)) if not few else 3
        nk = int(rg.integers(41, 90)) if not few else 8
        ms, cs = np.sort(logu(rg, 1e8, 8e15, nm_)), rg.uniform(1.2, 30, nm_)
        md, eta = o.mdef, o.params["eta_bloat"]
        rs = rs_spec(ms, cs, md.halo_overdensity_mean(o.z, Planck15), md.mean_density(0, cosmo=Planck15), o.nu_fn(ms), eta)
        if name.startswith("Moore"):
            rs = rs * cs / (cs / 1.7) ** 0.9
        norm, coord = pick(rg, ["m", None]), pick(rg, ["k", "kappa"])
        ks = np.sort(logu(rg, 0.05, 10, nk)) / np.median(rs)
        KK = ks[:, None] * rs[None, :]
        r.rec(profile=name, params=o.params, z=o.z, mdef=str(md), m=ms, c=cs, k=ks, norm=norm, coord=coord)
        got = o.u(ks if coord == "k" else KK.copy(), ms, norm=norm, c=cs, coord=coord)
        r.ok(np.shape(got) == (nk, nm_), "one row per wavenumber and one column per halo")
        a, j = np.sort(rg.choice(nk, 3, replace=False)), np.sort(rg.choice(nm_, 2, replace=False))
        want = np.array([[ftsum(name, p, KK[q, w_], np.inf if name in INF else cs[w_]) for w_ in j] for q in a])
        hh = np.array([msum(name, p, cs[w_]) for w_ in j])
        if name == "PowerLawWithExpCut":
            from scipy.special import gamma

            hh = np.full(len(hh), gamma(3 - p["b"]) * p["a"] ** (p["b"] - 3))
        want = want / hh[None, :] * (ms[j][None, :] if norm is None else 1)
        sel = (KK[np.ix_(a, j)] < 60) & (KK[np.ix_(a, j)] > (0.03 if few else 1e-3))
        tol = (3e-3, 4e-3) if few else (1e-5, 1e-7)
        sc_ = ms[j][None, :] if norm is None else 1
        r.close(np.where(sel, got[np.ix_(a, j)] / sc_, 0), np.where(sel, want / sc_, 0), f"{name} transform of many haloes (norm={norm}, coord={coord})", *tol)
        if name in LAM:
            got = o.lam(0.7 / ks, ms, norm=norm, c=cs)
            X = 0.7 / KK[np.ix_(a, j)]
            amp = 1 / (4 * np.pi * rs[j] ** 3 * hh) if norm == "m" else cs[j] ** 3 * md.halo_overdensity_mean(o.z, Planck15) * md.mean_density(z=o.z, cosmo=Planck15) / (3 * hh)
            w = np.array([[lamsum(name, X[q, w_], np.inf if name in INF else cs[j[w_]]) if name in INF or X[q, w_] < 2 * cs[j[w_]] else 0.0 for w_ in range(2)] for q in range(3)]) * (rs[j] ** 3 * amp**2)[None, :]
            far = (X > 0.05) & (X < (25 if name in INF else 1.9 * cs[j][None, :]))
            r.ok(np.shape(got) == (nk, nm_), "one row per separation and one column per halo")
            r.close(np.where(far, got[np.ix_(a, j)], 0) / w.max(), np.where(far, w, 0) / w.max(), f"{name} self-convolution of many haloes (norm={norm})", 1e-4, 1e-8)

    C.case("many haloes", run_many, 26 if C.tier == "quick" else 300, "more haloes and wavenumbers than a screenful, at high redshift")

    def run_low(rg, i, r):
        name = names[i % len(names)]
        o, p = mk(rg, name)
        ms = np.sort(logu(rg, 1e10, 1e15, 3))
        cs = rg.uniform(3, 12, 3)
        rs = o._rs_from_m(ms, cs)
        Kl = 1e-3 if name not in mp_ else 1e-2
        r.rec(profile=name, params=p, m=ms, c=cs)
        if name in INF and name != "PowerLawWithExpCut":
            ks = np.array([0.3, 3.0]) / rs.max()
            u = o.u(ks, ms, c=cs)
            r.ok(np.all(np.diff(u, axis=0) < 0), f"{name}: untruncated transform decreases with wavenumber")
            return
        ks = np.array([Kl, 2 * Kl, 0.3, 3.0, 10.0]) / (rs * cs).max()
        u = o.u(ks, ms, c=cs)
        r.close(u[0], 1, f"{name}: transform tends to one on large scales (mass conservation)", 1e-3)
        r.ok(np.all(np.abs(u) <= 1 + 2e-3), f"{name}: transform never exceeds the mass")

    C.case("mass conservation", run_low, 26 if C.tier == "quick" else 400)

    def run_lam(rg, i, r):
        name = ["NFW", "NFWInf", "HernquistInf"][i % 3]
        o, p = mk(rg, name)
        nm_ = int(rg.integers(1, 4))
        ms, cs = np.sort(logu(rg, 1e11, 1e15, nm_)), rg.uniform(3, 12, nm_)
        if rg.random() < 0.3:
            ms, cs = float(ms[0]), float(cs[0])
        rs = np.atleast_1d(o._rs_from_m(ms, cs))
        x = np.sort(np.concatenate([logu(rg, 0.05, 3, 3), rg.uniform(0.3, 2.3, 3) * np.min(cs)]))
        if name != "NFW":
            x = np.sort(logu(rg, 0.3, 30, 4))
        ss = x * rs[0]
        norm = pick(rg, ["m", None])
        r.rec(profile=name, m=ms, c=cs, r=ss, norm=norm)
        got = np.asarray(o.lam(ss, ms, norm=norm, c=cs))
        X = ss[:, None] / rs[None, :]
        c1 = np.atleast_1d(cs)
        l0 = np.array([[0.0 if (name == "NFW" and q_ >= 2 * c1[j]) else lamsum(name, q_, c1[j] if name == "NFW" else np.inf) for j, q_ in enumerate(row)] for row in X])
        hh = np.array([msum(name, p, q_) for q_ in c1])
        amp = 1 / (4 * np.pi * rs**3 * hh) if norm == "m" else c1**3 * o.delta_halo * o.mean_dens / (3 * hh)
        ok = X > 0.1  # closed forms cancel catastrophically below (rounding, not modelled)
        r.close(np.where(ok, got.reshape(l0.shape), 0), np.where(ok, l0 * (rs**3 * amp**2)[None, :], 0), f"{name} self-convolution (norm={norm})", 2e-5, 1e-9 * np.max(l0 * (rs**3 * amp**2)[None, :]))
        one = np.array([np.asarray(o.lam(np.array([q_]), ms, norm=norm, c=cs)).reshape(l0.shape[1]) for q_ in ss])
        r.close(one, got.reshape(l0.shape), "the self-convolution of each separation on its own", 1e-10, 1e-13 * np.max(np.abs(got)))
        pr = rg.permutation(len(ss))
        r.close(np.asarray(o.lam(ss[pr], ms, norm=norm, c=cs)).reshape(l0.shape), got.reshape(l0.shape)[pr], "in any order of separations", 1e-10, 1e-13 * np.max(np.abs(got)))
        r.raises(ValueError, lambda: o.lam(ss, ms, norm="rho", c=cs), "unsupported normalisation of the self-convolution is refused")
        r.raises(ValueError, lambda: o.u(1.0, ms, norm="rho", c=cs), "unsupported normalisation of the transform is refused")

    C.case("self-convolution", run_lam, 24 if C.tier == "quick" else 400, "independent two-centre integral of the published shape")

    def run_nolam(rg, i, r):
        name = [n for n in names if n not in LAM and n != "Hernquist"][i]
        o, p = mk(rg, name)
        r.rec(profile=name)
        r.ok(not o.has_lam, f"{name} claims no closed self-convolution")
        r.raises(AttributeError, lambda: o.lam(1.0, 1e12, c=5.0), "missing self-convolution is reported")

    C.case("no self-convolution", run_nolam, len([n for n in names if n not in LAM and n != "Hernquist"]))

    class UF(P.Profile):
        _defaults = {**P.Profile._defaults, "n": 2.0}

        def _f(self, x):
            return 1 / (0.3 + x) ** self.params["n"]

    class UI(P.ProfileInf):
        _defaults = {**P.Profile._defaults, "n": 2.0}

        def _f(self, x):
            return np.exp(-self.params["n"] * x) / x

        def _h(self, c):
            return 1 / self.params["n"] ** 2 * np.ones_like(c)

    def run_usr(rg, i, r):
        n = float(rg.uniform(1, 3))
        nm_ = int(rg.integers(1, 4))
        ms, cs = np.sort(logu(rg, 1e10, 1e15, nm_)), rg.uniform(3, 10, nm_)
        if i % 2:
            o = UI(CM(), n=n)
            rs = o._rs_from_m(ms, cs)
            ks = np.sort(logu(rg, 0.5, 10, int(rg.integers(1, 5)))) / rs[0]
            KK = ks[:, None] * rs[None, :]
            r.rec(kind="infinite", n=n, kappa=KK)
            got = np.asarray(o.u(ks, ms, c=cs)).reshape(KK.shape)
            w = n**2 / (n**2 + KK**2)
            mk_ = KK > 0.5
            r.close(got[mk_], w[mk_], "Hankel transform of a user-defined infinite profile", 5e-3)
        else:
            o = UF(CM(), n=n)
            rs = o._rs_from_m(ms, cs)
            ks = np.sort(logu(rg, 0.1, 15, int(rg.integers(1, 5)))) / rs[0]
            KK = ks[:, None] * rs[None, :]
            r.rec(kind="truncated", n=n, kappa=KK, c=cs)
            got = np.asarray(o.u(ks, ms, c=cs)).reshape(KK.shape)
            f = lambda x: 1 / (0.3 + x) ** n
            w = np.array([[quad(lambda x: x * x * f(x) * np.sinc(K_ * x / np.pi), 0, cs[j], limit=300)[0] / quad(lambda x: x * x * f(x), 0, cs[j])[0] for j, K_ in enumerate(row)] for row in KK])
            r.close(got, w, "numerical transform of a user-defined truncated profile", 2e-3, 3e-3)

    C.case("user-defined shape", run_usr, 16 if C.tier == "quick" else 200)

    def run_tab(rg, i, r):
        tmp = Path(tempfile.mkdtemp(prefix="vc06"))
        old = P.__file__
        try:
            (tmp / "data").mkdir()
            Kt, ct = np.logspace(-3, 2, 40), np.logspace(0, 1.5, 15)
            tab = lambda k, c_: c_**1.2 / (1 + 0.3 * k * c_) ** 1.5
            np.savez(tmp / "data" / "uKc_einasto.npz", K=Kt, c=ct, pk=tab(Kt[:, None], ct[None, :]))
            P.__file__ = str(tmp / "profiles.py")
            o = P.Einasto(CM())
            nm_ = int(rg.integers(1, 4))
            ms, cs = logu(rg, 1e10, 1e15, nm_), rg.uniform(2, 20, nm_)
            rs = o._rs_from_m(ms, cs)
            ks = logu(rg, 0.1, 10, int(rg.integers(2, 6))) / rs[0]
            r.rec(m=ms, c=cs, k=ks)
            got = np.asarray(o.u(ks, ms, c=cs)).reshape(len(ks), nm_)
            KK = ks[:, None] * rs
            inside = (KK > 2e-3) & (KK < 90)
            r.close(np.where(inside, got, 1), np.where(inside, tab(KK, cs[None, :]) / o._h(cs)[None, :], 1), "tabulated Einasto transform looked up at each halo's own concentration", 2e-3)
        finally:
            P.__file__ = old
            shutil.rmtree(tmp)

    C.case("tabulated Einasto", run_tab, 6 if C.tier == "quick" else 60, "synthetic table in a scratch directory")

    def run_ein(rg, i, r):
        o = P.Einasto(CM())
        r.rec(profile="Einasto", use_interp=True, stage="shipped table")
        k, m_, c_ = 1.0, 1e13, 6.0
        K_ = k * o._rs_from_m(m_, c_)
        r.close(o.u(k, m_, c=c_), ftsum("Einasto", {"alpha": 0.18}, K_, c_) / msum("Einasto", {"alpha": 0.18}, c_), "default Einasto transform", 1e-2)

    C.case("Einasto defaults", run_ein, 1)

    def run_hm(rg, i, r):
        name = pick(rg, ["NFW", "NFWInf", "HernquistInf", "Hernquist", "CoredNFW"])
        tn = pick(rg, ["NFW", "NFWInf", "CoredNFW"])
        z = float(pick(rg, [0.0, 1.0]))
        r.rec(profile=name, tracer=tn, z=z)
        hm = HM.TracerHaloModel(z=z, halo_profile_model=name, tracer_profile_model=tn, transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.5, lnk_min=-6, lnk_max=4, dlnk=0.5, rmin=0.02, rmax=50, rnum=12)
        for nm, pr, cmz, u, rho, lam in ((name, hm.halo_profile, hm.cmz_relation, hm.halo_profile_ukm, hm.halo_profile_rho, hm.halo_profile_lam), (tn, hm.tracer_profile, hm.tracer_cmz_relation, hm.tracer_profile_ukm, hm.tracer_profile_rho, hm.tracer_profile_lam)):
            rs = pr._rs_from_m(hm.m, cmz)
            for _ in range(8):
                a_, j = int(rg.integers(len(hm.k))), int(rg.integers(len(hm.m)))
                cj = cmz[j]
                Kv = hm.k[a_] * rs[j]
                if 1e-4 < Kv < 100:
                    r.close(u[a_, j], ftsum(nm, {}, Kv, np.inf if nm in INF else cj) / msum(nm, {}, cj), f"{nm} transform in a halo model", 1e-5, 1e-6)
                a_ = int(rg.integers(len(hm._r_table)))
                x = hm._r_table[a_] / rs[j]
                w = SHAPES[nm](x, {}) / (4 * np.pi * rs[j] ** 3 * msum(nm, {}, cj)) * (1 if nm in INF or x <= cj else 0)
                r.close(rho[a_, j], w, f"{nm} unit-mass density in a halo model", 1e-6)
                if lam is not None and nm in LAM and 0.3 < x < (1.9 * cj if nm == "NFW" else 50):
                    w = lamsum(nm, x, cj if nm == "NFW" else np.inf) * rs[j] ** 3 / (4 * np.pi * rs[j] ** 3 * msum(nm, {}, cj)) ** 2
                    r.close(lam[a_, j], w, f"{nm} unit-mass self-convolution in a halo model", 1e-4)

    C.case("in a halo model", run_hm, 8 if C.tier == "quick" else 60)
