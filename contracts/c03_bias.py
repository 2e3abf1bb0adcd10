"""C03 -- halo bias models are the published fitting functions."""

from __future__ import annotations

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import S, array, elem, scalar

from .common import *

DV = [200, 300, 400, 600, 800, 1200, 1600, 2400, 3200]
# Tinker et al. (2010), table 4
T10 = {
    "alpha": [0.368, 0.363, 0.385, 0.389, 0.393, 0.365, 0.379, 0.355, 0.327],
    "beta": [0.589, 0.585, 0.544, 0.543, 0.564, 0.623, 0.637, 0.673, 0.702],
    "gamma": [0.864, 0.922, 0.987, 1.09, 1.20, 1.34, 1.50, 1.68, 1.81],
    "phi": [-0.729, -0.789, -0.910, -1.05, -1.20, -1.26, -1.45, -1.50, -1.49],
    "eta": [-0.243, -0.261, -0.261, -0.273, -0.278, -0.301, -0.301, -0.319, -0.336],
}
T10EXP = {"beta": 0.20, "phi": -0.08, "eta": 0.27, "gamma": -0.01}


def lg(x):
    return np.log10(x)


# peak-background parameter x.nu is (delta_c/sigma)^2
def mo96(e):
    return 1 + (e.nu - 1) / e.delta_c


def jing98(e):
    return (e.p["a"] / (e.nu * e.nu) + 1) ** (e.p["b"] - e.p["c"] * e.n_eff) * (1 + (e.nu - 1) / e.delta_c)


def st99(e):
    qn = e.p["q"] * e.nu
    return 1 + (qn - 1) / e.delta_c + (2 * e.p["p"] / e.delta_c) / (1 + qn ** e.p["p"])


def smt01(e):
    a, b_, c = e.p["a"], e.p["b"], e.p["c"]
    an = a * e.nu
    ra = a ** sym_half(e)
    return 1 + (ra * an + ra * b_ * an ** (1 - c) - an**c / (an**c + b_ * (1 - c) * (1 - c / 2))) / (ra * e.delta_c)


def sym_half(e):
    return S(tm.num(0.5)) if isinstance(e.nu, S) else 0.5


def seljak(e):
    x = e.m / e.mstar
    p = e.p
    return p["a"] + p["b"] * x ** p["c"] + p["d"] / (p["e"] * x + 1) + p["f"] * x ** p["g"]


def seljak_cosmo(e):
    lx = lg(e.m / e.mstar)
    lx = np.where(lx < -1, -1.0, lx)
    return seljak(e) + lx * (e.p["a1"] * (e.Om0 - 0.3 + e.n - 1) + e.p["a2"] * (e.sigma_8 - 0.9 + e.h - 0.7))


def pillepich(e):
    return e.p["B0"] + e.p["B1"] * e.nu ** sym_half(e) + e.p["B2"] * e.nu


def tinker10(e):
    y = lg(e.delta_halo)
    g = np.exp(-((4 / y) ** 4))
    A_, a, c = 1 + 0.24 * y * g, 0.44 * y - 0.88, 0.019 + 0.107 * y + 0.19 * g
    v = e.nu ** sym_half(e)
    return 1 - A_ * v**a / (v**a + e.delta_c**a) + e.p["B"] * v ** e.p["b"] + c * v ** e.p["c"]


def unity(e):
    return 1 + 0 * e.nu


SPEC = {
    "UnityBias": (unity, {}),
    "Mo96": (mo96, {}),
    "Jing98": (jing98, {"a": 0.5, "b": 0.06, "c": 0.02}),
    "ST99": (st99, {"q": 0.707, "p": 0.3}),
    "Mandelbaum05": (st99, {"q": 0.73, "p": 0.15}),
    "Manera10": (st99, {"q": 0.709, "p": 0.248}),
    "SMT01": (smt01, {"a": 0.707, "b": 0.5, "c": 0.6}),
    "Tinker05": (smt01, {"a": 0.707, "b": 0.35, "c": 0.8}),
    "Seljak04": (seljak, {"a": 0.53, "b": 0.39, "c": 0.45, "d": 0.13, "e": 40, "f": 5e-4, "g": 1.5}),
    "Seljak04Cosmo": (seljak_cosmo, {"a": 0.53, "b": 0.39, "c": 0.45, "d": 0.13, "e": 40, "f": 5e-4, "g": 1.5, "a1": 0.4, "a2": 0.3}),
    "Pillepich10": (pillepich, {"B0": 0.647, "B1": -0.32, "B2": 0.568}),
    "Tinker10": (tinker10, {"B": 0.183, "b": 1.5, "c": 2.4}),
}
PAIRS = {"Mo96": ["PS"], "ST99": ["SMT"], "SMT01": ["SMT"], "Manera10": ["Manera"], "Tinker10PBSplit": ["Tinker10"]}
NUM_PARAM_POS = {"a", "q", "e", "B"}


class E:
    pass


def pbs(nu, dc, z, co, expo, zmax):
    """Tinker et al. 2010 eq. 15 with redshift evolution (their eqs. 9-12)"""
    zz = 1 + z if zmax is None else 1 + np.where(z > zmax, zmax, z)
    B = co["beta"] * zz ** expo["beta"]
    P = co["phi"] * zz ** expo["phi"]
    H = co["eta"] * zz ** expo["eta"]
    G = co["gamma"] * zz ** expo["gamma"]
    return 1 + (G * nu - (1 + 2 * H)) / dc + (2 * P / dc) / (1 + (B * B * nu) ** P)


def check(C):
    import halomod.bias as B
    import halomod.halo_model as HM
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    C.assumptions += [
        "published relations transcribed from the cited papers in terms of nu = (delta_c/sigma)^2",
        "nu, delta_c, m, mstar, delta_halo positive; floating-point rounding not modelled",
        "scipy InterpolatedUnivariateSpline: an interpolant linear in the tabulated coefficients (assumed contract)",
        "colossus haloBiasFromNu is external (its arguments are under contract, its values are not)",
    ]

    class Cosmo:
        h = scalar("h", "+")
        Om0 = scalar("Om0", "+")

    vals = dict(delta_c=scalar("delta_c", "+"), mstar=scalar("mstar", "+"), delta_halo=scalar("delta_halo", "+"), n=scalar("ns"), sigma_8=scalar("sigma_8", "+"), z=scalar("z", "0+"))
    nu, m, neff = array("nu", N, sign="+"), array("m", N, sign="+"), array("n_eff", N)
    inr = tm.lt(I, N)
    rng = {"nu": (0.05, 30), "m": (1e8, 1e16), "mstar": (1e11, 1e14), "delta_c": (1.5, 1.8), "delta_halo": (150, 4000), "n_eff": (-3, 1), "sigma_8": (0.6, 1), "ns": (0.9, 1.1), "h": (0.5, 0.9), "Om0": (0.1, 0.6), "z": (0, 6)}

    def build(name, params=None):
        k = getattr(B, name)
        return k(nu=nu, m=m, n_eff=neff, cosmo=Cosmo, **vals, **(params or {}))

    def env(p):
        e = E()
        e.nu, e.m, e.n_eff = S(tm.app("nu", "+", I)), S(tm.app("m", "+", I)), S(tm.app("n_eff", "", I))
        e.__dict__.update(vals)
        e.h, e.Om0 = Cosmo.h, Cosmo.Om0
        e.p = p
        return e

    for name, (f, defaults) in SPEC.items():
        q = f"halomod.bias.{name}.bias"
        P = {k: scalar("p_" + k, "+" if k in NUM_PARAM_POS else "") for k in defaults}
        r2 = dict(rng)
        r2.update({"p_" + k: (0.8 * v, 1.2 * v) if v > 0 else (1.2 * v, 0.8 * v) for k, v in defaults.items()})
        C.prove(f"{q} (any parameters)", lambda name=name, P=P: build(name, P).bias(),
                lambda v, f=f, P=P: {"published relation": tm.eq(elem(v, I), t(f(env(P)))), "one value per nu": shape_is(v, N)}, [inr], r2, q)
        C.prove(f"{q} (published defaults)", lambda name=name: build(name).bias(),
                lambda v, f=f, d=defaults: {"published relation and coefficients": tm.eq(elem(v, I), t(f(env(d))))}, [inr], rng, q)

    # Tinker10PBSplit on the tabulated overdensities, any coefficients
    q = "halomod.bias.Tinker10PBSplit.bias"
    K = B.Tinker10PBSplit
    co = {x: [scalar(f"p_{x}_{d}", "+" if x in ("beta", "gamma") else "") for d in DV] for x in ("beta", "gamma", "phi", "eta")}
    ex = {x: scalar(f"p_{x}_exp") for x in T10EXP}
    zmax = scalar("p_max_z", "0+")
    P = {f"{x}_{d}": co[x][j] for x in co for j, d in enumerate(DV)}
    P.update({f"{x}_exp": ex[x] for x in ex})
    P["max_z"] = zmax

    def runp(dh, params):
        def f():
            v = dict(vals, delta_halo=dh)
            return K(nu=nu, m=m, n_eff=neff, cosmo=Cosmo, **v, **params).bias()

        return f

    NU = S(tm.app("nu", "+", I))
    for j, d in enumerate(DV):
        want = lambda: pbs(NU, vals["delta_c"], vals["z"], {x: co[x][j] for x in co}, ex, zmax)
        C.prove(f"{q} (delta={d}, any parameters)", runp(d, P), lambda v, w=want: {"published relation": tm.eq(elem(v, I), t(w()))}, [inr], rng, q)
        want2 = lambda j=j: pbs(NU, vals["delta_c"], vals["z"], {x: T10[x][j] for x in co}, T10EXP, S(tm.num(3)))
        C.prove(f"{q} (delta={d}, published defaults)", runp(float(d), {}), lambda v, w=want2: {"published relation and coefficients": tm.eq(elem(v, I), t(w()))}, [inr], rng, q)

    class SymSpline(sym.SymInterp):
        def __init__(self, x, y, k=3, **kw):
            super().__init__("spline", x, y, (str(k), str(sorted(kw.items()))))

    def post_off(v):
        def tab(x):
            xs, ys = sym.lift(np.array(DV)), sym.lift(co[x])
            return sym.SymInterp("spline", xs, ys, ("3", "[]"))(250)

        return {"published relation on the spline of the table": tm.eq(elem(v, I), t(pbs(NU, vals["delta_c"], vals["z"], {x: tab(x) for x in co}, ex, zmax)))}

    C.prove(f"{q} (off-table delta, any parameters)", runp(250, P), post_off, [inr], {}, q, extra={"identity": [(IUS, SymSpline)]})

    # scale-dependent bias
    xi = array("xi", N, sign="0+")
    X = S(tm.app("xi", "0+", I))
    D = {"a": 1.17, "b": 1.49, "c": 0.69, "d": 2.09}
    PS_ = {k: scalar("p_" + k, "+") for k in D}
    q = "halomod.bias.TinkerSD05.bias_scale"
    sd = lambda p: ((1 + p["a"] * X) ** p["b"] / (1 + p["c"] * X) ** p["d"])
    for nm, p, kw in (("any parameters", PS_, PS_), ("published defaults", D, {})):
        C.prove(f"{q} ({nm})", lambda kw=kw: B.TinkerSD05(xi, **kw).bias_scale(),
                lambda v, p=p: {"square is the published relation": tm.eq(tm.mul(elem(v, I), elem(v, I)), t(sd(p))), "non-negative": le(0, elem(v, I))}, [inr], {"xi": (0, 50)}, q)

    # the halo model hands every ingredient to the bias model
    class Recd:
        def __init__(self, **kw):
            self.kw = kw

    given = dict(nu=object(), delta_c=object(), m=object(), mass_nonlinear=object(), halo_overdensity_mean=object(), n=object(), cosmo=object(), sigma_8=object(), n_eff=object(), z=object())

    def run_hm():
        mk = Mock(HM.DMHaloModel, bias_model=Recd, bias_params={"zz": 1}, **given)
        return mk.bias.kw

    def post_hm(kw):
        want = {"nu": "nu", "delta_c": "delta_c", "m": "m", "mstar": "mass_nonlinear", "delta_halo": "halo_overdensity_mean", "n": "n", "cosmo": "cosmo", "sigma_8": "sigma_8", "n_eff": "n_eff", "z": "z"}
        return {f"bias model receives {k}": tm.TRUE if kw.get(k) is given[v] else tm.FALSE for k, v in want.items()} | {"user parameters": tm.TRUE if kw.get("zz") == 1 else tm.FALSE}

    C.prove("halomod.halo_model.DMHaloModel.bias arguments", run_hm, post_hm, (), {}, "halomod.halo_model.DMHaloModel.bias")

    class SD:
        def __init__(self, xi_dm, **kw):
            self.xi, self.kw = xi_dm, kw

        def bias_scale(self):
            return uf("sdcorr", "+")(self.xi)

    rt_ = array("rt", NR, sign="+")

    def run_sd():
        mk_ = Mock(HM.DMHaloModel, sd_bias_model=SD, sd_bias_params={"a": 7}, corr_halofit_mm_fnc=uf("XINL"), corr_linear_mm_fnc=uf("XILIN"), _r_table=rt_)
        no = Mock(HM.DMHaloModel, sd_bias_model=None)
        return mk_.sd_bias, mk_.sd_bias_correction, no.sd_bias, no.sd_bias_correction

    C.prove(
        "halomod.halo_model.DMHaloModel.sd_bias/sd_bias_correction",
        run_sd,
        lambda v: {
            "the model's non-linear matter correlation at its separations": tm.eq(elem(v[0].xi, I), tm.app("XINL", "", tm.app("rt", "+", I))),
            "user parameters": tm.TRUE if v[0].kw == {"a": 7} else tm.FALSE,
            "the correction is the model's": tm.eq(elem(v[1], I), tm.app("sdcorr", "+", tm.app("XINL", "", tm.app("rt", "+", I)))),
            "none unless asked for": tm.TRUE if v[2] is None and v[3] is None else tm.FALSE,
        },
        [tm.lt(I, NR)],
        {"nr": (3, 5), "rt": (0.1, 5)},
        ["halomod.halo_model.DMHaloModel.sd_bias", "halomod.halo_model.DMHaloModel.sd_bias_correction"],
    )

    # external colossus models: arguments handed over
    calls = {}

    def haloBiasFromNu(**kw):
        calls.clear()
        calls.update(kw)
        calls["cosmology"] = cstate.current
        return calls["nu"]

    cstate = ColossusState()

    def run_col():
        from hmf.halos.mass_definitions import SOMean

        K_ = B.make_colossus_bias("tinker10", mdef=SOMean(), foo=1)
        k = K_(nu=nu, m=m, n_eff=neff, cosmo=Cosmo, **vals)
        cstate.other()
        out = k.bias()
        return out, dict(calls), calls["cosmology"]

    def post_col(v):
        out, kw, ca = v
        return {
            "nu is the peak height": tm.and_(tm.eq(tm.mul(elem(out, I), elem(out, I)), t(NU)), le(0, elem(out, I))),
            "redshift": eq(kw["z"], vals["z"]),
            "model, mass definition and parameters": tm.TRUE if kw["model"] == "tinker10" and kw["mdef"] == "200m" and kw.get("foo") == 1 else tm.FALSE,
            "cosmology: the model's own, whatever another model has set": tm.and_(tm.TRUE if ca.cosmo is Cosmo else tm.FALSE, eq(ca.kw["sigma8"], vals["sigma_8"]), eq(ca.kw["ns"], vals["n"])) if ca.cosmo is not None else tm.FALSE,
        }

    C.prove("halomod.bias.make_colossus_bias", run_col, post_col, [inr], {}, "halomod.bias.make_colossus_bias", extra={"globals": {"haloBiasFromNu": haloBiasFromNu, **cstate.globals()}})

    # ---- bounded
    import hmf.mass_function.fitting_functions as ff
    from astropy.cosmology import FlatLambdaCDM

    names = [*SPEC, "Tinker10PBSplit"]

    def conc(rg, i, r):
        name = names[i % len(names)]
        n = int(rg.integers(1, 30))
        e = E()
        s = np.sort(logu(rg, 0.05, 30, n))
        e.nu, e.m, e.n_eff = s, np.sort(logu(rg, 1e8, 1e16, n)), rg.uniform(-2.9, 0, n)
        e.delta_c, e.mstar, e.delta_halo, e.n, e.sigma_8, e.z = rg.uniform(1.5, 1.8), logu(rg, 1e11, 1e14), rg.uniform(150, 3500), rg.uniform(0.9, 1.1), rg.uniform(0.6, 1), rg.uniform(0, 6)
        cosmo = FlatLambdaCDM(H0=rg.uniform(50, 90), Om0=rg.uniform(0.15, 0.5))
        e.h, e.Om0 = cosmo.h, cosmo.Om0
        if name == "Tinker10PBSplit":
            d = K._defaults
            over = {}
            if rg.random() < 0.5:
                over = {k: d[k] * rg.uniform(0.9, 1.1) for k in d}
            on = rg.random() < 0.5
            if on:
                e.delta_halo = pick(rg, DV) * pick(rg, [1, 1.0])
            full = {**{f"{x}_{dd}": T10[x][j] for x in T10 for j, dd in enumerate(DV)}, **{f"{x}_exp": v for x, v in T10EXP.items()}, "max_z": 3, **over}
            r.rec(model=name, delta_halo=e.delta_halo, z=e.z, nu=e.nu, delta_c=e.delta_c, params=over)
            c0 = {}
            for x in ("beta", "gamma", "phi", "eta"):
                tab = [full[f"{x}_{dd}"] for dd in DV]
                c0[x] = tab[DV.index(int(e.delta_halo))] if on else float(IUS(DV, tab)(e.delta_halo))
            want = pbs(e.nu, e.delta_c, e.z, c0, {x: full[x + "_exp"] for x in T10EXP}, full["max_z"])
            got = K(nu=e.nu, m=e.m, n_eff=e.n_eff, cosmo=cosmo, delta_c=e.delta_c, mstar=e.mstar, delta_halo=e.delta_halo, n=e.n, sigma_8=e.sigma_8, z=e.z, **over).bias()
        else:
            f, dflt = SPEC[name]
            over = {k: float(v * rg.uniform(0.8, 1.2)) for k, v in dflt.items() if rg.random() < 0.5}
            e.p = {**dflt, **over}
            r.rec(model=name, params=over, nu=e.nu, m=e.m, delta_c=e.delta_c, mstar=e.mstar, delta_halo=e.delta_halo, n=e.n, n_eff=e.n_eff, sigma_8=e.sigma_8, h=e.h, Om0=e.Om0)
            want = f(e)
            got = getattr(B, name)(nu=e.nu, m=e.m, n_eff=e.n_eff, cosmo=cosmo, delta_c=e.delta_c, mstar=e.mstar, delta_halo=e.delta_halo, n=e.n, sigma_8=e.sigma_8, z=e.z, **over).bias()
        r.close(got, want, f"{name} bias", 1e-8)
        if name in PAIRS:
            r.ok([k.__name__ for k in getattr(B, name).pair_hmf] == PAIRS[name], f"{name}: paired mass function")

    C.case("models", conc, (60 if C.tier == "quick" else 600) * len(names), "random model, parameters, peak heights, masses, cosmology")

    def conc_sd(rg, i, r):
        x = logu(rg, 1e-6, 100, 20)
        p = {k: float(v * rg.uniform(0.7, 1.3)) for k, v in D.items() if rg.random() < 0.6}
        f = {**D, **p}
        r.rec(params=p, xi=x)
        got = B.TinkerSD05(x, **p).bias_scale()
        r.close(np.asarray(got) ** 2, (1 + f["a"] * x) ** f["b"] / (1 + f["c"] * x) ** f["d"], "scale-dependent bias squared", 1e-9)

    C.case("scale-dependent", conc_sd, 20 if C.tier == "quick" else 300)

    # colossus fits use a global cosmology
    def conc_col(rg, i, r):
        from astropy.cosmology import FlatLambdaCDM
        from colossus.cosmology import cosmology as cc
        from colossus.lss.bias import haloBiasFromNu as hb
        from hmf.halos.mass_definitions import SOMean, SOVirial

        nu_ = np.sort(rg.uniform(0.3, 20, 5))
        zz = float(rg.uniform(0, 2))
        nm, md = pick(rg, [("tinker10", SOVirial()), ("tinker10", SOMean()), ("bhattacharya11", SOMean()), ("comparat17", SOMean())])
        om, s8 = float(rg.uniform(0.2, 0.4)), float(rg.uniform(0.7, 0.95))
        r.rec(model=nm, mdef=md.colossus_name, nu=nu_, z=zz, Om0=om, sigma_8=s8)
        K_ = B.make_colossus_bias(nm, mdef=md)
        mk_ = lambda o, s: K_(nu=nu_, delta_c=1.686, m=np.logspace(11, 15, 5), mstar=1e13, delta_halo=200, n=0.96, sigma_8=s, cosmo=FlatLambdaCDM(H0=70, Om0=o, Ob0=0.05, Tcmb0=2.725, name=""), z=zz)
        k = mk_(om, s8)
        mk_(0.9, 0.6)  # another model, made before the first is used
        got = k.bias()
        cc.setCosmology("x", params=dict(flat=True, H0=70, Om0=om, Ob0=0.05, sigma8=s8, ns=0.96, persistence=""))
        r.close(got, hb(nu=np.sqrt(nu_), z=zz, mdef=md.colossus_name, model=nm), f"colossus bias {nm} in the model's own cosmology", 1e-5)

    C.case("colossus fits", conc_col, 8 if C.tier == "quick" else 60, "fits wrapped from colossus, with another model of another cosmology at the same time")

    # inside a halo model: bias follows the model's own cosmology/redshift
    def conc_hm(rg, i, r):
        z = float(pick(rg, [0.0, 0.7, 2.0]))
        name = pick(rg, ["Tinker10PBSplit", "Tinker10", "SMT01", "Seljak04Cosmo", "Jing98", "Manera10"])
        s8 = rg.uniform(0.7, 0.9)
        r.rec(z=z, model=name, sigma_8=s8)
        hm = HM.DMHaloModel(z=z, bias_model=name, transfer_model="EH", sigma_8=s8, Mmin=10, Mmax=15, dlog10m=0.2, lnk_min=-8, lnk_max=6, dlnk=0.05)
        e = E()
        e.nu, e.m, e.n_eff, e.delta_c, e.mstar, e.delta_halo, e.n, e.sigma_8, e.z = hm.nu, hm.m, hm.n_eff, hm.delta_c, hm.mass_nonlinear, hm.halo_overdensity_mean, hm.n, hm.sigma_8, hm.z
        e.h, e.Om0 = hm.cosmo.h, hm.cosmo.Om0
        if name == "Tinker10PBSplit":
            c0 = {x: (T10[x][DV.index(round(e.delta_halo))] if round(e.delta_halo) in DV and abs(e.delta_halo - round(e.delta_halo)) < 1e-9 else float(IUS(DV, T10[x])(e.delta_halo))) for x in ("beta", "gamma", "phi", "eta")}
            want = pbs(e.nu, e.delta_c, e.z, c0, T10EXP, 3)
        else:
            f, e.p = SPEC[name]
            want = f(e)
        if name == "Tinker10PBSplit" and z > 0:
            old = pbs(e.nu, e.delta_c, 0.0, c0, T10EXP, 3)
            r.ok(not np.allclose(hm.halo_bias, old, rtol=1e-10), "halo bias evaluated with the coefficients of z=0")
        r.close(hm.halo_bias, want, f"halo bias of {name} at z={z}", 1e-8)
        sp = {} if i % 2 else {"a": float(rg.uniform(1, 1.4)), "d": float(rg.uniform(1.9, 2.3))}
        h2 = HM.DMHaloModel(z=z, sd_bias_model="TinkerSD05", sd_bias_params=sp, transfer_model="EH", sigma_8=s8, Mmin=10, Mmax=15, dlog10m=0.5, lnk_min=-6, lnk_max=4, dlnk=0.2, dr_table=0.2)
        xi_ = h2.corr_halofit_mm_fnc(h2._r_table)
        f2 = {**D, **sp}
        r.close(h2.sd_bias_correction**2, (1 + f2["a"] * xi_) ** f2["b"] / (1 + f2["c"] * xi_) ** f2["d"], "scale-dependent bias of a halo model: its own non-linear matter correlation", 1e-8)
        r.ok(hm.sd_bias_correction is None, "no scale-dependent bias unless asked for")

    C.case("in a halo model", conc_hm, 6 if C.tier == "quick" else 60)
