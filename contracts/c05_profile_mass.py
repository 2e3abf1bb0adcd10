"""C05 -- halo density profiles have the published shape and contain exactly the halo's mass."""

from __future__ import annotations

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import S, array, elem, scalar

from .common import *
from .profspec import CM, FIN, INF, PARS, SHAPES, gen_params, msum

PI = np.pi


def rs_spec(m, c, d, rho, nu, eta):
    third = S(tm.num(tm.Fr(1, 3))) if isinstance(m, S) else 1 / 3
    half = S(tm.num(0.5)) if isinstance(m, S) else 0.5
    pi = S(tm.PI) if isinstance(m, S) else np.pi
    return (3 * m / (4 * pi * d * rho)) ** third * (nu**half) ** eta / c


def check(C):
    import halomod.profiles as P

    C.assumptions += [
        "shapes f(x) transcribed from the cited papers; x, c, K, masses, densities positive; rounding not modelled",
        "fundamental theorem of calculus: h(0)=0 and h'(c)=c^2 f(c) make h(c) the enclosed mass in units of 4 pi rho_s r_s^3",
        "profiles without a closed-form mass (GeneralizedNFW and user-defined shapes): scipy's cumulative_simpson is the running integral of its table and the spline through it an interpolant; what is tabulated and where it is evaluated is proved",
        "array lengths >= 2 in the symbolic proofs (length-1 axes are squeezed by the code; covered by bounded cases)",
    ]
    x, c = scalar("x", "+"), scalar("c", "+")
    R = {"x": (0.01, 30), "c": (0.5, 30), "a": (0.05, 2), "b": (1.2, 2.9), "alpha": (0.1, 1.4)}

    def sp(name):
        return {k: scalar(k, "+") for k in PARS.get(name, {})}

    for name in SHAPES:
        K = getattr(P, name)
        q = f"halomod.profiles.{name}._f"
        prm = sp(name)
        C.prove(q, lambda K=K, prm=prm: new(K, params={**K._defaults, **prm})._f(x), lambda v, name=name, prm=prm: {"published shape": eq(v, SHAPES[name](x, prm))}, [], R, q)
        C.prove(f"{q} (published defaults)", lambda K=K: new(K, params=dict(K._defaults))._f(x), lambda v, name=name: {"published shape and parameters": eq(v, SHAPES[name](x, {k: S(tm.num(y)) for k, y in PARS.get(name, {}).items()}))}, [], R, q)
        q = f"halomod.profiles.{name}._h"
        if name.startswith("GeneralizedNFW"):
            continue
        if name == "PowerLawWithExpCut":
            def pw(v, prm=prm):
                a, b_ = prm["a"], prm["b"]
                return {"total mass of the infinite profile, Gamma(3-b)/a^(3-b)": tm.eq(t(v), tm.mul(tm.fn("gamma", t(3 - b_)), tm.pow_(t(a), t(b_ - 3))))}

            C.prove(q, lambda K=K, prm=prm: new(K, params={**K._defaults, **prm})._h(c), pw, [lt(prm["b"], 3)], {**R, "b": (1.2, 2.9)}, q)
            continue

        def post(v, name=name, prm=prm):
            h = t(v)
            zero = tm.subst(h, {t(c): tm.ZERO})
            return {
                "h'(c) = c^2 f(c)": tm.eq(tm.diff(h, t(c)), t(c * c * SHAPES[name](c, prm))),
                "h(0) = 0": tm.eq(zero, tm.ZERO),
            }

        C.prove(q, lambda K=K, prm=prm: new(K, params={**K._defaults, **prm})._h(c), post, [], R, q)

    # ---- numerical enclosed mass, for any shape f
    def cums(y, *, x=None, dx=1.0, axis=-1, initial=None):
        """contract of cumulative_simpson on an even grid: a linear functional of the whole table for each end point"""
        y = sym.lift(y)
        if x is not None or initial != 0 or y.ndim != 1:
            raise sym.Unsupported("cumulative_simpson form")
        snap, n, k0 = y.snapshot(), y.shape_t[0], y.k

        def at(ix):
            bv = sym.bvar()
            return tm.red("csimp", bv, n, sym.toreal(snap((bv,)), k0), ix[-1])

        return A(y.shape_t, at) * sym.lift(dx)

    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    xh = {"integrate": {"cumulative_simpson": cums}, "interpolate": {"InterpolatedUnivariateSpline": sym.SymSplineI}, "identity": [(IUS, sym.SymSplineI)]}
    fany = uf("f", "+")

    def hgrid(top):
        step = (top - S(tm.num(tm.Fr(1, 10**6)))) / 1999
        x_ = sym.c_linspace(S(tm.num(tm.Fr(1, 10**6))), top, 2000)
        return x_, cums(fany(x_) * x_**2, dx=step, initial=0)

    cz = array("cz", N, sign="+")
    rel = type("Rel", (), {"cm": lambda self, mm, zz=None: uf("cm", "+")(mm, zz)})()

    def hobj():
        return new(P.Profile, _f=fany, z=scalar("z", "0+"), _cm_relation=rel)

    RH = {**R, "cz": (1, 20), "f": (0.1, 2), "cm": (2, 20), "z": (0, 2), "mh": (1, 9)}
    q = "halomod.profiles.Profile._h"

    def post_h(cc):
        def f(v):
            x_, tab = hgrid(np.max(cc))
            return {"the enclosed mass at each concentration, interpolated in the cumulative integral of x^2 f up to the largest": tm.eq(elem(v, I), elem(sym.SymSplineI(x_, tab, k=3)(cc), I)), "one value per concentration": shape_is(v, N)}
        return f

    C.prove(f"{q} (many concentrations)", lambda: hobj()._h(cz), post_h(cz), [lt(I, N)], RH, q, extra=xh)
    C.prove(f"{q} (one concentration)", lambda: hobj()._h(c), lambda v: {"the integral of x^2 f up to the concentration": tm.eq(t(v), elem(hgrid(c)[1], tm.num(1999)))}, [], RH, q, extra=xh)
    mh = array("mh", N, sign="+")
    C.prove(f"{q} (from masses)", lambda: hobj()._h(m=mh), lambda v: post_h(uf("cm", "+")(mh, scalar("z", "0+")))(v), [lt(I, N)], RH, q, extra=xh)
    C.prove(f"{q} (nothing given)", lambda: hobj()._h(), lambda v: {"refused": tm.FALSE}, [], RH, q, allow_raise=(ValueError,), extra=xh)

    # ---- generic normalisation for any shape f and enclosed mass h
    d, rho, rho0, eta = scalar("delta", "+"), scalar("rho_z", "+"), scalar("rho_0", "+"), scalar("eta")
    rr, m, cc = array("r", N, sign="+"), array("m", NM, sign="+"), array("cc", NM, sign="+")
    hy = [tm.lt(I, N), tm.lt(J, NM), tm.lt(tm.ONE, N), tm.lt(tm.ONE, NM)]
    RG = {"delta": (100, 400), "rho_z": (1, 10), "rho_0": (1, 10), "eta": (-0.5, 0.5), "r": (0.01, 3), "m": (1, 1000), "cc": (2, 20), "f": (0.1, 3), "h": (0.2, 5), "nuf": (0.3, 4), "crel": (2, 20), "z": (0, 3), "xx": (0.01, 40)}
    zz = scalar("z", "0+")

    class Rel:
        def cm(self, mm, z):
            return uf("crel", "+")(mm, z)

    base = dict(delta_halo=d, mean_dens=rho, mean_density0=rho0, params={"eta_bloat": eta}, nu_fn=uf("nuf", "+"), _f=uf("f", "+"), _h=uf("h", "+"), z=zz, _cm_relation=Rel(), has_lam=False)
    Ri, Mj, Cj = S(tm.app("r", "+", I)), S(tm.app("m", "+", J)), S(tm.app("cc", "+", J))

    class Fin(P.Profile, abstract=True):
        pass

    class Inf(P.ProfileInf, abstract=True):
        pass

    def F(y):
        return ap("f", y, sign="+")

    def H(y):
        return ap("h", y, sign="+")

    def amp(norm, mm, c_):
        rs = rs_spec(mm, c_, d, rho0, ap("nuf", mm, sign="+"), eta)
        if norm == "m":
            return 1 / (4 * S(tm.PI) * rs**3 * H(c_))
        r = c_**3 * d / (3 * H(c_))
        return r if norm == "rho" else r * rho

    def want(norm, y, mm, c_, inf):
        v = t(F(y) * amp(norm, mm, c_))
        return v if inf else tm.ite(lt(c_, y), tm.ZERO, v)

    for cls, inf in ((Fin, False), (Inf, True)):
        q = f"halomod.profiles.{cls.__mro__[1].__name__}.rho"
        for norm in ("m", "rho", None):
            what = {"m": "f/(4 pi r_s^3 h): unit mass within the truncation radius", "rho": "mean overdensity delta_halo inside the truncation radius", None: "overdensity times the mean density at the profile's redshift"}[norm]
            for coord in ("r", "x", "s"):
                def run(cls=cls, norm=norm, coord=coord):
                    o = new(cls, **base)
                    y = rr if coord != "x" else array("xx", N, NM, sign="+")
                    return o.rho(y, m, norm=norm, c=cc, coord=coord)

                def post(v, norm=norm, coord=coord, inf=inf, what=what):
                    y = {"r": Ri / rs_spec(Mj, Cj, d, rho0, ap("nuf", Mj, sign="+"), eta), "s": Ri * Cj, "x": ap("xx", I, J, sign="+")}[coord]
                    return {what: tm.eq(elem(v, I, J), want(norm, y, Mj, Cj, inf)), "one row per radius, one column per mass": shape_is(v, N, NM)}

                C.prove(f"{q} (norm={norm}, coord={coord})", run, post, hy, RG, q)
        # scalars and default concentration
        sr, sm, sc = scalar("r0", "+"), scalar("m0", "+"), scalar("c0", "+")
        for nm, cgiven in (("given concentration", True), ("relation's concentration", False)):
            def run(cls=cls, cgiven=cgiven):
                return new(cls, **base).rho(sr, sm, norm="m", **({"c": sc} if cgiven else {}))

            def post(v, cgiven=cgiven, inf=inf):
                c_ = sc if cgiven else ap("crel", sm, zz, sign="+")
                y = sr / rs_spec(sm, c_, d, rho0, ap("nuf", sm, sign="+"), eta)
                return {"density of one halo at one radius": tm.eq(t(v), want("m", y, sm, c_, inf))}

            C.prove(f"{q} (scalar, {nm})", run, post, [], {**RG, "r0": (0.01, 2), "m0": (1, 1000), "c0": (2, 20)}, q)

    q = "halomod.profiles.Profile.cdf"

    def runc(coord):
        def f():
            y = rr if coord != "x" else array("xx", N, NM, sign="+")
            return new(Fin, **base).cdf(y, c=cc, m=m, coord=coord)

        return f

    for coord in ("r", "x", "s"):
        def post(v, coord=coord):
            y = {"r": Ri / rs_spec(Mj, Cj, d, rho0, ap("nuf", Mj, sign="+"), eta), "s": Ri * Cj, "x": ap("xx", I, J, sign="+")}[coord]
            return {"enclosed mass fraction h(x)/h(c)": tm.eq(elem(v, I, J), t(H(y) / H(Cj)))}

        C.prove(f"{q} (coord={coord})", runc(coord), post, hy, RG, q)
    # exponentially cut power law: normalised by its own enclosed mass
    q = "halomod.profiles.PowerLawWithExpCut.cdf"
    a_, b_ = scalar("a", "+"), scalar("b", "+")

    def runpl():
        return new(P.PowerLawWithExpCut, **{k: v for k, v in base.items() if k not in ("_f", "_h")} | {"params": {"eta_bloat": eta, "a": a_, "b": b_}}).cdf(x, c=c, m=scalar("m0", "+"), coord="x")

    def postpl(v):
        g = lambda y: tm.fn("gammainc", t(3 - b_), t(a_ * y))
        dv = tm.diff(t(v), t(x))
        return {
            "cdf' proportional to x^2 f(x)": tm.eq(tm.mul(dv, g(c), tm.fn("gamma", t(3 - b_))), t(x * x * SHAPES["PowerLawWithExpCut"](x, {"a": a_, "b": b_}) * a_ ** (3 - b_))),
            "cdf(c) = 1": tm.eq(tm.mul(tm.subst(t(v), {t(x): t(c)}), g(c)), g(c)),
        }

    C.prove(q, runpl, postpl, [lt(b_, 3)], R, q)

    # ---- lemmas: what the contracts add up to
    cv, dl, mm_ = t(scalar("c", "+")), t(d), t(scalar("m0", "+"))
    rs = tm.var("rs", "r", "+")
    h = tm.app("h", "+", cv)
    C.lemma("unit mass: 4 pi r_s^3 h(c) * amplitude(norm=m) = 1", tm.eq(tm.mul(tm.num(4), tm.PI, tm.pow_(rs, tm.num(3)), h, tm.div(tm.ONE, tm.mul(tm.num(4), tm.PI, tm.pow_(rs, tm.num(3)), h))), tm.ONE))
    C.lemma("mean overdensity: 3/c^3 int_0^c x^2 f = delta_halo (norm=rho)", tm.eq(tm.mul(tm.num(3), tm.pow_(cv, tm.num(-3)), h, tm.div(tm.mul(tm.pow_(cv, tm.num(3)), dl), tm.mul(tm.num(3), h))), dl))

    # ---------------- bounded
    from hmf.halos.mass_definitions import SOCritical, SOMean, SOVirial

    names = list(SHAPES)

    def mk(rg, name):
        p = gen_params(rg, name)
        eta = float(pick(rg, [0.0, 0.0, 0.3]))
        z = float(pick(rg, [0.0, 0.0, 1.0]))
        md = pick(rg, [SOMean(), SOMean(overdensity=300), SOCritical(), SOVirial()])
        nuf = (lambda mm: 1 + 0 * np.asarray(mm)) if eta == 0 else (lambda mm: (np.asarray(mm) / 1e12) ** 0.3)
        rel = CM(rg.uniform(4, 10), rg.uniform(-0.15, 0))
        kw = dict(p)
        if eta:
            kw["eta_bloat"] = eta
        o = getattr(P, name)(rel, mdef=md, z=z, nu_fn=nuf, **kw)
        return o, p, eta, z, md, nuf, rel

    def run_rho(rg, i, r):
        name = names[i % len(names)]
        o, p, eta, z, md, nuf, rel = mk(rg, name)
        nm_ = int(rg.integers(1, 4))
        ms, cs = np.sort(logu(rg, 1e10, 1e15, nm_)), rg.uniform(2, 15, nm_)
        norm = pick(rg, ["m", "rho", None])
        coord = pick(rg, ["r", "x", "s"])
        scal_m, scal_r = rg.random() < 0.3, rg.random() < 0.25
        if scal_m:
            ms, cs = float(ms[0]), float(cs[0])
        r.rec(profile=name, params=p, eta=eta, z=z, mdef=str(md), m=ms, c=cs, norm=norm, coord=coord, scalar_r=scal_r)
        from astropy.cosmology import Planck15

        dl = md.halo_overdensity_mean(z, Planck15)
        rs = rs_spec(np.asarray(ms), np.asarray(cs), dl, md.mean_density(0, cosmo=Planck15), nuf(ms), eta)
        if name.startswith("Moore"):
            rs = rs * cs / (cs / 1.7) ** 0.9
        y = logu(rg, 0.02, 2.5, 1 if scal_r else 6)
        y[0] = 1.0 if (coord == "s" and rg.random() < 0.3) else y[0]
        x = y[:, None] * np.atleast_1d(cs)[None, :]
        arg = {"r": None, "s": y, "x": x}[coord]
        if coord == "r":
            y = logu(rg, 0.02, 2.0, len(y)) * float(np.min(rs * cs))
            x = y[:, None] / np.atleast_1d(rs)[None, :]
            arg = y
        if coord == "x" and scal_m:
            arg = x[:, 0]
        if scal_r:
            if coord == "x":
                arg = float(x[0, 0]) if scal_m else x[0]
            else:
                arg = float(arg[0])
        got = o.rho(arg, ms, norm=norm, c=cs, coord=coord)
        hh = np.array([msum(name, p, np.inf if name == "PowerLawWithExpCut" and False else float(q_)) for q_ in np.atleast_1d(cs)])
        if name == "PowerLawWithExpCut":
            from scipy.special import gamma

            hh = np.full(len(hh), gamma(3 - p["b"]) * p["a"] ** (p["b"] - 3))
        A_ = {"m": 1 / (4 * np.pi * np.atleast_1d(rs) ** 3 * hh), "rho": np.atleast_1d(cs) ** 3 * dl / (3 * hh), None: np.atleast_1d(cs) ** 3 * dl / (3 * hh) * md.mean_density(z=z, cosmo=Planck15)}[norm]
        w = SHAPES[name](x, p) * A_[None, :]
        if name not in INF:
            w = np.where(x > np.atleast_1d(cs)[None, :] * (1 + 1e-12), 0, w)
            edge = np.abs(x / np.atleast_1d(cs)[None, :] - 1) < 1e-9
        else:
            edge = np.zeros(x.shape, bool)
        g = np.asarray(got).reshape(w.shape)
        tol = 1e-6 if not name.startswith("GeneralizedNFW") else 2e-4
        r.close(np.where(edge, w, g), w, f"{name} density (norm={norm}, coord={coord})", tol)

    C.case("density", run_rho, 100 if C.tier == "quick" else 2000, "all profiles x normalisations x coordinates x scalar/array x mass definitions; independent quadrature of the published shape")

    def run_mass(rg, i, r):
        name = names[i % len(names)]
        o, p, eta, z, md, nuf, rel = mk(rg, name)
        m0, c0 = float(logu(rg, 1e10, 1e15)), float(rg.uniform(2, 15))
        r.rec(profile=name, params=p, eta=eta, z=z, mdef=str(md), m=m0, c=c0)
        rs = o._rs_from_m(m0, c0)
        # integrate the density the code returns over the truncation volume
        g, wt = np.polynomial.legendre.leggauss(60)
        tot = 0.0
        edges = [1e-18, 1e-13, 1e-9, 1e-6, 1e-4, 1e-2, 0.1, 0.3, 0.6, 1 - 1e-12]
        for lo, hi in zip(edges, edges[1:]):
            lr = 0.5 * (np.log(hi) - np.log(lo)) * g + 0.5 * (np.log(hi) + np.log(lo))
            s_ = np.exp(lr) * rs * c0
            tot += np.sum(wt * 0.5 * (np.log(hi) - np.log(lo)) * 4 * np.pi * s_**3 * o.rho(s_, m0, norm="m", c=c0))
        wantm = 1.0
        if name == "PowerLawWithExpCut":
            from scipy.special import gammainc

            wantm = gammainc(3 - p["b"], p["a"] * c0)
        r.close(tot, wantm, f"{name}: the density integrates to the halo's mass inside the truncation radius", 1e-4)
        xs = np.sort(np.append(rg.uniform(0.02, 1, 5) * c0, c0))
        cdf = o.cdf(xs, c=c0, m=m0, coord="x")
        wc = np.array([msum(name, p, float(x_)) for x_ in xs]) / msum(name, p, c0)
        r.close(np.ravel(cdf), wc, f"{name}: cumulative mass fraction", 2e-4 if name.startswith("GeneralizedNFW") else 1e-6)
        if name not in INF:
            r.ok(o.rho(rs * c0 * 1.0001, m0, norm="m", c=c0) == 0, f"{name}: nothing outside the truncation radius")

    C.case("mass", run_mass, 52 if C.tier == "quick" else 800, "numerical integral of the returned density")

    def run_many(rg, i, r):
        """many haloes at once, of any mass, concentration and epoch"""
        name = names[i % len(names)]
        o, p, eta, z, md, nuf, rel = mk(rg, name)
        o = getattr(P, name)(rel, mdef=md, z=float(rg.uniform(1.1, 6)), nu_fn=nuf, **{**o.params, "eta_bloat": eta})
        nm_ = int(rg.integers(41, 130))
        ms, cs = np.sort(logu(rg, 1e8, 8e15, nm_)), rg.uniform(1.2, 35, nm_)
        norm, coord = pick(rg, ["m", "rho", None]), pick(rg, ["r", "x", "s"])
        r.rec(profile=name, params=p, eta=eta, z=o.z, mdef=str(md), m=ms, c=cs, norm=norm, coord=coord)
        from astropy.cosmology import Planck15

        dl = md.halo_overdensity_mean(o.z, Planck15)
        rs = rs_spec(ms, cs, dl, md.mean_density(0, cosmo=Planck15), nuf(ms), eta)
        if name.startswith("Moore"):
            rs = rs * cs / (cs / 1.7) ** 0.9
        y = np.sort(logu(rg, 1e-4, 0.95, 45))
        x = y[:, None] * cs[None, :]
        arg = {"s": y, "x": x}.get(coord)
        if coord == "r":
            arg = logu(rg, 1e-3, 1.0, 45) * float(np.median(rs * cs))
            x = arg[:, None] / rs[None, :]
        got = o.rho(arg, ms, norm=norm, c=cs, coord=coord)
        sel = np.sort(rg.choice(nm_, 4, replace=False))
        hh = np.array([msum(name, p, float(q_)) for q_ in cs[sel]])
        if name == "PowerLawWithExpCut":
            from scipy.special import gamma

            hh = np.full(len(hh), gamma(3 - p["b"]) * p["a"] ** (p["b"] - 3))
        A_ = {"m": 1 / (4 * np.pi * rs[sel] ** 3 * hh), "rho": cs[sel] ** 3 * dl / (3 * hh), None: cs[sel] ** 3 * dl / (3 * hh) * md.mean_density(z=o.z, cosmo=Planck15)}[norm]
        xx = x[:, sel]
        w = SHAPES[name](xx, p) * A_[None, :]
        if name not in INF:
            w = np.where(xx > cs[sel][None, :], 0, w)
        r.ok(np.shape(got) == (45, nm_), "one row per separation and one column per halo")
        tol = 1e-6 if not name.startswith("GeneralizedNFW") else 1e-3
        r.close(got[:, sel], w, f"{name} density of many haloes (norm={norm}, coord={coord})", tol)
        j = int(sel[0])
        r.close(np.ravel(o._h(cs))[sel] if name != "PowerLawWithExpCut" else hh, hh, f"{name} enclosed mass of many haloes", tol)
        if name.startswith("GeneralizedNFW"):
            y = np.maximum(y, 0.05)
        r.close(np.ravel(o.cdf(y * cs[j], c=cs[j], m=ms[j], coord="x"))[[3, 20]], [msum(name, p, float(q_)) / msum(name, p, float(cs[j])) for q_ in (y * cs[j])[[3, 20]]], f"{name} cumulative mass fraction", 2e-3 if name.startswith("GeneralizedNFW") else 1e-6, 1e-6)

    C.case("many haloes", run_many, 26 if C.tier == "quick" else 400, "more haloes and separations than a screenful, wide ranges of mass, concentration and redshift")

    class Usr(P.Profile):
        """user-defined shape without closed forms"""

        _defaults = {**P.Profile._defaults, "n": 2.0}

        def _f(self, x):
            return 1 / (0.3 + x) ** self.params["n"]

    def run_usr(rg, i, r):
        n = float(rg.uniform(1, 4))
        o = Usr(CM(), n=n)
        nm_ = int(rg.integers(1, 5))
        cs = rg.uniform(2, 15, nm_)
        if rg.random() < 0.4:
            cs = float(cs[0])
        r.rec(n=n, c=cs)
        from scipy.integrate import quad

        w = np.array([quad(lambda x: x * x / (0.3 + x) ** n, 0, q_)[0] for q_ in np.atleast_1d(cs)])
        r.close(np.ravel(o._h(cs)), w, "numerical enclosed mass of a user-defined shape", 1e-5)
        ms = np.sort(logu(rg, 1e10, 1e15, nm_)) if np.ndim(cs) else 1e12
        r.close(np.ravel(o._h(m=ms)), np.array([quad(lambda x: x * x / (0.3 + x) ** n, 0, q_)[0] for q_ in np.atleast_1d(CM().cm(ms))]), "enclosed mass from the concentration relation", 1e-5)

    C.case("user-defined shape", run_usr, 20 if C.tier == "quick" else 300)
