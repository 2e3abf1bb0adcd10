"""C12 -- mean tracer quantities are the occupation-weighted integrals over exactly the populated masses."""

from __future__ import annotations

import warnings

import numpy as np
from scipy.interpolate import CubicSpline

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, array, elem, scalar

from .common import *


class Hod:
    """contract of a HOD object: arbitrary mean occupations, any flags"""

    def __init__(self, sharp, central, inherent, mmin=True):
        self.sharp_cut, self._central, self.central_condition_inherent = sharp, central, inherent
        self.mmin = scalar("lgmmin", "+") if mmin else None

    central_occupation = staticmethod(uf("Nc", "0+"))
    satellite_occupation = staticmethod(uf("Ns", "0+"))
    total_occupation = staticmethod(uf("Nt", "0+"))
    ss_pairs = staticmethod(uf("SS", "0+"))
    cs_pairs = staticmethod(uf("CS", "0+"))

    @staticmethod
    def unit_conversion(cosmo, z):
        return ap("unit", cosmo, z, sign="+")


def splint(f, lo=None, x=None, n=N):
    """contract of spline_integral (property C10): the logarithmic integral of f over the mass grid from lo to its end"""
    x = x or (lambda q: tm.app("m", "+", q))
    bv = sym.bvar()
    mx = t(array("m", N, sign="+").max())
    mn = t(array("m", N, sign="+").min())
    return tm.red("splint", bv, n, tm.mul(x(bv), f(bv)), tm.fn("log", x(bv)), tm.fn("log", mn if lo is None else lo), tm.fn("log", mx))


def check(C):
    import halomod.halo_model as HM
    import halomod.tools as T
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    C.assumptions += [
        "scipy InterpolatedUnivariateSpline is an interpolating spline whose integral is a linear functional of its table (assumed contract, see C10)",
        "hmf.MassFunction supplies the mass grid, dn/dm and rho_gtm (external dependency)",
    ]
    CL = HM.TracerHaloModel
    F = "halomod.halo_model.TracerHaloModel"
    m, dn, hb = array("m", N, sign="+"), array("dn", N, sign="0+"), array("hb", N, sign="+")
    ex = {"identity": [(IUS, sym.SymSplineI)]}
    hy = [tm.lt(tm.num(4), N)]
    RG = {"n": (5, 7), "m": (0.5, 3), "lgmmin": (0.01, 0.4), "dn": (0.1, 2), "hb": (0.5, 2), "Nc": (0.1, 1), "Ns": (0, 2), "unit": (0.5, 2)}
    app = tm.app
    tenpow = lambda q: tm.pow_(tm.num(10), q)
    ten_mmin = t(10 ** scalar("lgmmin", "+"))
    M_ = lambda q: app("m", "+", q)
    dnq, hbq = (lambda q: app("dn", "0+", q)), (lambda q: app("hb", "+", q))

    for sharp in (True, False):
        for central in (True, False):
            for inh in (True, False):
                hod = Hod(sharp, central, inh)
                cut = sharp and (central or inh)
                lab = f"(sharp cut {sharp}, central condition {central}, inherent {inh})"
                lo = ten_mmin if cut else None

                def Nq(q, cut=cut):
                    mm = t(sym.lift(np.maximum(S(M_(q)), S(ten_mmin)))) if cut else M_(q)
                    return tm.add(app("Nc", "0+", mm), app("Ns", "0+", M_(q)))

                def mk(hod=hod, **kw):
                    return Mock(CL, m=m, dndm=dn, halo_bias=hb, hod=hod, cosmo=S(app("cosmo", "")), z=S(app("z", "")), Mmin=S(app("Mmin", "+")), **kw)

                den = lambda lo=lo, Nq=Nq: splint(lambda q: tm.mul(dnq(q), Nq(q)), lo)
                C.prove(f"{F}.tracer_mmin {lab}", lambda mk=mk, cut=cut: (mk().tracer_mmin,), lambda r, cut=cut: {"lower limit of tracer integrals": tm.eq(t(r[0]), ten_mmin) if cut else (tm.TRUE if r[0] is None else tm.FALSE)}, hy, RG, F + ".tracer_mmin")
                C.prove(f"{F}.mean_tracer_den {lab}", lambda mk=mk: mk().mean_tracer_den, lambda r, den=den: {"integral of dn/dm times the total occupation over populated masses": tm.eq(t(r), den())}, hy, RG, [F + ".mean_tracer_den", F + "._total_occupation", F + "._central_occupation"], extra=ex)
                D = lambda: S(app("nbar", "+"))
                C.prove(f"{F}.bias_effective_tracer {lab}", lambda mk=mk: mk(mean_tracer_den=D()).bias_effective_tracer, lambda r, lo=lo, Nq=Nq: {"tracer-weighted mean bias": tm.eq(tm.mul(t(r), app("nbar", "+")), splint(lambda q: tm.mul(tm.mul(dnq(q), Nq(q)), hbq(q)), lo))}, hy, RG, F + ".bias_effective_tracer", extra=ex)
                C.prove(f"{F}.mass_effective {lab}", lambda mk=mk: mk(mean_tracer_den=D()).mass_effective, lambda r, lo=lo, Nq=Nq: {"log10 of the tracer-weighted mean mass": tm.eq(t(r), t(np.log10(S(tm.div(splint(lambda q: tm.mul(tm.mul(M_(q), dnq(q)), Nq(q)), lo), app("nbar", "+"))))))}, hy, RG, F + ".mass_effective", extra=ex)
                C.prove(f"{F}.satellite_fraction {lab}", lambda mk=mk: (lambda o: (o.satellite_fraction, o.central_fraction))(mk(mean_tracer_den=D())), lambda r, lo=lo: {"fraction of tracers that are satellites": tm.eq(tm.mul(t(r[0]), app("nbar", "+")), splint(lambda q: tm.mul(dnq(q), app("Ns", "0+", M_(q))), lo)), "fractions sum to one": tm.eq(tm.add(t(r[0]), t(r[1])), tm.ONE)}, hy, RG, [F + ".satellite_fraction", F + ".central_fraction"], extra=ex)

    hod = Hod(True, True, False)
    mk = lambda **kw: Mock(CL, m=m, dndm=dn, halo_bias=hb, hod=hod, cosmo=S(app("cosmo", "")), z=S(app("z", "")), **kw)
    for q, nm in (("total_occupation", "Nt"), ("satellite_occupation", "Ns"), ("central_occupation", "Nc")):
        C.prove(f"{F}.{q}", lambda q=q: getattr(mk(), q), lambda r, nm=nm: {"occupation at the model's masses": tm.eq(elem(r, I), app(nm, "0+", app("m", "+", I))), "one value per mass": shape_is(r, N)}, hy + [tm.lt(I, N)], RG, f"{F}.{q}")
    C.prove(f"{F}.tracer_density_m", lambda: mk().tracer_density_m, lambda r: {"dn/dm times the total occupation": tm.eq(elem(r, I), tm.mul(app("dn", "0+", I), app("Nt", "0+", app("m", "+", I)))), "one value per mass": shape_is(r, N)}, hy + [tm.lt(I, N)], RG, F + ".tracer_density_m")
    C.prove(f"{F}.mean_tracer_den_unit", lambda: mk(mean_tracer_den=S(app("nbar", "+"))).mean_tracer_den_unit, lambda r: {"density in the HOD's unit, at the model's cosmology and redshift": tm.eq(t(r), tm.mul(app("nbar", "+"), app("unit", "+", app("cosmo", ""), app("z", ""))))}, hy, RG, F + ".mean_tracer_den_unit")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        mm_ = S(app("Mmin", "+"))
        C.prove(f"{F}._tm", lambda: Mock(CL, m=m, hod=Hod(True, True, False), Mmin=mm_)._tm, lambda r: {"masses at or above the HOD's minimum": tm.eq(tm.ite(sym.tobool(sym.lift(r).at((I,)), sym.lift(r).k), tm.ONE, tm.ZERO), tm.ite(tm.le(ten_mmin, app("m", "+", I)), tm.ONE, tm.ZERO))}, hy + [tm.lt(I, N)], {**RG, "Mmin": (0.01, 0.5)}, F + "._tm")
    seen = {}

    def hod_model(**kw):
        seen.clear()
        seen.update(kw)
        return seen

    P = {"M_min": S(app("pm", "")), "alpha": S(app("pa", ""))}
    given = dict(cosmo=S(app("cosmo", "")), tracer_concentration=S(app("tc", "")), tracer_profile=S(app("tp", "")), mdef=S(app("md", "")), hod_params=P, hod_model=hod_model)
    C.prove(f"{F}.hod", lambda: Mock(CL, **given).hod, lambda r: {k: tm.eq(t(r[k]), t(v)) if k in r else tm.FALSE for k, v in {"cosmo": given["cosmo"], "cm_relation": given["tracer_concentration"], "profile": given["tracer_profile"], "mdef": given["mdef"], "M_min": P["M_min"], "alpha": P["alpha"]}.items()}, [], {}, F + ".hod")

    # matter side
    FD = "halomod.halo_model.DMHaloModel"
    DM = HM.DMHaloModel
    f = array("f", N)
    lo = scalar("lo", "+")
    C.prove(f"{FD}._get_naive_bias_effective", lambda: Mock(DM, m=m)._get_naive_bias_effective(f, S(app("rb", "+"))), lambda r: {"weighted mean over all masses": tm.eq(tm.mul(t(r), app("rb", "+")), splint(lambda q: app("f", "", q)))}, hy, RG, FD + "._get_naive_bias_effective", extra=ex)
    C.prove(f"{FD}._get_naive_bias_effective (above a mass)", lambda: Mock(DM, m=m)._get_naive_bias_effective(f, S(app("rb", "+")), mmin=lo), lambda r: {"weighted mean above the mass": tm.eq(tm.mul(t(r), app("rb", "+")), splint(lambda q: app("f", "", q), t(lo)))}, hy, {**RG, "lo": (0.5, 1)}, FD + "._get_naive_bias_effective", extra=ex)
    C.prove(f"{FD}.bias_effective_matter", lambda: Mock(DM, m=m, dndm=dn, halo_bias=hb, force_unity_dm_bias=False, mean_density_in_halos=S(app("rb", "+"))).bias_effective_matter, lambda r: {"mass-weighted mean bias": tm.eq(tm.mul(t(r), app("rb", "+")), splint(lambda q: tm.mul(tm.mul(M_(q), dnq(q)), hbq(q))))}, hy, RG, FD + ".bias_effective_matter", extra=ex)
    C.prove(f"{FD}.bias_effective_matter (unity)", lambda: Mock(DM, m=m, dndm=dn, halo_bias=hb, force_unity_dm_bias=True).bias_effective_matter, lambda r: {"one when so requested": tm.eq(t(r), tm.ONE)}, hy, RG, FD + ".bias_effective_matter", extra=ex)
    C.prove(f"{FD}.mean_density_in_halos", lambda: Mock(DM, rho_gtm=array("rg", N, sign="+")).mean_density_in_halos, lambda r: {"all mass above the smallest halo": tm.eq(t(r), app("rg", "+", tm.num(0)))}, hy, RG, FD + ".mean_density_in_halos")

    # ---------------------------------------------------------------- minimum mass from a requested density
    from scipy.optimize import brentq

    NR_ = tm.var("nfine", "i", "+")
    mf = array("mf", NR_, sign="+")
    DEN = uf("DEN", "0+")  # density of the finer clone as a function of its log10 minimum mass
    ngs, Mm = scalar("ng", "+"), scalar("Mmin", "+")

    class Finer:
        """contract of a clone on a finer mass grid: same model, its own minimum mass; density by its own current parameters"""

        def __init__(self, log, hod_params=None, **kw):
            object.__setattr__(self, "log", log)
            object.__setattr__(self, "state", (hod_params or {}).get("M_min"))
            self.log.append(kw)

        Mmin, m = Mm, mf

        def update(self, hod_params=None, **kw):
            if kw or set(hod_params or {}) != {"M_min"}:
                raise OutsideContract(f"update of {sorted(kw)} {sorted(hod_params or {})}")
            object.__setattr__(self, "state", hod_params["M_min"])

        def __setattr__(self, n, v):
            if n != "hod_params":
                raise OutsideContract(n)
            self.update(hod_params=v)

        @property
        def mean_tracer_den(self):
            return DEN(self.state)

    def run_min():
        log, roots = [], []

        def root(f, a, b, args=(), xtol=2e-12, **kw):
            """contract of brentq: the sign of f changes between a and b (checked); returns a zero of f between them"""
            R = S(app(f"root{len(roots)}", ""))
            q = scalar("q", "")
            roots.append((R, f(R, *args), f(a, *args), f(b, *args), f(q, *args), a, b, xtol))
            return R

        me = Mock(CL, power=array("pw", NK), Mmin=Mm, clone=lambda **kw: Finer(log, **kw), hod_params={})
        run_min.root = root
        try:
            return me._find_m_min(ngs), roots
        except HM.NGException:
            return None, roots

    def post_min(v):
        out, roots = v
        top = tm.div(tm.fn("log", app("mf", "+", tm.sub(NR_, tm.num(10)))), tm.fn("log", tm.num(10)))
        end = DEN(S(top))
        if out is None:
            return {"a density is refused only when it is outside the attainable range": tm.not_(tm.and_(le(ngs, DEN(Mm)), le(end, ngs)))}
        R, fR, fa, fb, fq, a, b_, xtol = roots[-1]
        q = scalar("q", "")
        return {
            "the density at the returned minimum mass is the requested one": ([tm.eq(t(fR), tm.ZERO)], tm.eq(t(DEN(out)), t(ngs))),
            "the search is for the requested density": tm.and_(tm.or_(tm.not_(tm.eq(t(fq), tm.ZERO)), tm.eq(t(DEN(q)), t(ngs))), tm.or_(tm.not_(tm.eq(t(DEN(q)), t(ngs))), tm.eq(t(fq), tm.ZERO))),
            "the sign changes over the bracket (precondition of the root finder)": tm.le(tm.mul(t(fa), t(fb)), tm.ZERO),
            "tolerance of the minimum mass": le(xtol, 1.001e-3),
        }

    C.prove(f"{F}._find_m_min", run_min, post_min, [tm.lt(tm.num(20), NR_)], {"nfine": (21, 22), "mf": (2, 50), "ng": (0.2, 1.5), "DEN": (0.1, 2), "Mmin": (0.1, 0.3), "q": (0.1, 2)}, f"{F}._find_m_min", extra={"identity": [(brentq, lambda *a, **k: run_min.root(*a, **k))]})

    # ---------------------------------------------------------------- bounded run-time oracles
    import halomod.hod as H

    MODELS = [("Zehavi05", {"M_1": (12.5, 14), "alpha": (0.6, 1.5)}), ("Zheng05", {"M_0": (11, 12.5), "M_1": (12.5, 14), "alpha": (0.6, 1.5), "sig_logm": (0.1, 0.5)}), ("Tinker05", {"M_1": (13, 14), "sig_logm": (0.3, 0.9)}), ("Contreras13", {}), ("Geach12", {}), ("Zehavi05Marked", {"logA": (-0.5, 0.5), "M_1": (12.5, 14)}), ("Zehavi05WithMax", {"M_max": (15.5, 17.9)}), ("Constant", {"logA": (-1, 1)}), ("Barnes", {}), ("PowerLaw", {})]
    MODELS = [(n, p) for n, p in MODELS if hasattr(H, n)]
    from hmf._internals._framework import get_mdl  # noqa: F401  (models are looked up by name inside the halo model)

    def build(rg, i, rc, dlog=0.05, **more):
        name, rng_p = MODELS[i % len(MODELS)]
        cl = getattr(H, name)
        P = {k: float(rg.uniform(*v)) for k, v in rng_p.items() if k in cl._defaults}
        if "M_min" in cl._defaults:
            P["M_min"] = float(rg.uniform(11, 13))
        cen = bool(rg.integers(2))
        if "central" in cl._defaults:
            P["central"] = cen
        if rc is not None:
            rc.rec(model=name, params=P)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h = HM.TracerHaloModel(hod_model=name, hod_params=P, z=float(pick(rg, [0.0, 0.7, 1.6])), transfer_model="EH", Mmin=9.5, Mmax=16, dlog10m=dlog, lnk_min=-6, lnk_max=4, dlnk=0.2, **more)
        return name, cl, P, h

    gx, gw = np.polynomial.legendre.leggauss(24)

    def integral(h, w, lo, hi, cut):
        """independent quadrature in ln m of dn/dm (interpolated in logarithms, as is the bias) times w(m, hod)"""
        keep = h.dndm > 0
        lm, ld = np.log(h.m[keep]), np.log(h.dndm[keep])
        edges = np.unique(np.concatenate([np.linspace(lo, hi, 60), [e for e in cut if lo < e < hi]]))
        tot = 0.0
        for a_, b_ in zip(edges[:-1], edges[1:]):
            x = (a_ + b_) / 2 + (b_ - a_) / 2 * gx
            mm = np.exp(x)
            tot += (b_ - a_) / 2 * np.sum(gw * mm * np.exp(np.interp(x, lm, ld)) * w(mm))
        return tot

    def run_b(rg, i, rc):
        name, cl, P, h = build(rg, i, rc)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            hod = h.hod
            sat, cen = (lambda mm: hod.satellite_occupation(mm)), (lambda mm: hod.central_occupation(mm))
            tot = lambda mm: sat(mm) + cen(mm)
            knots = [np.log(10) * v for k, v in hod.params.items() if k.startswith("M_") and v is not None] + [np.log(10) * hod.mmin]
            lo, hi = np.log(h.m[0]), np.log(h.m[-1])
            bias = lambda mm: np.interp(np.log(mm), np.log(h.m), h.halo_bias)
            n = integral(h, tot, lo, hi, knots)
            # without the central condition the sharp steps of a HOD fall between grid points: only the grid resolution is promised
            tol = 0.02 if h.tracer_mmin is not None or name in ("Zheng05", "Contreras13", "Geach12", "Barnes", "PowerLaw") else 0.12
            if P.get("M_max") and P["M_max"] < 16:
                tol = 0.12
            rc.close(h.mean_tracer_den, n, "mean tracer density is the integral of dn/dm times the mean occupation", rtol=tol)
            rc.close(h.bias_effective_tracer, integral(h, lambda mm: tot(mm) * bias(mm), lo, hi, knots) / n, "effective bias is the tracer-weighted mean bias", rtol=tol)
            rc.close(10**h.mass_effective, integral(h, lambda mm: tot(mm) * mm, lo, hi, knots) / n, "effective mass is the tracer-weighted mean mass", rtol=2 * tol)
            rc.close(h.satellite_fraction, integral(h, sat, lo, hi, knots) / n, "satellite fraction", rtol=tol, atol=tol)
            rc.close(h.satellite_fraction + h.central_fraction, 1.0, "fractions sum to one", rtol=1e-12)
            # the same integrals over the model's own mass grid, from the smallest mass that hosts tracers
            cut = 10**hod.mmin if hod.sharp_cut and (hod.central_condition_inherent or P.get("central")) else None
            x = np.log(h.m)

            def same(f):
                a_ = x[0] if cut is None else max(np.log(cut), x[0])
                return float(CubicSpline(x, h.m * h.dndm * f).integrate(a_, x[-1]))

            nsat, ncen = sat(h.m), cen(h.m if cut is None else np.maximum(h.m, cut))
            n = same(nsat + ncen)
            rc.close(h.mean_tracer_den, n, "mean tracer density: integral over the model's mass grid", rtol=1e-6)
            rc.close(h.bias_effective_tracer, same((nsat + ncen) * h.halo_bias) / n, "effective bias: integral over the model's mass grid", rtol=1e-6)
            rc.close(10**h.mass_effective, same((nsat + ncen) * h.m) / n, "effective mass: integral over the model's mass grid", rtol=1e-6)
            rc.close(h.satellite_fraction, same(nsat) / n, "satellite fraction: integral over the model's mass grid", rtol=1e-6, atol=1e-9)
            rc.ok(-0.02 <= h.satellite_fraction <= 1.02, "fractions lie between zero and one")
            rc.close(h.total_occupation, tot(h.m), "total occupation at the model's masses", rtol=1e-12)
            rc.close(h.satellite_occupation, sat(h.m), "satellite occupation at the model's masses", rtol=1e-12)
            rc.close(h.central_occupation, cen(h.m), "central occupation at the model's masses", rtol=1e-12)
            rc.close(h.tracer_density_m, h.dndm * tot(h.m), "tracer density per mass", rtol=1e-12)
            rc.close(h.mean_tracer_den_unit, h.mean_tracer_den * hod.unit_conversion(h.cosmo, h.z), "density in the HOD's unit", rtol=1e-12)
            bm = integral(h, lambda mm: mm * bias(mm), lo, hi, []) / h.rho_gtm[0]
            h2 = HM.DMHaloModel(z=h.z, transfer_model="EH", Mmin=9.5, Mmax=16, dlog10m=0.05, lnk_min=-6, lnk_max=4, dlnk=0.2, force_unity_dm_bias=False)
            rc.close(h2.bias_effective_matter, bm, "effective matter bias is the mass-weighted mean bias", rtol=0.02)
            rc.close(h2.mean_density_in_halos, integral(h, lambda mm: mm, lo, hi, []), "mean density in haloes is the mass above the smallest halo", rtol=0.02)
            h2.update(force_unity_dm_bias=True)
            rc.close(h2.bias_effective_matter, 1.0, "unit matter bias when requested", rtol=1e-12)

    C.case("integrals over masses", run_b, 40 if C.tier == "quick" else 600, "occupation models, central condition on/off, minimum masses, redshifts; independent quadrature")

    def run_ng(rg, i, rc):
        name, rng_p = [(n, p) for n, p in MODELS if n in ("Zehavi05", "Zheng05", "Tinker05", "Contreras13", "Zehavi05WithMax", "Zehavi05Marked", "Constant")][i % 7]
        cl = getattr(H, name)
        P = {"alpha": float(rg.uniform(0.8, 1.3))} if "alpha" in cl._defaults else {}
        cen = i % 2 == 0
        if "central" in cl._defaults:
            P["central"] = cen
        ng = float(logu(rg, 1.2e-3, 1.5e-2)) if (cen or name == "Tinker05") and name != "Contreras13" else float(logu(rg, 1.2e-2, 1.8e-2))
        z = float(pick(rg, [0.0, 0.5]))
        upd = bool(rg.integers(2))
        rc.rec(model=name, params=P, tracer_density=ng, z=z, update=upd)
        kw = dict(hod_model=name, z=z, transfer_model="EH", Mmin=9.5, Mmax=16, dlog10m=0.02, lnk_min=-6, lnk_max=4, dlnk=0.2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                if upd:
                    h = HM.TracerHaloModel(hod_params=P, **kw)
                    h.mean_tracer_den
                    h.update(tracer_density=ng)
                else:
                    h = HM.TracerHaloModel(hod_params=P, tracer_density=ng, **kw)
            except HM.NGException as e:
                lo = HM.TracerHaloModel(hod_params={**P, "M_min": 9.5}, **kw).mean_tracer_den
                hi = HM.TracerHaloModel(hod_params={**P, "M_min": 15.7}, **kw).mean_tracer_den
                rc.ok(not (hi * 1.1 < ng < lo * 0.9), f"an attainable tracer density is matched ({e})")
                return
            tol = 0.01 if h.tracer_mmin is not None or name in ("Zheng05", "Contreras13") else 0.05
            rc.close(h.mean_tracer_den, ng, "a requested tracer density is the model's mean tracer density", rtol=tol)
            for k, v in P.items():
                rc.ok(h.hod.params[k] == v, f"other HOD parameters are kept ({k})")
            h.update(z=z + 0.3)
            rc.close(h.mean_tracer_den, ng, "a requested tracer density is kept when the model is updated", rtol=tol)
            h.update(hod_params={"M_min": 12.3})
            rc.ok(h.hod.params["M_min"] == 12.3, "an explicit minimum mass takes precedence over an earlier density")

    C.case("matching a tracer density", run_ng, 14 if C.tier == "quick" else 140, "occupation models, densities, redshifts, at construction and by update")

    # ------------------------------------------------------------ the HOD's own unit
    from types import SimpleNamespace

    from scipy import constants as sc0

    import halomod.hod as hd0

    H0, zu = scalar("H0", "+"), scalar("z", "0+")
    cosmo_u = SimpleNamespace(H0=SimpleNamespace(value=H0), efunc=uf("efunc", "+"))
    kpc_, msun_ = 3.0856775814913673e19, 1.988409870698051e30
    # 3 A12 h c^3 / (32 pi k (m_p + m_e) nu^2) (1 + z)^2 / H(z), for solar masses per (Mpc/h)^3; per H0 = 1 km/s/Mpc
    ref = 3 * 2.869e-15 * sc0.h * sc0.c**3 / (32 * (sc0.m_p + sc0.m_e) * sc0.k * 1.42e9**2) * kpc_ * msun_ / (1e5 * kpc_) ** 3

    def post_unit(v):
        shape_ = tm.div(tm.mul(t((1 + zu) ** 2), t(H0**2)), tm.mul(tm.PI, t(ap("efunc", zu, sign="+"))))
        const_ = tm.canon(tm.subst(tm.div(t(v), shape_), {t(zu): tm.ZERO})).get((), 0)
        return {
            "in proportion to (1+z)^2 H0^2 / E(z)": tm.eq(t(v), tm.mul(tm.num(const_), shape_)),
            "brightness temperature of neutral hydrogen of unit density": tm.TRUE if abs(float(const_) / ref - 1) < 1e-3 else tm.FALSE,
        }

    C.prove("halomod.hod.Spinelli19.unit_conversion", lambda: hd0.Spinelli19.unit_conversion(new(hd0.Spinelli19), cosmo_u, zu), post_unit, [], {"H0": (50, 90), "z": (0, 5), "efunc": (1, 5)}, "halomod.hod.Spinelli19.unit_conversion")
    C.prove("halomod.hod.HOD.unit_conversion", lambda: hd0.HOD.unit_conversion(new(hd0.Zehavi05), cosmo_u, zu), lambda v: {"objects are counted": tm.TRUE if float(v) == 1.0 else tm.FALSE}, [], {}, "halomod.hod.HOD.unit_conversion")

    def run_ngx(rg, i, rc):
        kw = dict(transfer_model="EH", Mmin=11, Mmax=15, dlog10m=0.1, lnk_min=-6, lnk_max=4, dlnk=0.2)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for md in ("Zehavi05", "Zheng05", "Tinker05"):
                rc.raises(HM.NGException, lambda: HM.TracerHaloModel(hod_model=md, tracer_density=50.0, **kw), "an unattainable tracer density is refused")

    def run_unit(rg, i, rc):
        from astropy.cosmology import FlatLambdaCDM
        from scipy import constants as sc

        import halomod.hod as hd

        h_, z = float(rg.uniform(0.5, 0.9)), float(rg.uniform(0, 6))
        co = FlatLambdaCDM(100 * h_, float(rg.uniform(0.2, 0.4)), Tcmb0=2.7)
        rc.rec(h=h_, z=z, model="Spinelli19")
        mpc, msun = 3.0856775814913673e22, 1.988409870698051e30
        H = 1e5 * h_ * co.efunc(z) / mpc
        want = 3 * 2.869e-15 * sc.h * sc.c**3 / (32 * np.pi * (sc.m_p + sc.m_e) * sc.k * 1.42e9**2) * (1 + z) ** 2 / H * msun / (mpc / h_) ** 3
        rc.close(hd.Spinelli19(cosmo=co).unit_conversion(co, z), want, "brightness temperature of neutral hydrogen of unit density", rtol=1e-3)
        other = pick(rg, ["Zehavi05", "Zheng05", "Constant", "Geach12", "Tinker05"])
        rc.close(getattr(hd, other)(cosmo=co).unit_conversion(co, z), 1.0, f"{other} counts objects", rtol=1e-12)

    C.case("units", run_unit, 8 if C.tier == "quick" else 60)

    C.case("unattainable densities", run_ngx, 1)
