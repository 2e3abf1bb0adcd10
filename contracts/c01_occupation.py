"""C01 -- mean occupations are the published relations and physically valid."""

from __future__ import annotations

import numpy as np
import scipy.special as sp

from pyvc import terms as tm
from pyvc.sym import S, array, elem, scalar

from . import hodspec as hs
from .common import *


def cls_of(name):
    import halomod.hod as H

    return getattr(H, name)


def symparams(name):
    signs = {"sig_logm": "+", "fs": "+", "delta": "+", "x": "+", "a1": "+", "a2": "+", "sig_logmstar": "+"}
    return {k: scalar("p_" + k, signs.get(k, "")) for k in cls_of(name)._defaults}


def inst(name, central):
    h = cls_of(name)(central=central)
    h.params = symparams(name)
    return h


def ranges_for(name):
    r = {"m": (1e9, 1e16)}
    for k, v in hs.SPEC[name]["params"].items():
        r["p_" + k] = v
    return r


def check(C):
    C.assumptions += [
        "scipy.special.erf is the error function; numpy ufuncs act element-wise",
        "halo masses are positive reals; widths (sig_logm, delta, x) are positive; floating-point rounding not modelled",
        "Leauthaud11: that scipy's cubic interpolant through the table (halo mass, stellar mass) is its inverse; what is tabulated, and where, is proved, its accuracy is checked at run time (bounded)",
    ]
    m = array("m", N, sign="+")
    M = S(tm.app("m", "+", I))
    inr = tm.lt(I, N)
    for name, sp_ in hs.SPEC.items():
        q = f"halomod.hod.{name}"
        p = symparams(name)

        def post_c(v, sp_=sp_, p=p):
            cen, nc, tpc = v
            want = sp_["c"](M, p) if sp_["c"] else S(tm.ZERO)
            g = {
                "central = published relation": tm.eq(elem(cen, I), t(want)),
                "central >= 0": le(0, elem(cen, I)),
            }
            if sp_.get("tc"):
                g["tracer amplitude per central"] = tm.eq(elem(tpc, I), t(sp_["tc"](M, p)))
                if not sp_.get("mass"):
                    g["nc = occupation / amplitude"] = tm.eq(elem(nc, I), tm.div(elem(cen, I), elem(tpc, I)))
                    g["nc <= 1"] = le(elem(nc, I), 1)
            else:
                g["central <= 1"] = ([tm.TRUE], le(elem(cen, I), 1))
                g["nc = central"] = tm.eq(elem(nc, I), elem(cen, I))
            return g

        hyps = [inr]
        if name in ("Contreras13", "Geach12"):
            a, b_ = t(p["fca"]), t(p["fcb"])
            # physical domain of the published model: the amplitudes are fractions and their sum does not exceed one
            hyps += [tm.le(tm.ZERO, a), tm.le(a, tm.num(0.5)), tm.le(tm.ZERO, b_), tm.le(tm.add(tm.mul(b_, tm.sub(tm.ONE, a)), tm.mul(tm.num(2), a)), tm.ONE)]

        def run_c(name=name):
            h = inst(name, False)
            tpc = h._tracer_per_central(m) if hasattr(h, "_tracer_per_central") else 1
            return h.central_occupation(m), h.nc(m), tpc

        C.prove(f"{q} central occupation", run_c, post_c, hyps, ranges_for(name), [f"{q}.central_occupation", f"{q}._central_occupation", f"{q}.nc"])

        def post_s(v, sp_=sp_, p=p):
            sat, tot, cen, ns, tps = v
            g = {
                "satellite = published relation": tm.eq(elem(sat, I), t(sp_["s"](M, p))),
                "satellite >= 0": le(0, elem(sat, I)),
                "total = central + satellite": tm.eq(elem(tot, I), tm.add(elem(cen, I), elem(sat, I))),
            }
            if sp_.get("ts"):
                g["tracer amplitude per satellite"] = tm.eq(elem(tps, I), t(sp_["ts"](M, p)))
            if not sp_.get("bulk") and not sp_.get("mass"):
                g["ns = occupation / amplitude"] = tm.eq(elem(ns, I), tm.div(elem(sat, I), elem(tps, I)))
            return g

        def run_s(name=name):
            h = inst(name, False)
            tps = h._tracer_per_satellite(m) if hasattr(h, "_tracer_per_satellite") else 1
            return h.satellite_occupation(m), h.total_occupation(m), h.central_occupation(m), h.ns(m), tps

        C.prove(f"{q} satellite occupation", run_s, post_s, hyps, ranges_for(name), [f"{q}.satellite_occupation", f"{q}._satellite_occupation", f"{q}.total_occupation", f"{q}.ns"])

        def post_m(v, sp_=sp_, p=p):
            want = sp_["mmin"](p) if "mmin" in sp_ else p["M_min"]
            return {"mmin": eq(v, want)}

        C.prove(f"{q} minimum mass", lambda name=name: inst(name, False).mmin, post_m, (), ranges_for(name), f"{q}.mmin")

    # ---- Leauthaud11
    import halomod.hod as H

    pl = symparams("Leauthaud11")
    q = "halomod.hod.Leauthaud11"
    lsm = array("lsm", N)
    zpos = [tm.le(tm.ZERO, t(pl["redshift"]))]
    C.prove(f"{q} stellar-to-halo mass", lambda: inst("Leauthaud11", False).mean_log_halo_mass(lsm),
            lambda v: {"published relation": tm.eq(elem(v, I), t(hs.leau_lhm(S(tm.app("lsm", "", I)), pl)))}, [inr] + zpos, {"p_" + k: v for k, v in hs.LEAU.items()}, f"{q}.mean_log_halo_mass")

    lst = array("logmstar", N)
    cenc = array("cenc", N, sign="0+")
    thr_h = scalar("thr_h")

    class LC(H.Leauthaud11):
        """callees by contract: table inversion and the stellar-to-halo relation are symbols"""

        def mean_log_stellar_mass(self, mm):
            return lst

        def mean_log_halo_mass(self, log_stellar_mass):
            return thr_h

    def mkl():
        h = LC()
        h.params = dict(pl)
        return h

    def post_lc(v):
        cen, mmin, before = v
        w = (1 - sp.erf((pl["sm_thresh"] - S(tm.app("logmstar", "", I))) / (2 ** S(tm.num(0.5)) * pl["sig_logmstar"]))) / 2
        return {"published relation": tm.eq(elem(cen, I), t(w)), "in [0,1]": tm.and_(le(0, elem(cen, I)), le(elem(cen, I), 1)), "M_min is the threshold halo mass": eq(mmin, thr_h), "also before any evaluation": eq(before, thr_h)}

    def run_lc():
        h = mkl()
        before = h.mmin
        c = h.central_occupation(m)
        return c, h.mmin, before

    C.prove(f"{q} central occupation", run_lc, post_lc, [inr], {}, [f"{q}._central_occupation", f"{q}._update_M_min", f"{q}.mmin"])

    from scipy.interpolate import interp1d

    LHM, INVL = uf("lhm"), uf("lhminv")

    class InvL:
        """contract of interp1d through (H(y), y): the inverse of H"""

        def __init__(self, x, y, kind="linear", fill_value=None, bounds_error=None, **kw):
            x, y = sym.lift(x), sym.lift(y)
            if kw or kind not in ("quadratic", "cubic") or not tm.equal(elem(x, J), t(LHM(S(elem(y, J))))):
                raise OutsideContract("interpolates something other than stellar mass as a function of halo mass")

        def __call__(self, qq):
            return INVL(qq)

    class LI(H.Leauthaud11):
        def mean_log_halo_mass(self, log_stellar_mass):
            return LHM(log_stellar_mass)

    def mkli():
        h = LI()
        h.params = dict(pl)
        return h

    C.prove(f"{q}.mean_log_stellar_mass", lambda: mkli().mean_log_stellar_mass(m), lambda v: {"inverse of the stellar-to-halo relation at every mass": tm.eq(elem(v, I), t(INVL(np.log10(M)))), "one value per mass": shape_is(v, N)}, [inr], {}, f"{q}.mean_log_stellar_mass", extra={"identity": [(interp1d, InvL)]})

    class LS(LC):
        def _central_occupation(self, mm):
            return cenc

    def run_ls():
        h = LS()
        h.params = dict(pl)
        return h.satellite_occupation(m)

    def post_ls(v):
        knee = 0.72e12
        th = 10**thr_h
        msat = knee * pl["bsat"] * (th / knee) ** pl["betasat"]
        mcut = knee * pl["bcut"] * (th / knee) ** pl["betacut"]
        w = S(tm.app("cenc", "0+", I)) * np.exp(-mcut / M) * (M / msat) ** pl["alphasat"]
        return {"published relation": tm.eq(elem(v, I), t(w)), "satellite >= 0": le(0, elem(v, I))}

    C.prove(f"{q} satellite occupation", run_ls, post_ls, [inr, tm.lt(tm.ZERO, t(pl["bsat"]))], {"m": (1e10, 1e15), "p_bsat": (5, 15), "thr_h": (11, 13), "p_bcut": (0.5, 2), "p_betasat": (0.5, 1), "p_betacut": (-0.3, 0.3), "p_alphasat": (0.8, 1.2)}, [f"{q}._satellite_occupation", f"{q}._update_satellite_params"])

    # ---- bounded run-time contracts
    k = 80 if C.tier == "quick" else 800
    names = list(hs.SPEC)

    def conc(rng, i, r):
        name = names[i % len(names)]
        sp_ = hs.SPEC[name]
        p = hs.draw(rng, sp_["params"])
        if rng.random() < 0.2:
            p = {}
        full_p = {**cls_of(name)._defaults, **p}
        mm = hs.masses(rng, full_p)
        if rng.random() < 0.25:
            mm = np.unique(mm.astype(np.int64))
        r.rec(model=name, params=p, m=mm)
        h = cls_of(name)(**p)
        m0 = mm.copy()
        mf = mm.astype(float)
        want_c = sp_["c"](mf, full_p) if sp_["c"] else 0 * mf
        want_s = sp_["s"](mf, full_p)
        cen, sat = h.central_occupation(mm), h.satellite_occupation(mm)
        r.close(np.broadcast_to(cen, mm.shape), want_c, f"{name} central occupation", 1e-9, 1e-14)
        r.close(sat, want_s, f"{name} satellite occupation", 1e-8, 1e-300)
        r.ok(np.asarray(sat) >= 0, f"{name} satellite occupation negative")
        r.close(h.total_occupation(mm), want_c + want_s, f"{name} total occupation", 1e-8, 1e-14)
        if not sp_.get("mass") and not sp_.get("marked"):
            amp = full_p["fcb"] * (1 - full_p["fca"]) + 2 * full_p["fca"] if "fca" in full_p else 1
            if amp <= 1:
                r.ok((np.asarray(cen) >= 0) & (np.asarray(cen) <= 1 + 1e-12), f"{name} central occupation outside [0,1]")
        if sp_.get("tc"):
            r.close(h._tracer_per_central(mm) + 0 * mf, sp_["tc"](mf, full_p), f"{name} tracer per central", 1e-9)
            r.close(h._tracer_per_satellite(mm) + 0 * mf, sp_["ts"](mf, full_p), f"{name} tracer per satellite", 1e-9)
        if not sp_.get("mass"):
            ta = sp_["tc"](mf, full_p) if sp_.get("tc") else 1.0
            if not sp_.get("bulk"):
                r.close(h.nc(mm), want_c / ta, f"{name} nc", 1e-9, 1e-14)
                r.close(h.ns(mm), want_s / ta, f"{name} ns", 1e-8, 1e-300)
        r.close(h.mmin, sp_["mmin"](full_p) if "mmin" in sp_ else full_p["M_min"], f"{name} mmin", 1e-12)
        r.ok(np.array_equal(mm, m0), "input masses modified")
        r.ok(all(h.params[a] == b for a, b in p.items()), "parameters modified by evaluation")

    C.case("models", conc, k * len(names), "random model, parameters, mass grid incl. cut-offs and integer masses")

    def conc_l(rng, i, r):
        p = hs.draw(rng, hs.LEAU)
        if i % 4 == 0:
            p = {}
        fp = {**H.Leauthaud11._defaults, **p}
        mm = np.sort(10 ** rng.uniform(10.5, 15, 12))
        r.rec(params=p, m=mm)
        h = H.Leauthaud11(**p)
        r.close(h.mmin, hs.leau_lhm(fp["sm_thresh"], fp), "minimum mass of a model not evaluated yet", 1e-9)
        x = rng.uniform(8, 11.5, 5)
        r.close(h.mean_log_halo_mass(x), hs.leau_lhm(x, fp), "stellar-to-halo mass", 1e-10)
        # independent inversion of the (monotonic) relation
        from scipy.optimize import brentq

        def inv(lm):
            f = lambda s: hs.leau_lhm(s, fp) - lm
            return brentq(f, 0.2, 13.5)

        lms = np.array([inv(np.log10(v)) for v in mm])
        cen = h.central_occupation(mm)
        w = 0.5 * (1 - sp.erf((fp["sm_thresh"] - lms) / (np.sqrt(2) * fp["sig_logmstar"])))
        r.close(cen, w, "central occupation", 1e-4, 1e-6)
        r.ok((cen >= 0) & (cen <= 1), "central outside [0,1]")
        th = 10 ** hs.leau_lhm(fp["sm_thresh"], fp)
        knee = 0.72e12
        ms, mc = knee * fp["bsat"] * (th / knee) ** fp["betasat"], knee * fp["bcut"] * (th / knee) ** fp["betacut"]
        r.close(h.satellite_occupation(mm), w * np.exp(-mc / mm) * (mm / ms) ** fp["alphasat"], "satellite occupation", 2e-4, 1e-6)
        r.close(h.mmin, np.log10(th), "M_min", 1e-9)

    C.case("Leauthaud11", conc_l, 8 if C.tier == "quick" else 60)
