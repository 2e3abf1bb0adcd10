"""C16 -- warm dark matter: haloes and smooth component add up to all matter; concentrations are rescaled by the half-mode mass."""

from __future__ import annotations

import functools
import warnings

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, array, elem, scalar

from .c13_two_point import tf
from .common import *


def mul(*a):
    return functools.reduce(tm.mul, a)


def check(C):
    import halomod.concentration as HC
    import halomod.halo_model as HM
    import halomod.wdm as M

    F = "halomod.wdm"
    W = M.HaloModelWDM
    app, num = tm.app, tm.num
    C.assumptions += [
        "hmf supplies the suppressed transfer function, mass function, cumulative densities and half-mode mass (external)",
        "one- and two-halo powers of matter by contract (C13), profiles' transforms by contract (C06); Simpson integration is a linear functional of the tabulated integrand (assumed)",
    ]
    RG = {"n": (11, 13), "nk": (3, 5), "f": (0.1, 0.9), "rho0": (1, 2)}
    rho = array("rho", N, sign="+")
    rho0 = scalar("rho0", "+")
    f = scalar("f", "+")
    rh = app("rho", "+", num(0))
    m, dn, hb, k = array("m", N, sign="+"), array("dn", N, sign="0+"), array("hb", N, sign="+"), array("kh", NK, sign="+")
    P = uf("PHC")
    hN = [tm.lt(num(2), N), tm.lt(num(2), NK), tm.lt(I, NK)]
    hf = [tm.lt(t(f), num(1))]

    C.prove(f"{F}.f_halos", lambda: Mock(W, rho_gtm=rho, mean_density0=rho0).f_halos, lambda r: {"comoving density in haloes over the comoving density of all matter": eq(tm.mul(t(r), t(rho0)), rh)}, [tm.lt(num(0), N)], RG, f"{F}.HaloModelWDM.f_halos")
    C.prove(f"{F}.mean_density_halos", lambda: Mock(W, rho_gtm=rho, mean_density0=rho0).mean_density_halos, lambda r: {"density in haloes": eq(t(r), rh)}, [tm.lt(num(0), N)], RG, f"{F}.HaloModelWDM.mean_density_halos")

    def dens():
        w = Mock(W, rho_gtm=rho, mean_density0=rho0)
        return w.mean_density_smooth, w.mean_density_halos

    C.prove(f"{F}.mean_density_smooth", dens, lambda r: {"the two components add up to all matter": eq(tm.add(t(r[0]), t(r[1])), t(rho0))}, [tm.lt(num(0), N)], RG, f"{F}.HaloModelWDM.mean_density_smooth")
    be = scalar("beff", "+")
    C.prove(f"{F}.bias_smooth", lambda: Mock(W, f_halos=f, bias_effective_matter=be).bias_smooth, lambda r: {"all matter together is unbiased": eq(tm.add(tm.mul(tm.sub(num(1), t(f)), t(r)), tm.mul(t(f), t(be))), num(1))}, hf, RG, f"{F}.HaloModelWDM.bias_smooth")

    bs = scalar("bs")
    C.prove(f"{F}.power_auto_matter_ss", lambda: Mock(W, bias_smooth=bs, k_hm=k, _power_halo_centres_fnc=P).power_auto_matter_ss, lambda r: {"squared bias of the smooth matter times the spectrum": eq(elem(r, I), mul(t(bs), t(bs), app("PHC", "", app("kh", "+", I)))), "one value per wavenumber": shape_is(r, NK)}, hN, RG, f"{F}.HaloModelWDM.power_auto_matter_ss")

    class Prof:
        @staticmethod
        def u(kk, mm, norm=None, **kw):
            if norm != "m" or kw or kk is not k or mm is not m:
                raise AssertionError(f"profile transform requested differently ({norm}, {kw})")
            return array("u", NK, N)

    for force in (False, True):
        def run_sh(force=force):
            return Mock(W, m=m, dndm=dn, halo_bias=hb, halo_profile=Prof(), k_hm=k, bias_smooth=bs, _power_halo_centres_fnc=P, rho_gtm=rho, force_unity_dm_bias=force).power_auto_matter_sh

        def post_sh(r, force=force):
            q, q2 = sym.bvar(), sym.bvar()
            w = lambda b_: mul(app("m", "+", b_), app("dn", "0+", b_), app("hb", "+", b_))
            i_u = tm.red("simps_x", q, N, tm.mul(w(q), app("u", "", I, q)), app("m", "+", q))
            den = tm.red("simps_x", q2, N, w(q2), app("m", "+", q2)) if force else rh
            hy_ = [tm.lt(num(0), den)]
            return {"bias of the smooth matter times the bias-weighted mean halo profile" + (" (forced unbiased)" if force else ""): (hy_, eq(tm.mul(elem(r, I), den), mul(t(bs), app("PHC", "", app("kh", "+", I)), i_u))), "one value per wavenumber": shape_is(r, NK)}

        C.prove(f"{F}.power_auto_matter_sh (matter bias {'forced to one' if force else 'as integrated'})", run_sh, post_sh, hN, RG, f"{F}.HaloModelWDM.power_auto_matter_sh")

    p1, p2 = array("p1", NK), array("p2", NK)
    C.prove(f"{F}.power_auto_matter_hh", lambda: Mock(W, power_1h_auto_matter=p1, power_2h_auto_matter=p2, mean_density0=rho0, rho_gtm=rho).power_auto_matter_hh, lambda r: {"one-halo power re-normalised to the matter in haloes, plus two-halo power": eq(mul(rh, rh, tm.sub(elem(r, I), app("p2", "", I))), mul(t(rho0), t(rho0), app("p1", "", I))), "one value per wavenumber": shape_is(r, NK)}, hN, RG, f"{F}.HaloModelWDM.power_auto_matter_hh")
    ss, sh, hh = array("ss", NK), array("sh", NK), array("hh", NK)

    def post_tot(r):
        o = tm.sub(num(1), t(f))
        return {"smooth and halo components weighted by their shares of matter": eq(elem(r, I), tm.add(tm.add(mul(o, o, app("ss", "", I)), mul(num(2), o, t(f), app("sh", "", I))), mul(t(f), t(f), app("hh", "", I)))), "one value per wavenumber": shape_is(r, NK)}

    C.prove(f"{F}.power_auto_matter", lambda: Mock(W, f_halos=f, power_auto_matter_ss=ss, power_auto_matter_sh=sh, power_auto_matter_hh=hh).power_auto_matter, post_tot, hN, RG, f"{F}.HaloModelWDM.power_auto_matter")
    # lemma over the contracts: on large scales (u = 1, no one-halo power) the total is the linear power
    fv, bh, pl = t(f), t(scalar("bh", "+")), t(scalar("PL", "+"))
    o = tm.sub(num(1), fv)
    bsm = tm.div(tm.sub(num(1), tm.mul(fv, bh)), o)
    C.lemma("matter power is the linear power on the largest scales", tm.eq(tm.add(tm.add(mul(o, o, bsm, bsm, pl), mul(num(2), o, fv, bsm, bh, pl)), mul(fv, fv, bh, bh, pl)), pl), hf, RG)

    # ------------------------------------------------------------------ rescaled concentrations
    z, mh = scalar("z", "0+"), scalar("mhm", "+")
    base_cm = uf("CM", "+")

    class GenericCM(HC.CMRelation, abstract=True):
        _defaults = {"own": 1}

        def cm(self, m, z=0):
            return base_cm(m, z)

    par = {"g1": scalar("g1", "+"), "g2": scalar("g2", "+"), "beta0": scalar("b0", "+"), "beta1": scalar("b1", "+")}
    HC.GenericCM = GenericCM
    try:
        K = M.CMRelationWDMRescaled("GenericCMWDM")
        K2 = M.CMRelationWDMRescaled("GenericCM")
        own = dict(GenericCM._defaults)
    finally:
        del HC.GenericCM
    ln = lambda q: tm.fn("log", q)

    def post_cm(r):
        mi = app("m", "+", I)
        want = mul(app("CM", "+", mi, t(z)), tm.pow_(tm.add(num(1), tm.div(tm.mul(t(par["g1"]), t(mh)), mi)), tm.neg(t(par["g2"]))) if hasattr(tm, "pow_") else tm.fn("exp", tm.mul(tm.neg(t(par["g2"])), ln(tm.add(num(1), tm.div(tm.mul(t(par["g1"]), t(mh)), mi))))), tm.fn("exp", tm.mul(tm.sub(tm.mul(t(par["beta0"]), t(z)), t(par["beta1"])), ln(tm.add(num(1), t(z))))))
        return {"CDM concentration suppressed below the half-mode mass": tm.eq(ln(elem(r, I)), ln(want)), "one value per mass": shape_is(r, N)}

    for KK, lab in ((K, "with suffix"), (K2, "without suffix")):
        C.prove(f"{F}.CMRelationWDMRescaled.cm ({lab})", lambda KK=KK: new(KK, params=par, m_hm=mh).cm(m, z), post_cm, [tm.lt(I, N)], {**RG, "z": (0, 3), "mhm": (0.5, 2)}, f"{F}.CMRelationWDMRescaled")

    def post_k(v):
        return {"named after the relation": tf(K.__name__ == "GenericCMWDM" and K2.__name__ == "GenericCMWDM"), "own parameters with Bose et al.'s values": tf(K._defaults == {"own": 1, "g1": 60, "g2": 0.17, "beta0": 0.026, "beta1": 0.04}), "the CDM relation's parameters stay": tf(own == {"own": 1}), "is a rescaled relation of that kind": tf(issubclass(K, GenericCM))}

    C.prove(f"{F}.CMRelationWDMRescaled", lambda: 0, post_k, [], RG, f"{F}.CMRelationWDMRescaled")

    # half-mode mass of the model's own WDM
    class Wdm:
        m_hm = object()

    class CMo:
        m_hm = 1000

    class CMp:
        pass

    for cls, nm, parent in ((W, "halo_concentration", HM.DMHaloModel), (M.TracerHaloModelWDM, "tracer_concentration", HM.TracerHaloModel)):
        for obj in (CMo, CMp):
            def run_c(cls=cls, nm=nm, parent=parent, obj=obj):
                sub = type("Sub", (cls,), {"wdm": Wdm()})
                old = parent.__dict__[nm]
                setattr(parent, nm, property(lambda self: obj()))
                try:
                    return raw(cls, nm)(sub.__new__(sub))
                finally:
                    setattr(parent, nm, old)

            C.prove(f"{F}.{cls.__name__}.{nm} ({'rescaled' if obj is CMo else 'plain'} relation)", run_c, lambda r, obj=obj: {"the model's relation with the model's half-mode mass": tf(type(r) is obj and (not hasattr(r, "m_hm") or r.m_hm is Wdm.m_hm))}, [], RG, f"{F}.{cls.__name__}.{nm}")

    # ------------------------------------------------------------------ bounded run-time contracts
    names = ["Duffy08", "Bullock01Power", "Maccio07", "Zehavi11", "Bullock01", "Ludlow2016Empirical"]

    def cfg(rg, rc, i):
        kw = dict(transfer_model="EH", Mmin=float(rg.uniform(6, 8)), Mmax=16, dlog10m=0.05, lnk_min=-9, lnk_max=7, dlnk=0.05, dr_table=0.2, wdm_mass=float(logu(rg, 0.3, 6)), z=float(pick(rg, [0.0, rg.uniform(0, 2)])), force_unity_dm_bias=bool(i % 2), halo_concentration_model=pick(rg, ["Duffy08", "Zehavi11"]) + "WDM", hm_logk_min=-3, hm_logk_max=2, hm_dlog10k=0.1, hc_spectrum=pick(rg, ["linear", "linear", "nonlinear"]))
        if kw["halo_concentration_model"].startswith("Duffy"):
            kw["mdef_model"] = "SOMean"
        rc.rec(**kw)
        return kw

    def run_m(rg, i, rc):
        kw = cfg(rg, rc, i)
        w = W(**kw)
        mm, dnm = w.m, w.dndm
        fh = np.trapezoid(dnm * mm**2, np.log(mm)) / w.mean_density0
        rc.close(w.f_halos, fh, "share of matter in haloes", rtol=0.01)
        rc.ok(0 < w.f_halos < 1.2, "share of matter in haloes is a share")
        rc.close(w.mean_density_halos + w.mean_density_smooth, w.mean_density0, "haloes and smooth matter make up all (comoving) matter", rtol=1e-10)
        lin = w._power_halo_centres_fnc(w.k_hm)
        k0 = w.k_hm < 0.004
        one = (w.power_1h_auto_matter * 1.0)[k0] / lin[k0]
        rc.close((w.power_auto_matter / lin)[k0] - one, 1.0, "on the largest scales matter follows the spectrum of halo centres", rtol=2e-3)
        bh = 1.0 if kw["force_unity_dm_bias"] else np.trapezoid(dnm * mm**2 * w.halo_bias, np.log(mm)) / np.trapezoid(dnm * mm**2, np.log(mm))
        bsm = (1 - w.f_halos * bh) / (1 - w.f_halos)
        rc.close(w.bias_smooth, bsm, "bias of the smooth matter", rtol=0.02, atol=0.02)
        rc.close(w.power_auto_matter_ss, w.bias_smooth**2 * lin, "smooth-smooth power", rtol=1e-9)
        u = w.halo_profile.u(w.k_hm, w.m, norm="m")
        b1 = np.trapezoid(dnm * mm**2 * w.halo_bias * u, np.log(mm), axis=-1)
        nrm = np.trapezoid(dnm * mm**2 * w.halo_bias, np.log(mm)) if kw["force_unity_dm_bias"] else np.trapezoid(dnm * mm**2, np.log(mm))
        rc.close(w.power_auto_matter_sh, w.bias_smooth * lin * b1 / nrm, "smooth-halo power", rtol=0.02)
        rc.close(w.power_auto_matter_hh, w.power_1h_auto_matter / w.f_halos**2 + w.power_2h_auto_matter, "halo-halo power of the matter in haloes", rtol=1e-8)
        f_ = w.f_halos
        rc.close(w.power_auto_matter, (1 - f_) ** 2 * w.power_auto_matter_ss + 2 * f_ * (1 - f_) * w.power_auto_matter_sh + f_**2 * w.power_auto_matter_hh, "total matter power", rtol=1e-9)

    C.case("components of matter", run_m, 10 if C.tier == "quick" else 120, "densities, biases and powers of haloes and smooth matter of whole models; large-scale limit")

    def run_c(rg, i, rc):
        base = pick(rg, names)
        kw = dict(transfer_model="EH", Mmin=8, Mmax=15, dlog10m=0.2, lnk_min=-6, lnk_max=5, dlnk=0.2, wdm_mass=float(logu(rg, 0.3, 6)), z=float(rg.uniform(0, 2)), mdef_model="SOMean" if base == "Duffy08" else None)
        pars = {} if i % 2 else {"g1": float(rg.uniform(5, 80)), "g2": float(rg.uniform(0.1, 0.4)), "beta0": float(rg.uniform(0, 0.1)), "beta1": float(rg.uniform(0, 0.1))}
        rc.rec(relation=base, **kw, **pars)
        P_ = {"g1": 60, "g2": 0.17, "beta0": 0.026, "beta1": 0.04} | pars
        before = dict(getattr(HC, base)._defaults)

        def want(h, mx, zz):
            lam = 0.049 * mx**-1.11 * ((h.cosmo.Om0 - h.cosmo.Ob0) / 0.25) ** 0.11 * (h.cosmo.h / 0.7) ** 1.22
            lhm = 2 * np.pi * lam * (2 ** (1.12 / 5) - 1) ** (-0.5 / 1.12)
            mhm = 4 / 3 * np.pi * h.mean_density0 * (1 + zz) ** 3 * (lhm / 2) ** 3
            rc.close(h.wdm.m_hm, mhm, "half-mode mass", rtol=1e-3)
            mhm = h.wdm.m_hm
            cdm = W(**(kw | {"wdm_mass": mx, "z": zz}), halo_concentration_model=base)
            return cdm.cmz_relation * (1 + P_["g1"] * mhm / h.m) ** -P_["g2"] * (1 + zz) ** (P_["beta0"] * zz - P_["beta1"])

        w = W(halo_concentration_model=base + "WDM", halo_concentration_params=pars, **kw)
        rc.close(w.cmz_relation, want(w, kw["wdm_mass"], kw["z"]), "rescaled concentrations", rtol=1e-6)
        cm_, mhm_, b_ = w.halo_concentration, w.wdm.m_hm, getattr(HC, base)
        for mm in (np.sort(logu(rg, 1e6, 9e15, 60)), logu(rg, 1e6, 9e15, 1)):
            zz = float(rg.uniform(0, 3))
            plain = b_(filter0=cm_.filter, growth=cm_.growth, cosmo=cm_.cosmo, delta_c=cm_.delta_c, profile=cm_.profile, mdef=cm_.mdef, sigma_8=cm_.sigma_8, ns=cm_.ns)
            rc.rec(m=mm, z_asked=zz)
            rc.close(cm_.cm(mm, zz), plain.cm(mm, zz) * (1 + P_["g1"] * mhm_ / mm) ** -P_["g2"] * (1 + zz) ** (P_["beta0"] * zz - P_["beta1"]), "rescaled concentrations of given masses at a given redshift", rtol=1e-6)
        mx2, z2 = float(logu(rg, 0.3, 6)), float(rg.uniform(0, 2))
        w.update(wdm_mass=mx2)
        rc.close(w.cmz_relation, want(w, mx2, kw["z"]), "rescaled concentrations follow the particle mass", rtol=1e-6)
        w.update(z=z2)
        rc.close(w.cmz_relation, want(w, mx2, z2), "rescaled concentrations follow the redshift", rtol=1e-6)
        for TC in (M.TracerHaloModelWDM, M.ProjectedCFWDM):
            tr = TC(tracer_concentration_model=base + "WDM", tracer_concentration_params=pars, **kw)
            rc.close(tr.tracer_cmz_relation, want(tr, kw["wdm_mass"], kw["z"]), f"rescaled tracer concentrations ({TC.__name__})", rtol=1e-6)
            tr.update(wdm_mass=mx2)
            rc.close(tr.tracer_cmz_relation, want(tr, mx2, kw["z"]), f"rescaled tracer concentrations follow the particle mass ({TC.__name__})", rtol=1e-6)
            tr = TC(halo_concentration_model=base + "WDM", halo_concentration_params=pars, **kw)
            rc.close(tr.tracer_cmz_relation, want(tr, kw["wdm_mass"], kw["z"]), f"tracers share the haloes' rescaled concentrations by default ({TC.__name__})", rtol=1e-6)
        rc.ok(getattr(HC, base)._defaults == before, "the CDM relation's own parameters are untouched")
        rc.raises((ValueError, TypeError), lambda: HM.DMHaloModel(halo_concentration_model=base, halo_concentration_params={"g1": 3.0}, **{k_: v for k_, v in kw.items() if k_ != "wdm_mass"}).cmz_relation, "CDM relations do not take the rescaling's parameters")

    C.case("rescaled concentrations", run_c, 8 if C.tier == "quick" else 80, "relations, parameters, redshifts and particle masses, at construction and after updates; halo and tracer concentrations")

    def run_l(rg, i, rc):
        kw = dict(transfer_model="EH", Mmin=10, Mmax=15.5, dlog10m=0.1, lnk_min=-8, lnk_max=5, dlnk=0.1, dr_table=0.2, z=float(rg.uniform(0, 1)), halo_concentration_model="Duffy08", mdef_model="SOMean", hm_logk_min=-2, hm_logk_max=1)
        rc.rec(**kw)
        w, c = M.TracerHaloModelWDM(wdm_mass=1e3, **kw), HM.TracerHaloModel(**kw)
        for q in ("dndm", "power", "halo_bias", "cmz_relation", "mean_tracer_den", "power_auto_tracer", "power_1h_auto_matter", "power_2h_auto_matter", "corr_auto_tracer"):
            rc.close(getattr(w, q), getattr(c, q), f"heavy particles are cold: {q}", rtol=3e-3, atol=1e-300)
        warm = M.TracerHaloModelWDM(wdm_mass=0.3, **kw)
        rc.ok(np.all(warm.power_1h_auto_matter[-5:] != c.power_1h_auto_matter[-5:]) and warm.f_halos < w.f_halos, "light particles bind less matter into haloes")

    C.case("cold limit", run_l, 3 if C.tier == "quick" else 20)
