"""C07 -- halo masses, radii, scale radii and concentrations are mutually consistent for the mass definition and redshift."""

from __future__ import annotations

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import S, array, elem, scalar

from .common import *
from .profspec import CM, SHAPES, gen_params

G_SI = 6.673e-11


def check(C):
    import halomod.halo_model as HM
    import halomod.profiles as P
    from astropy.cosmology import FlatLambdaCDM, Planck15, WMAP7
    from hmf.halos.mass_definitions import SOCritical, SOMean, SOVirial

    C.assumptions += ["overdensities and mean densities of a mass definition come from hmf (external contract)", "masses, radii, densities, concentrations positive; rounding not modelled"]
    d, rho, rho0, eta, z = scalar("delta", "+"), scalar("rho_z", "+"), scalar("rho_0", "+"), scalar("eta"), scalar("z", "0+")
    m, r, cc = array("m", NM, sign="+"), array("r", NM, sign="+"), array("cc", NM, sign="+")
    RG = {"delta": (100, 400), "rho_z": (1, 10), "rho_0": (1, 10), "eta": (-0.5, 0.5), "m": (1, 1000), "r": (0.1, 3), "cc": (2, 20), "nuf": (0.3, 4), "crel": (2, 20), "z": (0, 3)}
    hy = [tm.lt(J, NM)]
    Mj, Rj, Cj = S(tm.app("m", "+", J)), S(tm.app("r", "+", J)), S(tm.app("cc", "+", J))
    pi, third, half = S(tm.PI), S(tm.num(tm.Fr(1, 3))), S(tm.num(0.5))

    class Rel:
        def cm(self, mm, zz):
            return uf("crel", "+")(mm, zz)

    base = dict(delta_halo=d, mean_dens=rho, mean_density0=rho0, params={"eta_bloat": eta}, nu_fn=uf("nuf", "+"), z=z, _cm_relation=Rel(), has_lam=False)

    class Fin(P.Profile, abstract=True):
        pass

    def rvir(mm, dens):
        return (3 * mm / (4 * pi * d * dens)) ** third

    for at in (False, True):
        dens = rho if at else rho0
        w = "at the halo's redshift" if at else "against today's density"
        C.prove(f"halomod.profiles.Profile.halo_mass_to_radius ({w})", lambda at=at: new(Fin, **base).halo_mass_to_radius(m, at_z=at), lambda v, dens=dens: {"radius enclosing delta_halo times the density": tm.eq(elem(v, J), t(rvir(Mj, dens)))}, hy, RG, "halomod.profiles.Profile.halo_mass_to_radius")
        C.prove(f"halomod.profiles.Profile.halo_radius_to_mass ({w})", lambda at=at: new(Fin, **base).halo_radius_to_mass(r, at_z=at), lambda v, dens=dens: {"4/3 pi r^3 delta_halo rho": tm.eq(elem(v, J), t(4 * pi * Rj**3 * d * dens / 3))}, hy, RG, "halomod.profiles.Profile.halo_radius_to_mass")

        def inv(at=at):
            o = new(Fin, **base)
            return o.halo_radius_to_mass(o.halo_mass_to_radius(m, at_z=at), at_z=at), o.halo_mass_to_radius(o.halo_radius_to_mass(r, at_z=at), at_z=at)

        C.prove(f"mass-radius relation is invertible ({w})", inv, lambda v: {"mass of radius of mass": tm.eq(elem(v[0], J), t(Mj)), "radius of mass of radius": tm.eq(elem(v[1], J), t(Rj))}, hy, RG, ["halomod.profiles.Profile.halo_mass_to_radius", "halomod.profiles.Profile.halo_radius_to_mass"])
        for nm, given in (("given concentration", True), ("relation's concentration", False)):
            def run(at=at, given=given):
                o = new(Fin, **base)
                if given:
                    return o._rs_from_m(m, cc, at_z=at)
                return o.scale_radius(m, at_z=at)

            def post(v, given=given, dens=dens):
                c = Cj if given else ap("crel", Mj, z, sign="+")
                return {"virial radius, bloated by nu^(eta/2), over concentration": tm.eq(elem(v, J), t(rvir(Mj, dens) * (ap("nuf", Mj, sign="+") ** half) ** eta / c))}

            C.prove(f"halomod.profiles.Profile.scale_radius ({w}, {nm})", run, post, hy, RG, ["halomod.profiles.Profile._rs_from_m", "halomod.profiles.Profile.scale_radius", "halomod.profiles.Profile.cm_relation"])

    # one mass on its own, and the profiles' own conversions of the relation's concentration
    m1 = scalar("m1", "+")
    RG1 = {**RG, "m1": (1, 1000)}
    moore = lambda c: (c / S(tm.num(tm.Fr(17, 10)))) ** S(tm.num(tm.Fr(9, 10)))
    own = [n for n in ("NFW", "NFWInf", "Hernquist", "HernquistInf", "Constant", "GeneralizedNFW", "GeneralizedNFWInf", "Einasto", "Moore", "MooreInf", "PowerLawWithExpCut", "CoredNFW") if isinstance(getattr(P, n, None), type)]
    for name in own:
        cls = getattr(P, name)
        conv = moore if issubclass(cls, P.Moore) else (lambda c: c)
        sb = {**base, "params": {**{k: v for k, v in cls._defaults.items()}, "eta_bloat": eta}}
        qn = ["halomod.profiles.Profile.cm_relation", "halomod.profiles.Profile.scale_radius", "halomod.profiles.Profile._rs_from_m"] + (["halomod.profiles.Moore.cm_relation", "halomod.profiles.Moore._rs_from_m"] if conv is moore else [])
        for shape, arg, M in (("masses", m, Mj), ("one mass", m1, m1)):
            at_ = (lambda v: elem(v, J)) if arg is m else t

            def post_c(v, M=M, at_=at_, conv=conv):
                c = conv(ap("crel", M, z, sign="+"))
                return {
                    "the relation's concentration": tm.eq(at_(v[0]), t(c)),
                    "scale radius is the virial radius over it": tm.eq(at_(v[1]), t(rvir(M, rho0) * (ap("nuf", M, sign="+") ** half) ** eta / c)),
                    "at the halo's redshift": tm.eq(at_(v[2]), t(rvir(M, rho) * (ap("nuf", M, sign="+") ** half) ** eta / c)),
                }

            def run_c(cls=cls, sb=sb, arg=arg):
                o = new(cls, **sb)
                return o.cm_relation(arg), o.scale_radius(arg), o.scale_radius(arg, at_z=True)

            C.prove(f"halomod.profiles.{name} concentration and scale radius ({shape})", run_c, post_c, hy, RG1, qn)

    def vv(v):
        a, b_ = v
        return {
            "sqrt(G m / r)": tm.eq(elem(a, J), t((G_SI * Mj / rvir(Mj, rho0)) ** half)),
            "same from the radius": tm.eq(elem(b_, J), t((G_SI * (4 * pi * Rj**3 * d * rho0 / 3) / Rj) ** half)),
        }

    C.prove("halomod.profiles.Profile.virial_velocity", lambda: (new(Fin, **base).virial_velocity(m=m), new(Fin, **base).virial_velocity(r=r)), vv, hy, RG, "halomod.profiles.Profile.virial_velocity")
    C.prove("halomod.profiles.Profile.virial_velocity (neither given)", lambda: new(Fin, **base).virial_velocity(), lambda v: {"refused": tm.FALSE}, (), {}, "halomod.profiles.Profile.virial_velocity", allow_raise=(ValueError,))

    rr, xx = array("rr", N, sign="+"), array("xx", N, NM, sign="+")
    hy2 = [tm.lt(I, N), tm.lt(J, NM)]
    for coord in ("r", "x", "s"):
        def run(coord=coord):
            return new(Fin, **base)._get_r_variables(xx if coord == "x" else rr, m, cc, coord)

        def post(v, coord=coord):
            c, rs, x = v
            w = rvir(Mj, rho0) * (ap("nuf", Mj, sign="+") ** half) ** eta / Cj
            Ri = S(tm.app("rr", "+", I))
            return {"concentration": tm.eq(elem(c, J), t(Cj)), "scale radius": tm.eq(elem(rs, J), t(w)), "radius in units of the scale radius": tm.eq(elem(x, I, J), t({"r": Ri / w, "x": S(tm.app("xx", "+", I, J)), "s": Ri * Cj}[coord]))}

        C.prove(f"halomod.profiles.Profile._get_r_variables (coord={coord})", run, post, hy2, {**RG, "rr": (0.1, 2), "xx": (0.1, 20)}, "halomod.profiles.Profile._get_r_variables")
    C.prove("halomod.profiles.Profile._get_r_variables (unknown coordinate)", lambda: new(Fin, **base)._get_r_variables(rr, m, cc, "q"), lambda v: {"refused": tm.FALSE}, (), {}, "halomod.profiles.Profile._get_r_variables", allow_raise=(ValueError,))

    class MD:
        def halo_overdensity_mean(self, z_, cosmo):
            return ("delta", z_, cosmo)

        def mean_density(self, z=0, cosmo=None):
            return ("dens", z, cosmo)

    class Fin2(P.Profile, abstract=True):
        pass

    def init():
        md, co, rel, nf = MD(), object(), object(), object()
        return Fin2(rel, mdef=md, z=1.5, cosmo=co, nu_fn=nf, eta_bloat=0.25), md, co, rel, nf

    def posti(v):
        o, md, co, rel, nf = v
        return TF({
            "overdensity of the definition at the halo's redshift": o.delta_halo == ("delta", 1.5, co),
            "density at the halo's redshift": o.mean_dens == ("dens", 1.5, co),
            "density today": o.mean_density0 == ("dens", 0, co),
            "relation, peak height, redshift, parameters kept": o._cm_relation is rel and o.nu_fn is nf and o.z == 1.5 and o.params == {"eta_bloat": 0.25},
        })

    C.prove("halomod.profiles.Profile.__init__", init, posti, (), {}, "halomod.profiles.Profile.__init__")

    # ---------------- bounded
    names = list(SHAPES)

    def run_b(rg, i, r_):
        name = names[i % len(names)]
        p = gen_params(rg, name)
        zz = float(pick(rg, [0.0, 0.5, 2.0]))
        md = pick(rg, [SOMean(), SOMean(overdensity=500), SOCritical(), SOVirial()])
        co = pick(rg, [Planck15, WMAP7, FlatLambdaCDM(H0=65, Om0=0.25, Tcmb0=2.7)])
        eta_ = float(pick(rg, [0.0, 0.3, -0.2]))
        nuf = lambda mm: (np.asarray(mm) / 1e12) ** 0.3
        rel = CM(rg.uniform(4, 10), rg.uniform(-0.15, 0))
        o = getattr(P, name)(rel, mdef=md, z=zz, cosmo=co, nu_fn=nuf, eta_bloat=eta_, **p)
        ms = logu(rg, 1e9, 1e16, int(rg.integers(1, 6)))
        if rg.random() < 0.3:
            ms = float(ms[0])
        r_.rec(profile=name, z=zz, mdef=str(md), cosmo=str(co.name or "flat"), eta=eta_, m=ms)
        for at in (False, True):
            dens = md.mean_density(zz if at else 0, cosmo=co)
            R_ = (3 * np.asarray(ms) / (4 * np.pi * md.halo_overdensity_mean(zz, co) * dens)) ** (1 / 3)
            r_.close(o.halo_mass_to_radius(ms, at_z=at), R_, f"{name}: halo radius", 1e-10)
            r_.close(o.halo_radius_to_mass(o.halo_mass_to_radius(ms, at_z=at), at_z=at), ms, f"{name}: mass of the radius of a mass", 1e-10)
            if not name.startswith("Moore"):
                r_.close(o.scale_radius(ms, at_z=at), R_ * nuf(ms) ** (eta_ / 2) / rel.cm(ms, zz), f"{name}: scale radius", 1e-10)
        r_.close(o.virial_velocity(m=ms), o.virial_velocity(r=o.halo_mass_to_radius(ms)), f"{name}: virial velocity from mass and from radius", 1e-10)
        r_.close(o.virial_velocity(m=ms) ** 2 * o.halo_mass_to_radius(ms) / ms, G_SI, f"{name}: virial velocity", 1e-10)
        c = o.cm_relation(ms)
        if not name.startswith("Moore"):
            r_.close(c, rel.cm(ms, zz), f"{name}: concentration is the relation's at the halo's redshift", 1e-12)
            r_.close(o._rs_from_m(ms, c) * c, o.halo_mass_to_radius(ms) * nuf(ms) ** (eta_ / 2), f"{name}: concentration times scale radius is the halo radius", 1e-10)

    C.case("radii", run_b, 104 if C.tier == "quick" else 2000, "profiles x definitions x redshift x cosmology x bloating, scalar and array masses")

    def run_moore(rg, i, r_):
        o = (P.Moore, P.MooreInf)[i](CM())
        ms = logu(rg, 1e10, 1e15, 4)
        c = rg.uniform(3, 12, 4)
        r_.rec(profile=type(o).__name__, m=ms, c=c)
        r_.close(o._rs_from_m(ms, c) * c, o.halo_mass_to_radius(ms), "concentration times scale radius is the halo radius (Moore)", 1e-8)

    C.case("Moore radii", run_moore, 2)

    def run_hm(rg, i, r_):
        zz = float(pick(rg, [0.0, 1.0]))
        co = "Planck15" if i % 2 else pick(rg, ["WMAP7", "Planck13"])
        md = pick(rg, ["SOCritical", "SOMean", "SOVirial"])
        tr = pick(rg, [None, "CoredNFW"])
        r_.rec(cosmo="Planck15" if i % 2 else "other", cosmology=co, z=zz, mdef=md, tracer=tr)
        hm = HM.TracerHaloModel(z=zz, cosmo_model=co, mdef_model=md, tracer_profile_model=tr, transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.5, lnk_min=-6, lnk_max=4, dlnk=0.5)
        for o in (hm.halo_profile, hm.tracer_profile):
            dh = hm.mdef.halo_overdensity_mean(zz, hm.cosmo)
            R_ = (3 * hm.m / (4 * np.pi * dh * hm.mdef.mean_density(0, hm.cosmo))) ** (1 / 3)
            r_.close(o.halo_mass_to_radius(hm.m), R_, "halo radii in a halo model follow its own cosmology and definition", 1e-6)
            r_.close(o.scale_radius(hm.m), R_ / hm.cmz_relation, "scale radii in a halo model", 1e-6)

    C.case("in a halo model", run_hm, 8 if C.tier == "quick" else 40)
