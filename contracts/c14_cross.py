"""C14 -- cross-correlations of two tracers count cross pairs, with both tracers' own properties."""

from __future__ import annotations

import warnings

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, array, elem, scalar

from .c12_tracer_quantities import splint
from .c13_two_point import ES, HK, kind, spline_contract, tf
from .common import *


class Hod2:
    def __init__(self, tag):
        for q in ("central_occupation", "satellite_occupation", "sigma_central", "sigma_satellite", "total_occupation"):
            setattr(self, q, uf(f"{q}{tag}", "0+"))


class HM1:
    """contract of a tracer halo model: arbitrary grids shared by both models, own tracers"""

    def __init__(self, tag, mmin, own=False, **kw):
        o, n_ = (tag, tm.var("n" + tag, "i", "+")) if own else ("", N)
        self.m, self.dndm, self.k = array("m" + o, n_, sign="+"), array("dn" + o, n_, sign="0+"), array("k", NK, sign="+")
        self.k_hm, self.r, self._r_table = array("kh", NM, sign="+"), array("r", NM, sign="+"), array("rt", NR, sign="+")
        self.halo_bias = array("hb" + o, n_, sign="+")
        self.tracer_profile_ukm = array(f"u{tag}", NK, n_)
        self.mean_tracer_den = scalar(f"n{tag}", "+")
        self._total_occupation = array(f"tot{tag}", n_, sign="0+")
        self.tracer_mmin = mmin
        self.hod = Hod2(tag)
        self.linear_power_fnc = uf("LIN")
        self._power_halo_centres_fnc = uf("PHC")
        self.__dict__.update(kw)


def check(C):
    import halomod.cross_correlations as X
    import halomod.tools as T
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    C.assumptions += [
        "both halo models share wavenumber and separation grids, and for the one-halo term the mass grid (documented precondition of CrossCorrelations); the two-halo term is proved for each tracer's own mass grid",
        "tools.ExtendedSpline and tools.hankel_transform by contract (C09, C18); Simpson and spline integrals are linear functionals of the tabulated integrand (assumed)",
        "hmf's sub-framework mechanism supplies both halo models (external dependency, bounded run-time contract)",
    ]
    F = "halomod.cross_correlations"
    app = tm.app
    mul = lambda *a: __import__("functools").reduce(tm.mul, a)
    m = array("m", N, sign="+")
    RG = {"n": (11, 13), "nk": (11, 13), "nr": (11, 13), "nm": (2, 3), "m": (1, 3)}
    hy = [tm.lt(tm.num(10), N), tm.lt(tm.num(10), NK), tm.lt(tm.num(10), NR)]
    M_ = lambda q: app("m", "+", q)

    # ------------------------------------------------------------------ pair functions
    c1, c2 = uf("central_occupation1", "0+"), uf("central_occupation2", "0+")
    P = {"R_ss": scalar("Rss"), "R_cs": scalar("Rcs"), "R_sc": scalar("Rsc")}
    q1 = lambda nm, x: app(nm + "1", "0+", x)
    q2 = lambda nm, x: app(nm + "2", "0+", x)
    mi = app("m", "+", I)
    want = {
        "ss_cross_pairs": tm.add(mul(q1("satellite_occupation", mi), q2("satellite_occupation", mi)), mul(q1("sigma_satellite", mi), q2("sigma_satellite", mi), t(P["R_ss"]))),
        "cs_cross_pairs": tm.add(mul(q1("central_occupation", mi), q2("satellite_occupation", mi)), mul(q1("sigma_central", mi), q2("sigma_satellite", mi), t(P["R_cs"]))),
        "sc_cross_pairs": tm.add(mul(q2("central_occupation", mi), q1("satellite_occupation", mi)), mul(q2("sigma_central", mi), q1("sigma_satellite", mi), t(P["R_sc"]))),
    }
    for nm, wt in want.items():
        C.prove(f"{F}.ConstantCorr.{nm}", lambda nm=nm: getattr(new(X.ConstantCorr, params=P, hods=[Hod2("1"), Hod2("2")]), nm)(m), lambda r, wt=wt: {"product of the mean contents plus correlated scatter": tm.eq(elem(r, I), wt), "one value per mass": shape_is(r, N)}, [tm.lt(I, N)], RG, [f"{F}._HODCross.{nm}", f"{F}.ConstantCorr"])

    class Gen(X._HODCross, abstract=True):
        R_ss = staticmethod(uf("RSS"))
        R_cs = staticmethod(uf("RCS"))
        R_sc = staticmethod(uf("RSC"))
        self_pairs = staticmethod(uf("SELF", "0+"))

    wg = {
        "ss_cross_pairs": tm.sub(tm.add(mul(q1("satellite_occupation", mi), q2("satellite_occupation", mi)), mul(q1("sigma_satellite", mi), q2("sigma_satellite", mi), app("RSS", "", mi))), app("SELF", "0+", mi)),
        "cs_cross_pairs": tm.add(mul(q1("central_occupation", mi), q2("satellite_occupation", mi)), mul(q1("sigma_central", mi), q2("sigma_satellite", mi), app("RCS", "", mi))),
        "sc_cross_pairs": tm.add(mul(q2("central_occupation", mi), q1("satellite_occupation", mi)), mul(q2("sigma_central", mi), q1("sigma_satellite", mi), app("RSC", "", mi))),
    }
    for nm, wt in wg.items():
        C.prove(f"{F}._HODCross.{nm} (any correlation model)", lambda nm=nm: getattr(new(Gen, params={}, hods=[Hod2("1"), Hod2("2")]), nm)(m), lambda r, wt=wt: {"mean contents, correlated scatter, less self-pairs": tm.eq(elem(r, I), wt)}, [tm.lt(I, N)], RG, f"{F}._HODCross.{nm}")
    C.prove(f"{F}.ConstantCorr.self_pairs", lambda: new(X.ConstantCorr, params=P, hods=[]).self_pairs(m), lambda r: {"different tracers have no self-pairs": tm.eq(t(r) if not isinstance(sym.lift(r), A) else elem(r, I), tm.ZERO)}, [], RG, f"{F}.ConstantCorr.self_pairs")

    # ------------------------------------------------------------------ one-halo
    class Cross:
        ss_cross_pairs = staticmethod(uf("PSS", "0+"))
        cs_cross_pairs = staticmethod(uf("PCS", "0+"))
        sc_cross_pairs = staticmethod(uf("PSC", "0+"))

    CC = X.CrossCorrelations
    ul = lambda tag, q: app(f"u{tag}", "", I, q)
    es_only = {"identity": [(T.ExtendedSpline, ES), (IUS, sym.SymSplineI)]}

    def models(mm1=None, mm2=None, own=False):
        return HM1("1", mm1, own), HM1("2", mm2, own)

    def table(es, x, n, val, lower, upper):
        return {"tabulated at the model's points": tm.and_(eq(elem(es.x, I), app(x, "+", I)), shape_is(es.x, n)), "table values": val(elem(es.y, I)), "extension below the table": tf(kind(es.lower) == lower), "extension above the table": tf(kind(es.upper) == upper)}

    def run1():
        a, b_ = models()
        return Mock(CC, halo_model_1=a, halo_model_2=b_, cross_hod=Cross()).power_1h_cross_fnc

    def val1(y):
        bv = sym.bvar()
        x = M_(bv)
        f = tm.mul(app("dn", "0+", bv), tm.add(tm.add(mul(ul(1, bv), ul(2, bv), app("PSS", "0+", x)), mul(ul(1, bv), app("PSC", "0+", x))), mul(ul(2, bv), app("PCS", "0+", x))))
        return tm.eq(mul(y, t(scalar("n1", "+")), t(scalar("n2", "+"))), tm.red("simps_x", bv, N, f, x))

    C.prove(f"{F}.CrossCorrelations.power_1h_cross_fnc", run1, lambda e: table(e, "k", NK, val1, "power_law", "power_law"), hy + [tm.lt(I, NK)], RG, f"{F}.CrossCorrelations.power_1h_cross_fnc", extra=es_only)

    # ------------------------------------------------------------------ two-halo
    x1, x2 = scalar("xm1", "+"), scalar("xm2", "+")
    for a1 in (None, x1):
        for a2 in (None, x2):
            def run2(a1=a1, a2=a2):
                a, b_ = models(a1, a2, own=True)
                return Mock(CC, halo_model_1=a, halo_model_2=b_).power_2h_cross_fnc

            def b_of(tag, x):
                N = tm.var(f"n{tag}", "i", "+")
                M_ = lambda q: app(f"m{tag}", "+", q)

                def f(bv):
                    return mul(app(f"dn{tag}", "0+", bv), app(f"hb{tag}", "+", bv), app(f"tot{tag}", "0+", bv), ul(tag, bv))

                bv = sym.bvar()
                full = tm.red("simps_x", bv, N, tm.mul(f(bv), M_(bv)), tm.fn("log", M_(bv)))
                if x is None:
                    return full
                lastm = tm.fn("log", M_(tm.sub(N, tm.num(1))))
                b2 = sym.bvar()
                part = tm.red("splint", b2, N, tm.mul(f(b2), M_(b2)), tm.fn("log", M_(b2)), tm.fn("log", t(x)), lastm)
                return tm.ite(tm.lt(M_(tm.num(0)), t(x)), part, full)

            def post2(e, a1=a1, a2=a2):
                d = table(e, "k", NK, lambda y: tm.eq(mul(y, t(scalar("n1", "+")), t(scalar("n2", "+"))), mul(b_of(1, a1), b_of(2, a2), app("PHC", "", app("k", "+", I)))), e.lower, "power_law")
                d["extension below the table"] = tm.eq(t(e.lower(scalar("q", "+"))), app("LIN", "", t(scalar("q", "+"))))
                d["matched to the table"] = tf(bool(e.ml))
                return d

            C.prove(f"{F}.CrossCorrelations.power_2h_cross_fnc (minimum masses {'set' if a1 is not None else 'none'}/{'set' if a2 is not None else 'none'})", run2, post2, hy + [tm.lt(I, NK), tm.lt(tm.num(10), tm.var("n1", "i", "+")), tm.lt(tm.num(10), tm.var("n2", "i", "+"))], {**RG, "xm1": (0.5, 3), "xm2": (0.5, 3), "n1": (11, 13), "n2": (11, 13), "m1": (1, 3), "m2": (1, 3)}, f"{F}.CrossCorrelations.power_2h_cross_fnc", extra=es_only)

    # ------------------------------------------------------------------ correlations, totals, wiring
    for nm, src in (("corr_1h_cross_fnc", "power_1h_cross_fnc"), ("corr_2h_cross_fnc", "power_2h_cross_fnc")):
        h = HK()
        f = uf(src)

        def run3(nm=nm, src=src, h=h, f=f):
            h.log.clear()
            a, b_ = models()
            return getattr(Mock(CC, halo_model_1=a, halo_model_2=b_, **{src: f}), nm), list(h.log)

        def post3(v, f=f):
            e, log = v
            return {"transform of the matching power": tf(log[-1][0] is f and log[-1][2] == "r"), "at the model's separations": tm.eq(elem(log[-1][1], I), app("rt", "+", I)), **table(e, "rt", NR, lambda y: tm.eq(y, app("hk", "", app("rt", "+", I))), "power_law", "zero")}

        C.prove(f"{F}.CrossCorrelations.{nm}", run3, post3, hy + [tm.lt(I, NR)], RG, f"{F}.CrossCorrelations.{nm}", extra={"identity": [(T.ExtendedSpline, ES), (T.hankel_transform, h)]})
    for q, pts in (("power", "kh"), ("corr", "r")):
        def run4(q=q):
            a, b_ = models()
            return getattr(Mock(CC, halo_model_1=a, halo_model_2=b_, **{f"{q}_1h_cross_fnc": uf("FA"), f"{q}_2h_cross_fnc": uf("FB")}), f"{q}_cross")

        x = app(pts, "+", I)
        C.prove(f"{F}.CrossCorrelations.{q}_cross", run4, lambda r, x=x: {"sum of the one- and two-halo terms": tm.eq(elem(r, I), tm.add(app("FA", "", x), app("FB", "", x)))}, [tm.lt(I, NM)], RG, [f"{F}.CrossCorrelations.{q}_cross", f"{F}.CrossCorrelations.{q}_cross_fnc"])
        for h_ in ("1h", "2h"):
            def run5(q=q, h_=h_):
                a, b_ = models()
                return getattr(Mock(CC, halo_model_1=a, halo_model_2=b_, **{f"{q}_{h_}_cross_fnc": uf("FA")}), f"{q}_{h_}_cross")

            C.prove(f"{F}.CrossCorrelations.{q}_{h_}_cross", run5, lambda r, x=x: {"the function at the model's points": tm.eq(elem(r, I), app("FA", "", x))}, [tm.lt(I, NM)], RG, f"{F}.CrossCorrelations.{q}_{h_}_cross")

    class CM:
        def __init__(self, hods, **kw):
            self.hods, self.kw = hods, kw

    def run6():
        a, b_ = models()
        return Mock(CC, halo_model_1=a, halo_model_2=b_, cross_hod_model=CM, cross_hod_params={"R_ss": scalar("Rss")}).cross_hod, a, b_

    C.prove(f"{F}.CrossCorrelations.cross_hod", run6, lambda v: {"both tracers' occupations, in order": tf(len(v[0].hods) == 2 and v[0].hods[0] is v[1].hod and v[0].hods[1] is v[2].hod), "user parameters": tm.eq(t(v[0].kw["R_ss"]), t(scalar("Rss")))}, [], {}, f"{F}.CrossCorrelations.cross_hod")

    # ------------------------------------------------------------------ bounded run-time oracles
    HODS = ["Zehavi05", "Zheng05", "Tinker05", "Contreras13", "Constant"]

    def run_b(rg, i, rc):
        import halomod.hod as H

        base = dict(transfer_model="EH", Mmin=9.5, Mmax=15.5, dlog10m=0.1, lnk_min=-6, lnk_max=3.5, dlnk=0.25, dr_table=0.15, rmin=0.1, rmax=50, rnum=8, z=float(pick(rg, [0.0, 0.8, 1.6])), hc_spectrum=pick(rg, ["linear", "nonlinear"]))
        P = []
        for j in (0, 1):
            nm = HODS[(i + j * int(rg.integers(1, 5))) % 5]
            cl = getattr(H, nm)
            hp = {"M_min": float(rg.uniform(11, 13))} if "M_min" in cl._defaults else {}
            if "alpha" in cl._defaults:
                hp["alpha"] = float(rg.uniform(0.8, 1.3))
            if "central" in cl._defaults:
                hp["central"] = bool(rg.integers(2))
            P.append(dict(base, hod_model=nm, hod_params=hp, tracer_profile_model=pick(rg, [None, "NFW", "CoredNFW"])))
        R = {k: float(rg.uniform(-1, 1)) for k in ("R_ss", "R_cs", "R_sc")} if i % 3 else {}
        rc.rec(a=str(P[0]), b=str(P[1]), R=R)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            c = X.CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params=R, halo_model_1_params=P[0], halo_model_2_params=P[1])
            a, b_ = T_(P[0]), T_(P[1])
            mm, K, dn = a.m, a.k, a.dndm
            h1, h2 = a.hod, b_.hod
            g = lambda k: R.get(k, 0.0)
            ss = h1.satellite_occupation(mm) * h2.satellite_occupation(mm) + g("R_ss") * h1.sigma_satellite(mm) * h2.sigma_satellite(mm)
            cs = h1.central_occupation(mm) * h2.satellite_occupation(mm) + g("R_cs") * h1.sigma_central(mm) * h2.sigma_satellite(mm)
            sc = h2.central_occupation(mm) * h1.satellite_occupation(mm) + g("R_sc") * h2.sigma_central(mm) * h1.sigma_satellite(mm)
            for qq in (slice(None), slice(5, 6), slice(20, 21), slice(30, 33)):
                rc.close(c.cross_hod.ss_cross_pairs(mm[qq]), ss[qq], "satellite pairs of these masses", rtol=1e-10)
                rc.close(c.cross_hod.cs_cross_pairs(mm[qq]), cs[qq], "central-satellite pairs of these masses", rtol=1e-10)
                rc.close(c.cross_hod.sc_cross_pairs(mm[qq]), sc[qq], "satellite-central pairs of these masses", rtol=1e-10)
            rc.close(c.cross_hod.ss_cross_pairs(mm), ss, "satellite pairs", rtol=1e-10)
            rc.close(c.cross_hod.cs_cross_pairs(mm), cs, "central-satellite pairs", rtol=1e-10)
            rc.close(c.cross_hod.sc_cross_pairs(mm), sc, "satellite-central pairs", rtol=1e-10)
            u1, u2 = a.tracer_profile_ukm, b_.tracer_profile_ukm
            from scipy.integrate import simpson

            f1 = dn * (u1 * u2 * ss + u1 * sc + u2 * cs)
            p1 = simpson(f1, x=mm) / a.mean_tracer_den / b_.mean_tracer_den
            rc.close(c.power_1h_cross_fnc(K), p1, "one-halo cross power: pairs with the profiles of the satellites involved", rtol=1e-6, atol=1e-8 * np.abs(p1).max())
            e1, e2 = a._tracer_exclusion, b_._tracer_exclusion
            G1 = np.sqrt(np.abs(e1.integrate()))
            G2 = np.sqrt(np.abs(e2.integrate()))
            s = (G1[0] if G1.ndim == 2 else G1) * (G2[0] if G2.ndim == 2 else G2) * a._power_halo_centres_fnc(K)
            lowk = K < 1
            rc.close(c.power_2h_cross_fnc(K[lowk]), s[lowk], "two-halo cross power: both tracers' bias-weighted integrals", rtol=0.03)
            kb = np.array([K[0], K[3]])
            rc.close(c.power_2h_cross_fnc(kb), a.bias_effective_tracer * b_.bias_effective_tracer * a._power_halo_centres_fnc(kb), "two-halo cross power on large scales: product of the effective biases", rtol=0.12)
            Rt = a._r_table[3:-3]
            rc.close(c.corr_1h_cross_fnc(Rt), T.hankel_transform(c.power_1h_cross_fnc, Rt, "r"), "one-halo cross-correlation is the transform of its power", rtol=1e-5, atol=1e-8)
            rc.close(c.corr_2h_cross_fnc(Rt), T.hankel_transform(c.power_2h_cross_fnc, Rt, "r", h=0.0001), "two-halo cross-correlation is the transform of its power", rtol=1e-5, atol=1e-8)
            rc.close(c.power_cross, c.power_1h_cross_fnc(a.k_hm) + c.power_2h_cross_fnc(a.k_hm), "cross power is the sum of both terms", rtol=1e-9)
            rc.close(c.corr_cross, c.corr_1h_cross_fnc(a.r) + c.corr_2h_cross_fnc(a.r), "cross-correlation is the sum of both terms", rtol=1e-9)
            rc.close(c.power_1h_cross, c.power_1h_cross_fnc(a.k_hm), "the one-halo term at the model's wavenumbers", rtol=1e-10)
            rc.close(c.power_2h_cross, c.power_2h_cross_fnc(a.k_hm), "the two-halo term at the model's wavenumbers", rtol=1e-10)
            rc.close(c.corr_1h_cross, c.corr_1h_cross_fnc(a.r), "the one-halo correlation at the model's separations", rtol=1e-10)
            rc.close(c.corr_2h_cross, c.corr_2h_cross_fnc(a.r), "the two-halo correlation at the model's separations", rtol=1e-10)
            # beyond the tables
            klo = K[0] * np.array([0.2, 0.5])
            power_law_beyond(rc, c.power_1h_cross_fnc, K, p1, False, "one-halo power below the table")
            power_law_beyond(rc, c.power_1h_cross_fnc, K, p1, True, "one-halo power above the table")
            p2 = c.power_2h_cross_fnc(K)
            rc.close(c.power_2h_cross_fnc(klo), a.linear_power_fnc(klo) * p2[0] / a.linear_power_fnc(K[0]), "two-halo power below the table follows the linear power", rtol=1e-4)
            power_law_beyond(rc, c.power_2h_cross_fnc, K, p2, True, "two-halo power above the table")
            RT = a._r_table
            for w in ("1h", "2h"):
                fc = getattr(c, f"corr_{w}_cross_fnc")
                y = fc(RT)
                rc.close(fc(RT[-1] * np.array([1.5, 4.0])), 0, f"{w} correlation beyond the table is zero", atol=1e-14)
                power_law_beyond(rc, fc, RT, y, False, f"{w} correlation below the table")
            # each tracer may tabulate its own masses in the two-halo term
            fine = dict(P[1], dlog10m=0.04)
            e = X.CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params=R, halo_model_1_params=P[0], halo_model_2_params=fine)
            f_ = T_(fine)
            Gf = np.sqrt(np.abs(f_._tracer_exclusion.integrate()))
            sf = (G1[0] if G1.ndim == 2 else G1) * (Gf[0] if Gf.ndim == 2 else Gf) * a._power_halo_centres_fnc(K)
            rc.close(e.power_2h_cross_fnc(K[lowk]), sf[lowk], "two-halo cross power of tracers on their own mass grids", rtol=0.03)
            # symmetric
            Rr = {"R_ss": g("R_ss"), "R_cs": g("R_sc"), "R_sc": g("R_cs")}
            d = X.CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params=Rr, halo_model_1_params=P[1], halo_model_2_params=P[0])
            rc.close(d.power_cross, c.power_cross, "exchanging the tracers changes nothing", rtol=1e-6, atol=1e-8 * np.abs(p1).max())
            # histories: updating a tracer is seen by the cross quantities
            if i % 2:
                c.halo_model_2.update(hod_params={"M_min": 12.9})
                q = dict(P[1], hod_params={**P[1]["hod_params"], "M_min": 12.9})
                c2 = X.CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params=R, halo_model_1_params=P[0], halo_model_2_params=q)
                rc.close(c.power_cross, c2.power_cross, "updating one tracer gives what a new model gives", rtol=1e-9)
                c.update(cross_hod_params={"R_ss": 0.4})
                c2.update(cross_hod_params={"R_ss": 0.4})
                c3 = X.CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params={**R, "R_ss": 0.4}, halo_model_1_params=P[0], halo_model_2_params=q)
                rc.close(c.power_cross, c3.power_cross, "updating the pair correlation gives what a new model gives", rtol=1e-9)

    import halomod.halo_model as HMM

    T_ = lambda p: HMM.TracerHaloModel(**p)
    C.case("two tracers", run_b, 12 if C.tier == "quick" else 150, "pairs of tracers with different occupations, profiles and minimum masses; correlated scatter; exchanged and updated tracers")
