"""C02 -- central condition and intra-halo pair counts."""

from __future__ import annotations

import numpy as np

from pyvc import terms as tm
from pyvc.sym import S, array, elem, scalar

from . import hodspec as hs
from .c01_occupation import cls_of, inst, ranges_for, symparams
from .common import *


def check(C):
    import halomod.hod as H

    C.assumptions += ["the mean occupations _central/_satellite relations are taken by contract (C01)", "floating-point rounding not modelled"]
    m = array("m", N, sign="+")
    inr = tm.lt(I, N)
    cen0, sat0 = array("cen0", N, sign="0+"), array("sat0", N, sign="0+")
    tc0, ts0 = array("tc0", N, sign="+"), array("ts0", N, sign="+")
    c_, s_, k_, l_ = (tm.app(x, sg, I) for x, sg in (("cen0", "0+"), ("sat0", "0+"), ("tc0", "+"), ("ts0", "+")))

    def contract_cls(base):
        """the class under verification with its two mean relations replaced by their contracts"""
        ns = {"_central_occupation": lambda self, mm: cen0 if not issubclass(base, H.HODNoCentral) else 0,
              "_satellite_occupation": lambda self, mm: sat0, "_defaults": dict(base._defaults)}
        if issubclass(base, H.HODPoisson):
            ns["_tracer_per_central"] = lambda self, mm: tc0
            ns["_tracer_per_satellite"] = lambda self, mm: ts0
        return type("K_" + base.__name__, (base,), ns)

    names = sorted(n for n, k in vars(H).items() if isinstance(k, type) and issubclass(k, H.HOD) and k._defaults is not None and not getattr(k, "__abstractmethods__", None))
    for name in names:
        base = getattr(H, name)
        K = contract_cls(base)
        q = f"halomod.hod.{name}"
        bulk = issubclass(base, H.HODNoCentral)
        for central in (False, True):

            def run(K=K, central=central, base=base):
                h = K() if issubclass(base, H.HODNoCentral) else K(central=central)
                h.params = {k: scalar("p_" + k) for k in base._defaults}
                cen = h.central_occupation(m)
                return dict(cen=cen, sat=h.satellite_occupation(m), tot=h.total_occupation(m), ss=h.ss_pairs(m), cs=h.cs_pairs(m), tp=h.total_pair_function(m), nc=h.nc(m), ns=h.ns(m), inherent=h.central_condition_inherent,
                            sc=h.sigma_central(m), sss=h.sigma_satellite(m))

            def post(v, central=central, base=base, bulk=bulk):
                e = {k: elem(x, I) for k, x in v.items() if k != "inherent"}
                inherent = v["inherent"]
                g = {}
                if bulk:
                    ns_, cc = s_, tm.ZERO
                    g["no central component"] = tm.and_(tm.eq(e["cen"], tm.ZERO), tm.eq(e["nc"], tm.ZERO), tm.eq(e["cs"], tm.ZERO))
                    cs = tm.ZERO
                else:
                    cc = c_
                    ncx = tm.div(c_, k_)
                    ns_ = tm.mul(ncx, s_) if central and not inherent else s_
                    cs = tm.mul(ns_, k_) if central else tm.mul(cc, ns_)
                    g["nc = amount per object"] = tm.eq(e["nc"], ncx)
                    g["ns = amount per object"] = tm.eq(e["ns"], tm.div(ns_, l_))
                    if central:
                        g["central condition: no satellites without a central"] = ([tm.eq(c_, tm.ZERO)], tm.eq(e["sat"], tm.ZERO)) if not inherent else tm.TRUE
                    else:
                        g["uncorrelated: cs pairs = <Nc><Ns>"] = tm.eq(e["cs"], tm.mul(cc, ns_))
                g["satellites"] = tm.eq(e["sat"], ns_)
                g["centrals unchanged"] = tm.eq(e["cen"], cc)
                g["total"] = tm.eq(e["tot"], tm.add(cc, ns_))
                g["ss pairs = Ns^2"] = tm.eq(e["ss"], tm.mul(ns_, ns_))
                g["cs pairs"] = tm.eq(e["cs"], cs)
                g["total pairs = ss + cs"] = tm.eq(e["tp"], tm.add(tm.mul(ns_, ns_), cs))
                g["pair counts >= 0"] = tm.and_(le(0, e["ss"]), le(0, e["cs"]))
                if not bulk:
                    g["Poisson satellites: sigma^2 = Ns"] = tm.eq(tm.mul(e["sss"], e["sss"]), ns_)
                return g

            C.prove(f"{q} pairs (central={central})", run, post, [inr], {}, [f"{q}.{x}" for x in ("satellite_occupation", "total_occupation", "ss_pairs", "cs_pairs", "total_pair_function", "nc", "ns", "sigma_satellite")])

    # Tinker05 satisfies the central condition inherently: obligation on its own satellite relation
    def run_t():
        h = inst("Tinker05", True)
        return h.central_occupation(m), h.satellite_occupation(m)

    C.prove("halomod.hod.Tinker05 inherent central condition", run_t,
            lambda v: {"no satellites without a central": ([tm.eq(elem(v[0], I), tm.ZERO)], tm.eq(elem(v[1], I), tm.ZERO))}, [inr], ranges_for("Tinker05"), "halomod.hod.Tinker05._satellite_occupation")

    def post_sig(v):
        sc, sm = v
        x = tm.app("cen0", "0+", I)
        return {"Bernoulli centrals: sigma^2 = Nc(1-Nc)": tm.eq(tm.mul(elem(sc, I), elem(sc, I)), tm.mul(x, tm.sub(tm.ONE, x)))}

    for name in ("Zehavi05", "Zheng05"):
        K = contract_cls(getattr(H, name))
        C.prove(f"halomod.hod.{name} central scatter", lambda K=K: (K().sigma_central(m), 0), post_sig, [inr, tm.le(c_, tm.ONE)], {}, f"halomod.hod.{name}.sigma_central")

    # ---- bounded
    all_names = list(hs.SPEC)

    def conc(rng, i, r):
        name = all_names[i % len(all_names)]
        sp_ = hs.SPEC[name]
        p = {**cls_of(name)._defaults, **hs.draw(rng, sp_["params"])}
        central = bool((i // len(all_names)) % 2)
        m = hs.masses(rng, p)
        r.rec(model=name, params=p, central=central, m=m)
        h = cls_of(name)(**p) if sp_.get("bulk") else cls_of(name)(central=central, **p)
        cen = sp_["c"](m, p) if sp_["c"] else 0 * m
        s0 = sp_["s"](m, p)
        tc = sp_["tc"](m, p) if sp_.get("tc") else 1 + 0 * m
        sel = tc > 0
        if not np.any(sel):
            return
        m, cen, s0, tc = m[sel], cen[sel], s0[sel], tc[sel]
        sat = s0
        if central and not sp_.get("inherent") and not sp_.get("bulk"):
            sat = cen / tc * s0
        if sp_.get("bulk"):
            cs = 0 * m
        elif central:
            cs = sat * tc
        else:
            cs = cen * sat
        r.close(h.satellite_occupation(m), sat, f"{name} satellites under the central condition", 1e-8, 1e-300)
        r.close(np.zeros_like(m) + h.central_occupation(m), cen, f"{name} centrals", 1e-8, 1e-13)
        r.close(h.ss_pairs(m), sat**2, f"{name} ss pairs", 1e-8, 1e-300)
        r.close(h.cs_pairs(m) + 0 * m, cs, f"{name} cs pairs", 1e-8, 1e-300)
        r.close(h.total_pair_function(m), sat**2 + cs, f"{name} total pairs", 1e-8, 1e-300)
        r.close(h.total_occupation(m), cen + sat, f"{name} total", 1e-8, 1e-13)
        if central and not sp_.get("bulk"):
            no = np.asarray(h.central_occupation(m)) == 0
            r.ok(np.asarray(h.satellite_occupation(m))[no] == 0, f"{name}: satellites in haloes that cannot host a central")
        if not sp_.get("bulk"):
            r.close(np.asarray(h.sigma_satellite(m)) ** 2, sat, f"{name} sigma_satellite", 1e-8, 1e-300)
            if not sp_.get("tc"):
                amp = p["fcb"] * (1 - p["fca"]) + 2 * p["fca"] if "fca" in p else 1
                if amp <= 1:
                    r.close(np.asarray(h.sigma_central(m)) ** 2, cen * (1 - cen), f"{name} sigma_central", 1e-7, 1e-13)
        else:
            r.close(h.sigma_satellite(m), p["sigma_A"] + 0 * m, f"{name} sigma_satellite", 1e-12)

    C.case("pairs", conc, (80 if C.tier == "quick" else 800) * len(all_names), "random model, parameters, central condition on/off, masses incl. cut-offs")
