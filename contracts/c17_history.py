"""C17 -- results depend on the current parameters alone: not on earlier values, the order of updates or of reading, or other models."""

from __future__ import annotations

import copy
import warnings

import numpy as np

from pyvc import engine, sym
from pyvc import terms as tm
from pyvc.sym import array, elem, scalar

from .common import *

BASE = dict(hmf_model="Tinker08", bias_model="Tinker10", transfer_model="EH", Mmin=10, Mmax=15, dlog10m=0.25, lnk_min=-6, lnk_max=4, dlnk=0.2,
            dr_table=0.3, rnum=5, rmin=0.1, rmax=50, hm_logk_min=-2, hm_logk_max=1, hm_dlog10k=0.5)
DM_ALT = [
    ("bias_model", "SMT01"), ("bias_model", "Manera10"), ("bias_model", "UnityBias"), ("bias_params", {}), ("z", 1.0), ("z", 0.4), ("n", 0.9), ("sigma_8", 0.7), ("cosmo_params", {"Om0": 0.25}),
    ("hc_spectrum", "nonlinear"), ("hc_spectrum", "linear"), ("hc_spectrum", "filtered-lin"), ("takahashi", False), ("halo_profile_model", "Einasto"), ("halo_profile_model", "Hernquist"), ("halo_profile_model", "CoredNFW"),
    ("halo_profile_model", "NFW"), ("halo_profile_model", "GeneralizedNFW"), ("halo_profile_params", {"alpha": 0.9}), ("halo_profile_params", {"alpha": 1.1}), ("halo_profile_params", {}),
    ("halo_concentration_model", "Bullock01Power"), ("halo_concentration_model", "Zehavi11"), ("halo_concentration_params", {"norm": 1.3}), ("halo_concentration_params", {}), ("rmin", 0.2), ("rmin", [0.3, 1.0, 5.0]), ("rmax", 20.0),
    ("rnum", 7), ("rlog", False), ("dr_table", 0.2), ("hm_dlog10k", 0.3), ("hm_logk_min", -1.0), ("hm_logk_min", -3.0), ("sd_bias_model", "TinkerSD05"), ("sd_bias_model", None), ("sd_bias_params", {"a": 1.3}), ("sd_bias_params", {}),
    ("force_1halo_turnover", False), ("force_1halo_turnover", True), ("force_unity_dm_bias", False), ("exclusion_model", "Sphere"), ("exclusion_model", "DblSphere_"), ("exclusion_model", "NoExclusion"), ("mdef_model", "SOMean"),
    ("mdef_params", {"overdensity": 300}), ("hmf_model", "PS"), ("Mmin", 10.5), ("Mmax", 14.5), ("dlog10m", 0.2), ("filter_model", "SharpK"), ("delta_c", 1.7), ("growth_model", "GenMFGrowth"), ("transfer_model", "BBKS"), ("colossus_params", {"relspecies": False}),
]
TR_ALT = [
    ("hod_params", {"M_min": 12.5}), ("hod_params", {"alpha": 1.3}), ("hod_params", {}), ("hod_model", "Zehavi05"), ("hod_model", "Tinker05"), ("hod_model", "Zheng05"), ("hod_model", "Contreras13"), ("tracer_density", 1e-2), ("tracer_density", 2e-2),
    ("tracer_profile_model", "Einasto"), ("tracer_profile_model", "CoredNFW"), ("tracer_profile_model", "NFW"), ("tracer_profile_model", None), ("tracer_profile_params", {"alpha": 1.1}), ("tracer_profile_params", {}),
    ("tracer_concentration_model", "Duffy08"), ("tracer_concentration_model", "Bullock01Power"), ("tracer_concentration_model", None), ("tracer_concentration_params", {"norm": 1.5}), ("tracer_concentration_params", {}),
]
RR = np.array([0.2, 1.0, 10.0])
#: parameters halomod itself defines as dictionaries
OWN_DICTS = {
    "bias_params": [{}], "halo_profile_params": [{}], "halo_concentration_params": [{"norm": 1.2}], "sd_bias_params": [{"a": 1.2}], "colossus_params": [{"relspecies": True}], "exclusion_params": [{}],
    "hod_params": [{"alpha": 1.1}, {"M_1": 13.0, "M_min": 11.8}], "tracer_profile_params": [{}], "tracer_concentration_params": [{"norm": 1.1}],
}
SKIP = {"_growth_factor_fn", "parameter_values", "colossus_cosmo"}


def quantities(cls):
    return [n for n in sorted(dir(cls)) if n not in SKIP and isinstance(getattr(cls, n, None), property) and getattr(cls, n).fset is None]


def evaluate(m, names):
    """value of every named quantity: number / array / value of a callable at fixed arguments, or the type of exception it raises"""
    out = {}
    for q in names:
        try:
            v = getattr(m, q)
            if callable(v) and not isinstance(v, type):
                v = v(RR)
            v = np.array(v, dtype=float)
        except Exception as e:  # noqa: BLE001
            v = type(e).__name__
            if v in ("TypeError", "ValueError") and "float()" in str(e):
                v = "object"
        out[q] = v
    return out


def differs(a, b):
    """names whose values disagree"""
    bad = []
    for q in a:
        x, y = a[q], b[q]
        if isinstance(x, str) or isinstance(y, str):
            if not (isinstance(x, str) and isinstance(y, str) and x == y):
                bad.append(q)
        elif x.shape != y.shape:
            bad.append(q)
        else:
            fin = np.abs(y[np.isfinite(y)])
            if not np.allclose(x, y, rtol=1e-6, atol=1e-10 * (fin.max() if fin.size else 0.0), equal_nan=True):
                bad.append(q)
    return bad


def merge(st, k, v):
    """the documented meaning of an update: dictionaries are merged into the current one (an empty one clears it), anything else replaces"""
    st = dict(st)
    if isinstance(v, dict) and v:
        st[k] = {**(st.get(k) or {}), **v}
    else:
        st[k] = v
    if k == "tracer_density":
        st["hod_params"] = {a: b for a, b in (st.get("hod_params") or {}).items() if a != "M_min"}
    if k == "hod_params" and isinstance(v, dict) and "M_min" in v:
        st["tracer_density"] = None
    return st


def build(cls, st):
    return cls(**copy.deepcopy(st))


def history(rng, rec, cls, base, alts, steps, names, heavy=()):
    """random updates and reads on one model, then compare with a fresh model of the same parameters"""
    light = [q for q in names if q not in heavy]
    st = dict(base)
    m = build(cls, st)
    done = []
    for _ in range(steps):
        if rng.random() < 0.8:
            evaluate(m, light if rng.random() < 0.6 else list(rng.permutation(light)[: max(3, len(light) // 6)]))
        upd, st2 = {}, st
        for _ in range(1 if rng.random() < 0.6 else 2):
            k, v = alts[int(rng.integers(len(alts)))]
            if k in upd or ("tracer_density" in (k, *upd) and "hod_params" in (k, *upd)):
                continue
            upd[k] = v
            st2 = merge(st2, k, v)
        try:
            fresh = build(cls, st2)
            fresh.update()
        except Exception:  # not a valid set of parameters: nothing is claimed about it
            continue
        if any(isinstance(x, str) and x not in ("object", "NoneType") for x in evaluate(fresh, light).values()):
            continue
        st = st2
        done.append(upd)
        rec.rec(updates=repr(done))
        m.update(**copy.deepcopy(upd))
    rec.rec(cls=cls.__name__, updates=repr(done), first=repr({k: v for k, v in base.items() if BASE.get(k, 0) != v}))
    fresh = build(cls, st)
    order = list(rng.permutation(names))
    if rng.random() < 0.5:
        order = order[: max(5, len(order) // 3)]
    got, want = evaluate(m, order), evaluate(fresh, names)
    bad = differs(got, {q: want[q] for q in got})
    rec.ok(not bad, f"after the updates, {bad[:6]} differ from those of a model made with the same parameters ({done})")


def check(C):
    import halomod.cross_correlations as CC
    import halomod.halo_exclusion as HX
    import halomod.halo_model as HM
    import halomod.integrate_corr as IC
    import halomod.wdm as W

    F = "halomod.halo_model"
    DM, TR = HM.DMHaloModel, HM.TracerHaloModel
    C.assumptions += [
        "hmf's cache (external): a read returns the stored value unless a parameter registered when the quantity was first computed has changed since (or a switch among them, in which case the quantity is computed and registered again)",
        "hmf's own dictionary parameters (cosmo_params, hmf_params, mdef_params, ...) keep the caller's dictionary: not halomod code, not claimed",
        "frame conditions (no input is modified) are obligations of every symbolic execution of C01-C16; the colossus and astropy objects are immutable (assumed)",
    ]

    # ------------------------------------------------------------------ setters: a model owns its dictionaries
    x = scalar("x")
    for cls, name in [(DM, n) for n in ("bias_params", "halo_profile_params", "halo_concentration_params", "sd_bias_params", "colossus_params", "exclusion_params")] + [(TR, n) for n in ("hod_params", "tracer_profile_params", "tracer_concentration_params")] + [(CC.CrossCorrelations, "cross_hod_params")]:
        fn = next(k.__dict__[name] for k in cls.__mro__ if name in k.__dict__).fset.__wrapped__

        def run(fn=fn):
            d = {"a": x, "b": 2}
            r = fn(Mock(cls), d)
            return d, r, fn(Mock(cls), {}), fn(Mock(cls), None)

        C.prove(f"{cls.__module__}.{cls.__name__}.{name} (setter)", run, lambda v: {
            "the model keeps a dictionary of its own": tm.TRUE if v[1] is not v[0] else tm.FALSE,
            "with the contents given": tm.and_(tm.TRUE if list(v[1]) == ["a", "b"] and v[1]["b"] == 2 else tm.FALSE, eq(t(v[1]["a"]), t(x))),
            "the caller's dictionary is left as it was": tm.TRUE if v[0] == {"a": v[0]["a"], "b": 2} and v[0]["a"] is x else tm.FALSE,
            "nothing given means an empty dictionary": tm.TRUE if v[2] == {} and v[3] == {} else tm.FALSE,
        }, (), {}, f"{cls.__module__}.{cls.__name__}.{name}")

    # ------------------------------------------------------------------ reads clauses
    class Reads(Mock):
        """Mock with ghost state: the parameters and quantities read from self"""

        def __init__(self, cls, **given):
            super().__init__(cls, **given)
            object.__setattr__(self, "_log", set())

        def __getattr__(self, name):
            object.__getattribute__(self, "_log").add(name)
            return super().__getattr__(name)

    class Model:
        """a component model (class) of which only identity matters"""

        def __init__(self, name, has_lam=False):
            self.name, self.has_lam = name, has_lam

        def __call__(self, *a, **kw):
            o = Model(self.name + "()", self.has_lam)
            o.kw = kw
            return o

        def __eq__(self, o):
            return self is o

        __hash__ = object.__hash__

        def lam(self, *a, **k):
            return array("lam", NR, NM)

        bias_scale = lambda self: array("sdb", NR)  # noqa: E731

    #: parameters behind the quantities the functions below read (checked for those defined here by the same obligations)
    CM = {"halo_concentration_model", "halo_concentration_params", "halo_profile_model", "halo_profile_params", "z", "delta_c", "n", "sigma_8"}
    BEHIND = {
        "_r_table": {"dr_table"}, "k_hm": {"hm_logk_min", "hm_logk_max", "hm_dlog10k"}, "halo_concentration": CM, "halo_profile": CM, "cmz_relation": CM,
        "tracer_concentration": CM | {"tracer_concentration_model", "tracer_concentration_params", "tracer_profile_model", "tracer_profile_params"},
    }
    BEHIND["tracer_profile"] = BEHIND["tracer_cmz_relation"] = BEHIND["tracer_concentration"]
    params = {n for n in dir(W.ProjectedCFWDM) if isinstance(getattr(W.ProjectedCFWDM, n, None), property) and getattr(W.ProjectedCFWDM, n).fset is not None}
    switches = {"hc_spectrum", "rmin", "sd_bias_model", "force_1halo_turnover", "force_unity_dm_bias", "disable_mass_conversion", "takahashi", "alter_model"}

    def behind(log):
        out = set()
        for n in log:
            if n in params:
                out.add(n)
            out |= BEHIND.get(n, set())
        return out

    A_, B_, NOL = Model("A", True), Model("B", True), Model("C", False)
    base = dict(halo_profile_model=A_, halo_profile_params={}, halo_concentration_model=A_, halo_concentration_params={}, mdef=None, z=x, nu_fn=None, cosmo=None, growth=None, delta_c=x, sigma_8=x, n=x,
                _power0=None, filter=Model("f"), halo_concentration=A_, halo_profile=A_, tracer_concentration=A_)

    def variants(**kw):
        import itertools

        ks = list(kw)
        return [dict(base, **dict(zip(ks, vs))) for vs in itertools.product(*kw.values())]

    tvar = variants(tracer_concentration_model=[None, A_, B_], tracer_profile_model=[None, A_, B_], tracer_concentration_params=[{}, {"a": 1}], tracer_profile_params=[{}, {"b": 1}])
    lamv = [dict(halo_profile=p, tracer_profile=p, m=array("m", NM, sign="+"), _r_table=array("rt", NR, sign="+"), cmz_relation=x, tracer_cmz_relation=x) for p in (A_, NOL)]
    cases = [
        (TR, "tracer_concentration", tvar),
        (TR, "tracer_profile", tvar),
        (DM, "halo_profile_lam", lamv),
        (TR, "tracer_profile_lam", lamv),
        (DM, "r", [dict(rmin=scalar("rmin", "+"), rmax=scalar("rmax", "+"), rnum=NR, rlog=v) for v in (True, False)]),
    ]

    def reads_of(cls, name, given):
        s = Reads(cls, **given)
        with sym.session([HM, IC, W], {"identity": [(HM.Cosmology, lambda *a, **k: None)]}), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            raw(cls, name)(s)
        return behind(object.__getattribute__(s, "_log"))

    for cls, name, givens in cases:
        def run(cls=cls, name=name, givens=givens):
            return [reads_of(cls, name, g) for g in givens]

        def post(sets):
            every = set().union(*sets) - switches
            return {f"reads {p} whatever the other parameters": tm.TRUE if all(p in s for s in sets) else tm.FALSE for p in sorted(every)} | {"depends on some parameter": tm.TRUE if every else tm.FALSE}

        C.prove(f"{F}.{cls.__name__}.{name} reads", run, post, (), {}, f"{F}.{cls.__name__}.{name}")

    # quantities that turn into others (analytic / Fourier route) read the parameter of the other route too
    for cls, name, given in [
        (DM, "corr_1h_auto_matter_fnc", dict(halo_profile=A_, halo_profile_lam=array("lam", NR, NM), dndm=array("dn", NM), m=array("m", NM, sign="+"), dlog10m=x, mean_density0=scalar("rho0", "+"), _r_table=array("rt", NR, sign="+"))),
    ]:
        def run(cls=cls, name=name, given=given):
            s = Reads(cls, **given)
            with sym.session([HM], {}):
                class Ext:
                    def __init__(self, *a, **k):
                        pass

                old, HM.tools.ExtendedSpline = HM.tools.ExtendedSpline, Ext
                try:
                    raw(cls, name)(s)
                finally:
                    HM.tools.ExtendedSpline = old
            return object.__getattribute__(s, "_log")

        C.prove(f"{F}.{cls.__name__}.{name} reads", run, lambda log: {"reads force_1halo_turnover on the route that does not use it": tm.TRUE if "force_1halo_turnover" in log else tm.FALSE}, (), {}, f"{F}.{cls.__name__}.{name}")

    # ------------------------------------------------------------------ the bookkeeping repair keeps the two indices consistent
    class Box:
        _dm = True

    def reindex():
        o = Box()
        pre = "_Box__"
        setattr(o, pre + "recalc_prop_par", {"kept": {"p"}, "new": set()})
        setattr(o, pre + "recalc", {"kept": False, "new": True, "dropped": True, "dropped2": False})
        setattr(o, pre + "recalc_par_prop", {"p": {"kept", "dropped"}, "q": {"dropped2"}, "s": set()})
        DM._reindex_dropped_quantities(o)
        return getattr(o, pre + "recalc_prop_par"), getattr(o, pre + "recalc"), getattr(o, pre + "recalc_par_prop")

    if hasattr(DM, "_reindex_dropped_quantities"):
        C.prove(f"{F}.DMHaloModel._reindex_dropped_quantities", reindex, lambda v: {
            "indexed quantities keep their state": tm.TRUE if v[1] == {"kept": False, "new": True} and v[0] == {"kept": {"p"}, "new": set()} else tm.FALSE,
            "no parameter refers to a dropped quantity": tm.TRUE if v[2] == {"p": {"kept"}, "q": set(), "s": set()} else tm.FALSE,
        }, (), {}, f"{F}.DMHaloModel._reindex_dropped_quantities")

    # ------------------------------------------------------------------ bounded histories
    deep = C.tier != "quick"
    q_tr, q_dm = quantities(TR), quantities(DM)
    BASES = [
        BASE, dict(BASE, sd_bias_model="TinkerSD05"), dict(BASE, exclusion_model="Sphere", halo_profile_model="Hernquist", hod_model="Zheng05"), dict(BASE, hod_model="Tinker05", rmin=[0.3, 1.0, 5.0]),
        dict(BASE, tracer_profile_model="CoredNFW", tracer_concentration_model="Duffy08", halo_concentration_model="Bullock01Power", force_unity_dm_bias=False, force_1halo_turnover=False, hc_spectrum="nonlinear"),
        dict(BASE, tracer_density=1.2e-2, tracer_profile_model="Einasto", halo_profile_model="Einasto", halo_profile_params={"alpha": 1.2}),
    ]
    HEAVY = ("how_big",)

    def h_tracer(rng, i, rec):
        history(rng, rec, TR, BASES[i % len(BASES)], DM_ALT + 2 * TR_ALT, int(rng.integers(2, 5)), q_tr, HEAVY)

    def h_matter(rng, i, rec):
        b = [{k: v for k, v in B.items() if k not in ("hod_model", "tracer_density", "tracer_profile_model", "tracer_concentration_model")} for B in BASES][i % len(BASES)]
        history(rng, rec, DM, b, DM_ALT, int(rng.integers(2, 5)), q_dm, HEAVY)

    C.case("tracer model histories", h_tracer, 600 if deep else 36, "random sequences of single and joint updates with reads in between on a TracerHaloModel; every quantity compared with a freshly made model", jobs=8)
    C.case("matter model histories", h_matter, 200 if deep else 12, "the same on DMHaloModel", jobs=8)

    P_ALT = [("rp_min", 0.2), ("rp_min", [0.2, 1.0, 4.0]), ("rp_max", 20.0), ("rp_num", 4), ("rp_log", False), ("proj_limit", 60.0), ("proj_limit", None), ("z", 0.5), ("hod_params", {"M_min": 12.3}), ("sigma_8", 0.75), ("hod_model", "Tinker05"), ("tracer_profile_model", "Einasto"), ("hc_spectrum", "nonlinear"), ("rmin", 0.3)]

    def h_proj(rng, i, rec):
        history(rng, rec, IC.ProjectedCF, dict(BASE, rp_min=0.3, rp_max=15.0, rp_num=3, rmax=80.0, rnum=20), P_ALT, int(rng.integers(2, 4)), ["projected_corr_gal", "rp", "rlim", "r", "corr_auto_tracer", "mean_tracer_den"])

    C.case("projected model histories", h_proj, 60 if deep else 8, "the same on ProjectedCF", jobs=8)

    def flat(z):
        return np.ones_like(z)

    A_ALT = [("theta_min", 0.002), ("theta_max", 0.05), ("theta_num", 4), ("theta_log", False), ("zmin", 0.25), ("zmax", 0.5), ("znum", 12), ("logu_min", -3), ("logu_max", 1.5), ("unum", 20), ("z", 0.3), ("hod_params", {"M_min": 12.3}), ("sigma_8", 0.75), ("p1", flat), ("hc_spectrum", "nonlinear"), ("check_p_norm", False), ("tracer_profile_model", "Einasto")]

    def h_ang(rng, i, rec):
        history(rng, rec, IC.AngularCF, dict(BASE, theta_min=0.003, theta_max=0.03, theta_num=3, zmin=0.2, zmax=0.4, znum=10, logu_min=-2, logu_max=1.2, unum=15, check_p_norm=False), A_ALT, int(rng.integers(2, 4)), ["theta", "angular_corr_gal", "zvec", "uvec", "xvec", "corr_auto_tracer", "mean_tracer_den"])

    C.case("angular model histories", h_ang, 60 if deep else 8, "the same on AngularCF", jobs=8)

    W_ALT = [("wdm_mass", 1.0), ("wdm_mass", 5.0), ("z", 1.0), ("sigma_8", 0.75), ("hod_params", {"M_min": 12.3}), ("halo_concentration_model", "Duffy08WDM"), ("tracer_concentration_model", "Duffy08WDM"), ("halo_profile_model", "Einasto"), ("bias_model", "SMT01"), ("hc_spectrum", "nonlinear"), ("force_unity_dm_bias", False)]
    q_w = ["f_halos", "mean_density_smooth", "mean_density_halos", "bias_smooth", "power_auto_matter", "power_auto_matter_cs", "power_auto_matter_ss", "cmz_relation", "tracer_cmz_relation", "dndm", "power_auto_tracer", "corr_auto_tracer", "mean_tracer_den"]

    def h_wdm(rng, i, rec):
        history(rng, rec, W.TracerHaloModelWDM, dict(BASE, wdm_mass=2.0, halo_concentration_model="Duffy08"), W_ALT, int(rng.integers(2, 4)), q_w)

    C.case("warm dark matter histories", h_wdm, 60 if deep else 6, "the same on TracerHaloModelWDM", jobs=8)

    X_ALT = [("z", 0.5), ("hod_params", {"M_min": 12.3}), ("hod_params", {"alpha": 1.2}), ("sigma_8", 0.75), ("hod_model", "Zheng05"), ("tracer_profile_model", "Einasto"), ("tracer_profile_params", {"alpha": 1.1}), ("bias_model", "SMT01"), ("n", 0.93), ("tracer_concentration_model", "Bullock01Power")]
    q_x = ["power_1h_cross", "power_2h_cross", "power_cross", "corr_1h_cross", "corr_2h_cross", "corr_cross"]

    def h_cross(rng, i, rec):
        rec.rec(cls="CrossCorrelations")
        s1, s2, xp = dict(BASE), dict(BASE, hod_params={"M_min": 12.0}), {"R_ss": 0.2, "R_cs": 0.1, "R_sc": 0.3}

        def mk():
            return CC.CrossCorrelations(cross_hod_model="ConstantCorr", cross_hod_params=dict(xp), halo_model_1_params=copy.deepcopy(s1), halo_model_2_params=copy.deepcopy(s2))

        c = mk()
        done = []
        for _ in range(int(rng.integers(1, 4))):
            evaluate(c, q_x if rng.random() < 0.7 else list(rng.permutation(q_x)[:2]))
            k, v = pick(rng, X_ALT)
            which = int(rng.integers(3))
            if k in ("z", "sigma_8", "n") or which == 0:
                n1, n2 = merge(s1, k, v), merge(s2, k, v)
            else:
                n1, n2 = (merge(s1, k, v), s2) if which == 1 else (s1, merge(s2, k, v))
            try:
                build(TR, n1), build(TR, n2)
                if any(isinstance(y, str) for n in (n1, n2) for y in evaluate(build(TR, n), ["power_auto_tracer", "corr_auto_tracer"]).values()):
                    continue
            except Exception:  # noqa: BLE001
                continue
            done.append((which, k, v))
            rec.rec(updates=repr(done))
            if n1 is not s1:
                c.update(halo_model_1_params={k: copy.deepcopy(v)})
            if n2 is not s2:
                c.update(halo_model_2_params={k: copy.deepcopy(v)})
            s1, s2 = n1, n2
            if rng.random() < 0.3:
                xp["R_ss"] = float(rng.uniform(0, 1))
                c.update(cross_hod_params={"R_ss": xp["R_ss"]})
                done.append(("R_ss", xp["R_ss"]))
                rec.rec(updates=repr(done))
        bad = differs(evaluate(c, q_x), evaluate(mk(), q_x))
        rec.ok(not bad, f"after the updates, {bad} differ from those of cross-correlations made with the same parameters ({done})")

    C.case("cross-correlation histories", h_cross, 60 if deep else 8, "updates of either tracer of CrossCorrelations, compared with a fresh object", jobs=8)

    def option(rng, i, rec):
        k, v = [("hc_spectrum", "nonlinear"), ("rmin", 0.3)][i]
        rec.rec(switch=k)
        st = dict(BASE)
        c = CC.CrossCorrelations(cross_hod_model="ConstantCorr", halo_model_1_params=dict(st), halo_model_2_params=dict(st))
        evaluate(c, q_x)
        try:
            c.update(halo_model_1_params={k: v}, halo_model_2_params={k: v})
        except AttributeError as e:
            rec.ok(False, f"updating an option (switch) of a tracer after reading a cross quantity raises AttributeError ({e})")
        d = CC.CrossCorrelations(cross_hod_model="ConstantCorr", halo_model_1_params=dict(st, **{k: v}), halo_model_2_params=dict(st, **{k: v}))
        bad = differs(evaluate(c, q_x), evaluate(d, q_x))
        rec.ok(not bad, f"after changing {k} of both tracers, {bad} are those of the old value")

    C.case("cross-correlation options", option, 2, "an option (switch) of both tracers updated after the cross quantities have been read")

    # ------------------------------------------------------------------ bounded: every dependence is registered
    def index(m):
        return {k: set(v) for k, v in getattr(m, f"_{type(m).__name__}__recalc_prop_par").items()}

    ALT_BY = {}
    for k, v in DM_ALT + TR_ALT:
        ALT_BY.setdefault(k, []).append(v)
    ALT_BY.update(lnk_min=[-5.5], lnk_max=[4.5], dlnk=[0.25], growth_params=[{}], transfer_params=[{}], cosmo_model=["WMAP7"], exclusion_params=[{}], filter_params=[{}], hmf_params=[{}])
    singles = [(b, a) for b in range(len(BASES)) for a in DM_ALT + TR_ALT]

    def dep(rng, i, rec):
        bi, (k, v) = singles[i] if deep else singles[int(rng.integers(len(singles)))]
        B = BASES[bi]
        st = merge(B, k, v)
        rec.rec(base=bi, update=repr({k: v}))
        try:
            f = build(TR, st)
            vf = evaluate(f, q_tr)
        except Exception:  # noqa: BLE001
            return
        if any(isinstance(y, str) and y != "object" for y in vf.values()):
            return
        m = build(TR, B)
        evaluate(m, q_tr)
        m.update(**{k: copy.deepcopy(v)})
        evaluate(m, q_tr)
        i1, i2 = index(m), index(f)
        missing = sorted({p for q in i2 if q in i1 for p in i2[q] - i1[q]})
        for p in missing:  # a dependence that was not registered: does it make a value stale?
            for w in ALT_BY.get(p, []):
                st3 = merge(st, p, w)
                try:
                    f3 = evaluate(build(TR, st3), q_tr)
                except Exception:  # noqa: BLE001
                    continue
                if any(isinstance(y, str) and y != "object" for y in f3.values()):
                    continue
                m3 = build(TR, B)
                evaluate(m3, q_tr)
                m3.update(**{k: copy.deepcopy(v)})
                evaluate(m3, q_tr)
                m3.update(**{p: copy.deepcopy(w)})
                bad = differs(evaluate(m3, q_tr), f3)
                rec.rec(then=repr({p: w}))
                rec.ok(not bad, f"{bad[:6]} do not follow {p} once {k}={v!r} has been set")

    C.case("dependences registered", dep, len(singles) if deep else 24, "after an update, every parameter a fresh model registers as a dependence is registered (or changing it is shown to make no difference)", jobs=8)

    # ------------------------------------------------------------------ bounded: reading is harmless
    def order(rng, i, rec):
        cls, names = (TR, q_tr) if i % 3 else (DM, q_dm)
        b = BASES[i % len(BASES)] if cls is TR else BASE
        names = [q for q in names if q not in HEAVY]
        o1, o2 = list(rng.permutation(names)), list(rng.permutation(names))
        rec.rec(cls=cls.__name__, base=i % len(BASES), order=repr(o1[:5]))
        m1, m2 = build(cls, b), build(cls, b)
        v1, v2 = evaluate(m1, o1), evaluate(m2, o2)
        bad = differs(v1, {q: v2[q] for q in v1})
        rec.ok(not bad, f"{bad[:6]} depend on the order in which quantities are read")
        again = evaluate(m1, o1)
        bad = differs(again, v1)
        rec.ok(not bad, f"{bad[:6]} changed by reading other quantities")
        before = {p: copy.deepcopy(getattr(build(cls, b), p)) for p in ("hod_params", "halo_profile_params", "halo_concentration_params", "rmin", "z") if hasattr(cls, p)}
        rec.ok(all(repr(getattr(m1, p)) == repr(x) for p, x in before.items()), "a parameter is changed by reading quantities")

    C.case("order of reading", order, 40 if deep else 8, "two models with the same parameters read in different orders; values read again at the end", jobs=8)

    def owned(rng, i, rec):
        d = {k: copy.deepcopy(pick(rng, v)) for k, v in OWN_DICTS.items()}
        r = [0.3, 1.0, 5.0] if i % 2 else np.array([0.3, 1.0, 5.0])
        keep = copy.deepcopy(d)
        rec.rec(dicts=repr(d), rmin=repr(r))
        base_ = dict(BASE, rmin=r, halo_profile_model="Einasto", sd_bias_model="TinkerSD05", tracer_profile_model="Einasto", tracer_concentration_model="Duffy08")
        a = TR(**base_, **d)
        o = TR(**base_, **d)
        q = ["mean_tracer_den", "corr_auto_tracer", "power_auto_tracer", "tracer_cmz_relation", "cmz_relation", "halo_profile_ukm"]
        first = evaluate(o, q[:3] if i % 2 else q)
        rec.ok(d == keep, "making a model changes the caller's dictionaries")
        for k, v in [("hod_params", {"M_min": 12.4}), ("halo_concentration_params", {"norm": 1.6}), ("sd_bias_params", {"a": 1.5}), ("tracer_concentration_params", {"norm": 1.9}), ("halo_profile_params", {"alpha": 0.21}), ("tracer_profile_params", {"alpha": 0.15})]:
            u = copy.deepcopy(v)
            a.update(**{k: u})
            rec.ok(u == v, f"update changes the caller's {k}")
        if i % 3 == 0:
            a.update(tracer_density=1.5e-2)
        a.rmin  # noqa: B018
        evaluate(a, q)
        rec.ok(d == keep, f"updating a model changes the dictionaries it was made from: {[k for k in d if d[k] != keep[k]]}")
        rec.ok(np.array_equal(r, [0.3, 1.0, 5.0]), "the caller's scales are changed")
        bad = differs(evaluate(o, list(first)), first)
        rec.ok(not bad, f"updating one model changes {bad} of another made from the same dictionaries")
        fresh = evaluate(TR(**base_, **copy.deepcopy(keep)), q)
        bad = differs(evaluate(o, q), fresh)
        rec.ok(not bad, f"updating one model changes {bad} of another made from the same dictionaries")

    C.case("models own their parameters", owned, 30 if deep else 8, "two models from the same dictionaries, one updated: the dictionaries and the other model stay as they were", jobs=8)

    def clone(rng, i, rec):
        b = BASES[i % len(BASES)]
        m = build(TR, b)
        names = [q for q in q_tr if q not in HEAVY]
        if i % 2:
            evaluate(m, names)
        k, v = pick(rng, [("z", 1.0), ("hod_params", {"M_min": 12.4}), ("sigma_8", 0.7), ("Mmin", 10.5), ("tracer_profile_model", "Einasto"), ("hc_spectrum", "nonlinear")])
        rec.rec(base=i % len(BASES), update=repr({k: v}), read_before=bool(i % 2))
        c = m.clone(**{k: copy.deepcopy(v)})
        evaluate(c, names)
        bad = differs(evaluate(m, names), evaluate(build(TR, b), names))
        rec.ok(not bad, f"updating a clone changes {bad[:6]} of the original")
        bad = differs(evaluate(c, names), evaluate(build(TR, merge(b, k, v)), names))
        rec.ok(not bad, f"{bad[:6]} of a clone differ from a fresh model")

    C.case("clones", clone, 24 if deep else 6, "clone(update) against fresh models; the original is unaffected", jobs=8)
