"""C11 -- populating halos conserves the bookkeeping: counts, owners, positions and means follow the occupation and the profile."""

from __future__ import annotations

import warnings

import numpy as np

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import S, array, elem, scalar
from pyvc.terms import Unsupported

from .common import *
from .hodspec import SPEC, draw
from .profspec import CM, SHAPES, gen_params, msum


class _Late:
    """stand-in looked up when used"""

    def __init__(self, f):
        self.f = f

    def __getattr__(self, n):
        return getattr(self.f(), n)


def check(C):
    import halomod.hod as H
    import halomod.profiles as P
    import halomod.tools as T
    from astropy.cosmology import Planck15
    from hmf.halos.mass_definitions import SOMean

    C.assumptions += [
        "numpy's generators draw independent uniform, normal and binomial variates and scipy.stats.poisson Poisson ones (external contract; their outcomes are recorded)",
        "the spline through (F(x_i), x_i) is the inverse of F (interpolation error not modelled in the proof; bounded at run time by a Kolmogorov-Smirnov test against the published shapes)",
        "Moore profiles are left out of the radial test: their enclosed mass is a recorded finding of C07",
        "box edges: displacements from a box face are less than one box length",
    ]

    # ------------------------------------------------------------ Profile.populate under contract
    NT = tm.var("nt", "i", "+")
    NG = tm.var("ng", "i", "+")
    m, c, rs = scalar("m", "+"), scalar("c", "+"), scalar("rs", "+")
    seen = {}

    class Rng:
        """contract of a numpy Generator: every draw is a fresh arbitrary array"""

        n = 0

        def _fresh(self, name, size, sign):
            Rng.n += 1
            dims = sym.norm_shape(size)
            # elements are named by tracer (and by direction, for vectors), however the draw is laid out
            keep = [d for d, q in enumerate(dims) if q is not tm.ONE]
            if len(keep) == 2 and dims[keep[1]] is tm.num(3) and dims[keep[0]] is not tm.num(3):
                keep.reverse()
            nm = f"{name}{Rng.n}"
            return sym.A(dims, lambda idx: tm.app(nm, sign, *[idx[d] for d in keep])).copy()

        def uniform(self, low=0.0, high=1.0, size=None):
            if (low, high) != (0.0, 1.0):
                raise Unsupported("uniform draws in another range")
            return self._fresh("U", size, "0+")

        def random(self, size=None):
            return self._fresh("U", size, "0+")

        def normal(self, loc=0.0, scale=1.0, size=None):
            if (loc, scale) != (0.0, 1.0):
                raise Unsupported("normal draws with other moments")
            return self._fresh("G", size, "")

        def standard_normal(self, size=None):
            return self._fresh("G", size, "")

    class Inverse:
        """contract of an interpolating spline through (F(x_i), x_i): the inverse of F"""

        def __init__(self, f, x, *a, **k):
            f, x = sym.lift(f), sym.lift(x)
            if not (isinstance(f, sym.A) and isinstance(x, sym.A)) or not tm.equal(elem(f, I), t(ap("F", elem(x, I), t(seen["c"]), sign="0+"))):
                raise Unsupported("interpolates something other than radius as a function of enclosed mass")

        def __call__(self, q):
            return uf("Finv", "0+")(q, seen["c"])

    def mock(inf):
        def variables(r, mm, cc=None, coord="r"):
            cc = ap("crel", t(mm), sign="+") if cc is None else cc
            seen.update(c=cc, m=mm, coord=coord, r=sym.lift(r).copy())
            return cc, ap("rs", t(mm), t(cc), sign="+"), array("xg", NG, sign="0+")

        def cdf(r, c=None, m=None, coord="x"):
            seen.update(cdf=(c, coord))
            return uf("F", "0+")(r, c)

        return Mock(P.ProfileInf if inf else P.Profile, _get_r_variables=variables, cdf=cdf)

    F = "halomod.profiles.Profile.populate"
    from scipy.interpolate import InterpolatedUnivariateSpline as IUS

    ctr = array("ctr", 3)

    def run(conc, centre):
        seen.clear()
        Rng.n = 0
        kw = {}
        if conc:
            kw["c"] = c
        if centre:
            kw["centre"] = ctr
        return raw(P.Profile, "populate")(mock(False), S(NT, "i"), m, rng=Rng(), **kw)

    def post(r, conc, centre):
        cc = t(c) if conc else t(ap("crel", t(m), sign="+"))
        d = [tm.sub(elem(r, J, tm.num(k)), tm.app("ctr", "", tm.num(k)) if centre else tm.ZERO) for k in range(3)]
        d2 = tm.add(tm.add(tm.mul(d[0], d[0]), tm.mul(d[1], d[1])), tm.mul(d[2], d[2]))
        us = [tm.app(f"U{k}", "0+", J) for k in (1, 2)]
        gs = [[tm.app(f"G{k}", "", tm.num(q), J) for q in range(3)] for k in (1, 2)]
        rad = lambda u: tm.mul(tm.app("rs", "+", t(m), cc), tm.app("Finv", "0+", u, cc))
        dist = tm.or_(*[tm.eq(d2, tm.pow_(rad(u), tm.num(2))) for u in us])
        rr = seen["r"]
        return {
            "one position per tracer": shape_is(r, S(NT, "i"), 3),
            "distance from the centre is the radius enclosing a uniform fraction of the mass": dist,
            "direction is that of an isotropic vector": tm.or_(*[tm.and_(*[tm.eq(tm.mul(d[a], g[b_]), tm.mul(d[b_], g[a])) for a, b_ in ((0, 1), (0, 2), (1, 2))]) for g in gs]),
            "enclosed mass tabulated from the centre to the virial radius": tm.and_(*TF({"s": seen["coord"] == "s"}).values(), tm.eq(elem(rr, tm.ZERO), tm.ZERO), tm.eq(elem(rr, tm.sub(rr.shape_t[0], tm.ONE)), tm.ONE)),
        }

    for conc in (False, True):
        for centre in (False, True):
            nm = f"{F} ({'given' if conc else 'default'} concentration, {'given' if centre else 'default'} centre)"
            nz = tm.lt(tm.ZERO, tm.add(tm.add(*[tm.mul(tm.app("G2", "", tm.num(q), J), tm.app("G2", "", tm.num(q), J)) for q in range(2)]), tm.mul(tm.app("G2", "", tm.num(2), J), tm.app("G2", "", tm.num(2), J))))
            C.prove(nm, lambda a=conc, b_=centre: run(a, b_), lambda r, a=conc, b_=centre: post(r, a, b_), [tm.lt(J, NT), nz], {"nt": (2, 4), "ng": (4, 6), "U1": (0, 1), "G1": (-1, 1), "G2": (-1, 1), "crel": (2, 9), "rs": (0.1, 1), "Finv": (0, 5), "F": (0, 1)}, F, extra={"identity": [(IUS, Inverse)]})

    # ------------------------------------------------------------ tools.populate under contract: any number of halos
    from scipy.stats import poisson

    NH = tm.var("nh", "i", "+")
    FT = "halomod.tools.populate"
    has = lambda i: tm.mk("bapp", "has", i)
    GAL = lambda n, mm, cc, row, col: tm.app("gal", "", n, mm, *cc, row, col)
    NC, NS = uf("nc", "+"), uf("ns", "0+")
    box = scalar("L", "+")
    lo3, hi3 = array("lo", 3), array("hi", 3)
    edges = {"none": None, "a length": box, "two limits": (scalar("e0"), scalar("e1")), "a prism": None}

    def limits(nm):
        """-> lower and upper limit along one axis"""
        if nm == "a length":
            return lambda k: (tm.ZERO, t(box))
        if nm == "two limits":
            return lambda k: (t(edges[nm][0]), t(edges[nm][1]))
        return lambda k: (tm.app("lo", "", k), tm.app("hi", "", k))

    def run_cat(central, nm):
        rec = {}
        pm, pc = array("M", NH, sign="+"), array("X", NH, 3)

        class Draws:
            """contracts of the generators: 0 or 1, and any number, per halo; what they are asked for is recorded"""

            def binomial(self, n, p, size=None):
                if n != 1:
                    raise Unsupported("binomial of other than one trial")
                rec["pc"] = sym.lift(p)
                return sym.A(rec["pc"].shape_t, lambda ix: tm.ite(has(ix[0]), tm.ONE, tm.ZERO), "i")

            def poisson(self, lam, size=None):
                rec["ms"] = mu = sym.lift(lam)
                if size is not None and not sym.same_dim(sym.norm_shape(size)[0], mu.shape_t[0]):
                    raise Unsupported("draws of another shape than the means")
                return sym.A(mu.shape_t, lambda ix: tm.app("sg", "0+", ix[0]), "i")

        class Pois:
            @staticmethod
            def rvs(mu, size=None, random_state=None, **kw):
                if kw or not isinstance(random_state, Draws):
                    raise Unsupported("Poisson draws")
                return random_state.poisson(mu, size)

        run_cat.pois = Pois

        class Prof:
            def populate(self, n, mm, c=None, centre=None, rng=None):
                if c is not None or centre is None or not isinstance(rng, Draws):
                    raise Unsupported("profile asked otherwise")
                cc = [t(sym.lift(centre)[k]) for k in range(3)]
                return sym.A((t(n), tm.num(3)), lambda ix: GAL(t(n), t(mm), cc, ix[0], ix[1]))

        class Hod:
            _central = central
            nc = central_occupation = staticmethod(NC)
            ns = satellite_occupation = staticmethod(NS)

        ed = edges[nm] if nm != "a prism" else sym.stack_list([lo3, hi3])
        out = raw(T, "populate") if not callable(getattr(T, "populate", None)) else T.populate
        return out(pc, pm, profile=Prof(), hodmod=Hod(), edges=ed, rng=Draws()), rec

    def post_cat(v, central, nm):
        (pos, own, nc), rec = v
        Mi, Xi = (lambda i: tm.app("M", "+", i)), (lambda i, k: tm.app("X", "", i, k))
        cs = sym.selection(sym.A((NH,), lambda ix: has(ix[0]), "b"))
        n1 = cs.count if central else NH  # halos that may have satellites
        halo = cs.at if central else (lambda j: j)
        ss = sym.selection(sym.A((n1,), lambda ix: tm.lt(tm.ZERO, tm.app("sg", "0+", ix[0])), "b"))
        num = lambda g: tm.app("sg", "0+", ss.at(g))

        def off(g):
            b_ = sym.bvar()
            return tm.red("sum", b_, g, num(b_))

        gr = sym.group(ss.count, off)
        b_ = sym.bvar()
        nsat = tm.red("sum", b_, n1, tm.app("sg", "0+", b_))
        k = tm.num(1)

        def wrapped(x, k):
            if nm == "none":
                return x
            a, e = limits(nm)(k)
            x = tm.ite(tm.lt(x, a), tm.add(e, tm.sub(x, a)), x)
            return tm.ite(tm.lt(e, x), tm.add(a, tm.sub(x, e)), x)

        r = tm.var("r", "i", "0+")  # a satellite
        g = gr.at(r)
        host = halo(ss.at(g))
        out = {
            "number of tracers, owners and centrals": tm.and_(tm.eq(t(nc), cs.count), shape_is(own, S(tm.add(cs.count, nsat), "i")), shape_is(pos, S(tm.add(cs.count, nsat), "i"), 3)),
            "probability of a central is its occupation": tm.eq(elem(rec["pc"], I), t(NC(S(Mi(I))))),
            "centrals are owned by the halos drawn, in order": ([tm.lt(I, cs.count)], tm.eq(elem(own, I), cs.at(I))),
            "a satellite is owned by the halo it was drawn for": ([tm.lt(r, nsat)], tm.eq(elem(own, tm.add(cs.count, r)), host)),
        }
        j = tm.var("jh", "i", "0+")
        mm = S(Mi(halo(j)))
        mean = NS(mm) / NC(mm) if central else NS(mm)
        out["mean number of satellites of a halo that may have them"] = ([tm.lt(j, n1)], tm.and_(shape_is(rec["ms"], S(n1, "i")), tm.eq(elem(rec["ms"], j), t(mean))))
        for k_ in range(3):
            k = tm.num(k_)
            out[f"a central sits at the centre of its halo ({'xyz'[k_]})"] = ([tm.lt(I, cs.count)], tm.eq(elem(pos, I, k), wrapped(Xi(cs.at(I), k), k)))
            out[f"a satellite is one of those its halo's profile was asked for ({'xyz'[k_]})"] = ([tm.lt(r, nsat)], tm.eq(elem(pos, tm.add(cs.count, r), k), wrapped(GAL(num(g), Mi(host), [Xi(host, tm.num(q)) for q in range(3)], tm.sub(r, off(g)), k), k)))
        return out

    for central in (True, False):
        for nm in edges:
            hy = [tm.lt(I, NH)]
            if nm != "none":
                for k_ in range(3):
                    a_, e_ = limits(nm)(tm.num(k_))
                    hy.append(tm.lt(a_, e_))
            C.prove(f"{FT} (satellites {'only with' if central else 'also without'} a central, box: {nm})", lambda a=central, b_=nm: run_cat(a, b_), lambda v, a=central, b_=nm: post_cat(v, a, b_), hy, {"nh": (2, 5), "L": (50, 100), "sg": lambda rng, idx, env: rng.choice([0, 0, 1, 2]), "X": (0, 50), "gal": (-20, 70), "M": (1, 9), "e0": (-30, 0), "e1": (30, 80), "lo": (-30, 0), "hi": (30, 80), "nc": (0.1, 1), "ns": (0, 2), "r": (0, 4), "jh": (0, 4)}, FT, extra={"compact": True, "identity": [(poisson, _Late(lambda: run_cat.pois))]})

    # ------------------------------------------------------------ bounded run-time oracles
    VAR = [n for n in SPEC if not SPEC[n].get("bulk") and not SPEC[n].get("mass")]
    PROFS = [n for n in SHAPES if not n.startswith("Moore") and n != "PowerLawWithExpCut"]
    MD = SOMean()

    def prof(rg, name):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return getattr(P, name)(CM(7.0), mdef=MD, z=0.0, cosmo=Planck15, nu_fn=lambda m: np.ones_like(m), **gen_params(rg, name))

    def halos(rg, p, n, box):
        """masses around the cut-offs of the occupation (including none, one, or all halos populated) and centres in the box"""
        mm = 10 ** rg.uniform(10.0, 15.3, n)
        for k in ("M_min", "M_max"):
            if k in p and n > 3:
                mm[int(rg.integers(n))] = 10 ** p[k]
        return mm, rg.uniform(0, box, (n, 3))

    def hod(rg, name, central):
        p = draw(rg, SPEC[name]["params"])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            h = getattr(H, name)(central=central, cosmo=Planck15, **p)
        # (some published parametrisations exceed one central per halo for extreme parameters: not a catalogue)
        return (h, p) if np.all(np.asarray(h.nc(10 ** np.linspace(9.5, 16.5, 1401))) <= 1) else hod(rg, name, central)

    def rad(m):
        return (3 * m / (4 * np.pi * MD.halo_overdensity_mean(0, Planck15) * MD.mean_density(0, Planck15))) ** (1 / 3)

    def book(rg, i, rc):
        name, central = VAR[i % len(VAR)], bool((i // len(VAR)) % 2)
        h, p = hod(rg, name, central)
        pr = prof(rg, PROFS[int(rg.integers(len(PROFS)))])
        n = int(pick(rg, [1, 2, 3, 10, 60]))
        M, X = halos(rg, p, n, 1000.0)
        if rg.random() < 0.15:
            M[:] = 10**9.5
        seed = int(rg.integers(2**31))
        rc.rec(hod=name, central=central, params=p, profile=type(pr).__name__, masses=M, centres=X, seed=seed)
        M0, X0 = M.copy(), X.copy()
        pos, own, nc = T.populate(X, M, profile=pr, hodmod=h, rng=np.random.default_rng(seed))
        rc.ok(np.array_equal(M, M0) and np.array_equal(X, X0), "the catalogue of halos is left unmodified")
        rc.ok(pos.shape == (len(own), 3) and own.ndim == 1 and np.issubdtype(own.dtype, np.integer) and 0 <= nc <= len(own), "one position and one owner per tracer")
        rc.ok(np.all((own >= 0) & (own < n)), "owners are halos of the catalogue")
        cen, sat = own[:nc], own[nc:]
        rc.ok(len(set(cen.tolist())) == nc, "at most one central per halo")
        rc.ok(np.array_equal(pos[:nc], X[cen]), "centrals sit at the centres of their halos")
        occ = np.asarray(h.nc(M), float)
        ns = np.asarray(h.ns(M), float)
        rc.ok(np.all(occ[cen] > 0), "no central in a halo that has none")
        rc.ok(set(np.nonzero(occ >= 1)[0].tolist()) <= set(cen.tolist()), "a central in every halo that always has one")
        rc.ok(np.all(ns[sat] > 0), "no satellite in a halo that has none")
        if central:
            rc.ok(set(sat.tolist()) <= set(cen.tolist()), "satellites only in halos with a central")
        d = np.sqrt(np.sum((pos[nc:] - X[sat]) ** 2, axis=1))
        rc.ok(np.all(d <= rad(M[sat]) * (1 + 1e-6)), "satellites lie within the virial radius of their own halo")
        again = T.populate(X, M, profile=pr, hodmod=h, rng=np.random.default_rng(seed))
        rc.ok(all(np.array_equal(a, b_) for a, b_ in zip((pos, own, nc), again)), "same generator state, same catalogue")
        if len(sat):
            other = T.populate(X, M, profile=pr, hodmod=h)
            rc.ok(not np.array_equal(other[0], pos), "without a generator the draws are fresh")
        # listing the halos as a list, and the masses in another container, is the same catalogue
        lst = T.populate(X, list(M), profile=pr, hodmod=h, rng=np.random.default_rng(seed))
        rc.ok(np.array_equal(lst[0], pos) and np.array_equal(lst[1], own), "masses may be any sequence")

    C.case("halomod.tools.populate: bookkeeping", book, 60 if C.tier == "quick" else 480, "every Poisson occupation, both central settings, every truncated profile, 1-60 halos with masses at and around the cut-offs")

    def stats(rg, i, rc):
        name, central = VAR[i % len(VAR)], bool((i // len(VAR)) % 2)
        h, p = hod(rg, name, central)
        pr = prof(rg, "NFW")
        # a few distinct masses, many halos each, with expected numbers that make a shift visible
        g = 10 ** np.linspace(10.0, 15.5, 400)
        occ, ns = np.asarray(h.nc(g), float), np.asarray(h.ns(g), float)
        cand = np.nonzero((ns > 0.05) & (ns < 30) & (occ > 0.05 if central else True))[0]
        part = np.nonzero((occ > 0.05) & (occ < 0.95) & (ns < 30))[0]
        sel = list(rg.choice(cand, min(2, len(cand)), replace=False)) if len(cand) else []
        sel += list(rg.choice(part, min(1, len(part)), replace=False)) if len(part) else []
        if not sel:
            sel = [int(np.argmax(occ > 0))]
        R = 4000 if name != "x" else 0
        mm = g[np.array(sel, dtype=int)]
        M = np.tile(mm, R)
        X = rg.uniform(0, 100, (len(M), 3))
        seed = int(rg.integers(2**31))
        rc.rec(hod=name, central=central, params=p, masses=mm, repeats=R, seed=seed)

        class Fast:
            """positions are not looked at here"""

            def populate(self, n, m, centre=None, rng=None, c=None):
                return np.tile(np.zeros(3) if centre is None else np.asarray(centre, float), (int(n), 1))

        pos, own, nc = T.populate(X, M, profile=Fast(), hodmod=h, rng=np.random.default_rng(seed))
        ncen = np.bincount(own[:nc], minlength=len(M)).reshape(R, len(mm))
        nsat = np.bincount(own[nc:], minlength=len(M)).reshape(R, len(mm))
        want_c, want_s = np.asarray(h.nc(mm), float) * np.ones(len(mm)), np.asarray(h.ns(mm), float) * np.ones(len(mm))
        for j in range(len(mm)):
            pc, mu = float(want_c[j]), float(want_s[j])
            rc.ok(abs(ncen[:, j].mean() - pc) <= 6 * np.sqrt(max(pc * (1 - pc), 1e-12) / R) + 1e-9, f"mean number of centrals is nc ({ncen[:, j].mean():.4f} for {pc:.4f})")
            lam = mu / pc if central and pc > 0 else mu
            var = mu + (mu * lam - mu**2 if central else 0.0)
            rc.ok(abs(nsat[:, j].mean() - mu) <= 6 * np.sqrt(max(var, 1e-12) / R) + 1e-9, f"mean number of satellites is ns ({nsat[:, j].mean():.4f} for {mu:.4f})")
            host = ncen[:, j] > 0 if central else np.ones(R, bool)
            k = nsat[host, j]
            if len(k) > 500 and lam > 0.05:
                rc.ok(abs(k.var() / lam - 1) <= 6 * np.sqrt((1 / lam + 2) / len(k)) + 0.02, f"satellites of a host scatter like Poisson variates ({k.var():.4f} for {lam:.4f})")
            if not central and 0.1 < pc < 0.9:
                a, b_ = nsat[ncen[:, j] > 0, j], nsat[ncen[:, j] == 0, j]
                rc.ok(abs(a.mean() - b_.mean()) <= 6 * np.sqrt(mu * (1 / len(a) + 1 / len(b_))), "without the central condition satellites are independent of centrals")

    C.case("halomod.tools.populate: numbers of tracers", stats, 36 if C.tier == "quick" else 288, "4000 halos at each of up to three masses; centrals and satellites per halo against nc and ns (6 sigma)", jobs=8)

    def radial(rg, i, rc):
        name = PROFS[i % len(PROFS)]
        pars = gen_params(rg, name)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            pr = getattr(P, name)(CM(float(rg.uniform(4, 12)), 0.0), mdef=MD, z=0.0, cosmo=Planck15, nu_fn=lambda m: np.ones_like(m), **pars)
        mass, n = float(logu(rg, 1e12, 1e15)), 3000
        cc = float(pr.cm_relation(mass))
        own_c = None if rg.random() < 0.5 else float(rg.uniform(3, 15))
        ctr = None if rg.random() < 0.3 else rg.uniform(-50, 50, 3)
        seed = int(rg.integers(2**31))
        rc.rec(profile=name, params=pars, mass=mass, c=own_c, centre=ctr, seed=seed, n=n)
        pos = pr.populate(n, mass, **({} if own_c is None else {"c": own_c}), centre=ctr, rng=np.random.default_rng(seed))
        rc.ok(pos.shape == (n, 3), "one position per tracer")
        d = pos - (0 if ctr is None else ctr)
        r = np.sqrt(np.sum(d**2, axis=1))
        ce = cc if own_c is None else own_c
        x = np.sort(r / rad(mass) * ce)
        rc.ok(x[-1] <= ce * (1 + 1e-4), "tracers lie within the virial radius")
        q = np.linspace(0.002, 0.998, 60)
        grid = np.quantile(x, q)
        tot = msum(name, pars, ce)
        cum = np.array([msum(name, pars, g) for g in grid]) / tot
        ks = np.max(np.abs(cum - q))
        rc.ok(ks <= 2.9 / np.sqrt(n), f"radii follow the mass profile of the halo (KS distance {ks:.4f})")
        e = d / r[:, None]
        rc.ok(np.all(np.abs(e.mean(axis=0)) <= 5.5 / np.sqrt(3 * n)), "directions are isotropic (mean)")
        s2 = e.T @ e / n
        rc.ok(np.all(np.abs(s2 - np.eye(3) / 3) <= 5.5 * 0.3 / np.sqrt(n)), "directions are isotropic (second moments)")
        rc.ok(abs((e**4).sum(axis=1).mean() - 0.6) <= 5.5 * 0.175 / np.sqrt(n), "directions are isotropic (fourth moments)")
        for w in ((1, 0, 0), (0, 1, 0), (0, 0, 1), (1, 1, 0), (1, 0, 1), (0, 1, 1), (1, 1, 1), (1, -1, 1)):
            pr_ = np.sort(e @ np.array(w, float)) / np.sqrt(np.dot(w, w))
            ks = np.max(np.abs((1 + pr_) / 2 - (np.arange(n) + 0.5) / n))
            rc.ok(ks <= 2.9 / np.sqrt(n), f"directions are isotropic (projection on {w} uniform, KS distance {ks:.4f})")
        rho = np.corrcoef(r, e[:, 2])[0, 1]
        rc.ok(abs(rho) <= 5.5 / np.sqrt(n), "directions are independent of radii")
        ac = np.abs(np.sum(e[1:] * e[:-1], axis=1).mean())
        rc.ok(ac <= 5.5 / np.sqrt(3 * n), "directions of successive tracers are independent")
        one = pr.populate(1, mass, centre=ctr, rng=np.random.default_rng(seed))
        rc.ok(one.shape == (1, 3) and np.sqrt(np.sum((one - (0 if ctr is None else ctr)) ** 2)) <= rad(mass) * (1 + 1e-4), "a single tracer")

    C.case("halomod.profiles.Profile.populate: radial distribution", radial, 24 if C.tier == "quick" else 192, "3000 tracers per halo; Kolmogorov-Smirnov distance to the published shape, isotropy, independence", jobs=8)

    def box(rg, i, rc):
        name, central = VAR[int(rg.integers(len(VAR)))], bool(rg.integers(2))
        h, p = hod(rg, name, central)
        pr = prof(rg, pick(rg, ["NFW", "Hernquist", "Constant", "CoredNFW"]))
        kind = i % 3
        if kind == 0:
            edges = float(rg.uniform(30, 200))
            lo, hi = np.zeros(3), np.full(3, edges)
        elif kind == 1:
            a = float(rg.uniform(-100, 100))
            edges = [a, a + float(rg.uniform(30, 200))]
            edges = pick(rg, [list, tuple, np.array])(edges)
            lo, hi = np.full(3, edges[0]), np.full(3, edges[1])
        else:
            lo = rg.uniform(-100, 100, 3)
            hi = lo + rg.uniform(30, 200, 3)
            edges = np.array([lo, hi])
        n = 40
        M = 10 ** rg.uniform(12, 15.3, n)
        X = lo + (hi - lo) * rg.uniform(0, 1, (n, 3))
        # halos close to (and on) the faces
        for j in range(12):
            ax = int(rg.integers(3))
            X[j, ax] = pick(rg, [lo[ax], hi[ax], lo[ax] + 1e-3, hi[ax] - 1e-3])
        seed = int(rg.integers(2**31))
        rc.rec(hod=name, central=central, params=p, edges=edges, masses=M, centres=X, seed=seed)
        E0 = np.array(edges, float).copy()
        free = T.populate(X, M, profile=pr, hodmod=h, rng=np.random.default_rng(seed))
        per = T.populate(X, M, profile=pr, hodmod=h, edges=edges, rng=np.random.default_rng(seed))
        rc.ok(np.array_equal(free[1], per[1]) and free[2] == per[2], "periodicity changes no owner")
        rc.ok(np.array_equal(np.array(edges, float), E0), "the edges are left unmodified")
        q, f = per[0], free[0]
        rc.ok(np.all((q >= lo - 1e-9) & (q <= hi + 1e-9)), "every tracer lies in the box")
        k = (q - f) / (hi - lo)
        rc.ok(np.all(np.abs(k - np.round(k)) < 1e-9), "moved by whole box lengths only")
        inside = (f > lo) & (f < hi)
        rc.ok(np.all(q[inside] == f[inside]), "tracers inside the box are not moved")

    C.case("halomod.tools.populate: periodic box", box, 30 if C.tier == "quick" else 240, "cube, shifted cube and rectangular prism; halos at and on the faces; compared with the same draws without edges")

    def model(rg, i, rc):
        from halomod import TracerHaloModel

        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            hm = TracerHaloModel(
                transfer_model="EH", Mmin=11, Mmax=15, dlog10m=0.2, lnk_min=-6, lnk_max=4, dlnk=0.4, hod_model=pick(rg, ["Zheng05", "Zehavi05"]),
                halo_profile_model="NFW", tracer_profile_model=pick(rg, ["Hernquist", "CoredNFW", "NFW"]), tracer_concentration_model=pick(rg, ["Ludlow16Empirical", "Duffy08"]), z=float(pick(rg, [0, 1])),
            )
            M, X = 10 ** rg.uniform(12.5, 15, 30), rg.uniform(0, 100, (30, 3))
            seed = int(rg.integers(2**31))
            rc.rec(tracer=str(hm.tracer_profile_model), seed=seed, masses=M)
            a = T.populate(X, M, halomodel=hm, rng=np.random.default_rng(seed))
            b_ = T.populate(X, M, profile=hm.tracer_profile, hodmod=hm.hod, rng=np.random.default_rng(seed))
        rc.ok(all(np.array_equal(p_, q) for p_, q in zip(a, b_)), "a halo model stands for its occupation and its tracer profile")

    C.case("halomod.tools.populate: from a halo model", model, 4 if C.tier == "quick" else 32, "halo models whose tracers do not follow the halo profile")
