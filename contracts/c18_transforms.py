"""C18 -- transforms between powers and correlations are the spherical Fourier integral, summed to the accuracy asked for."""

from __future__ import annotations

import warnings

import numpy as np
from scipy.interpolate import InterpolatedUnivariateSpline

from pyvc import sym
from pyvc import terms as tm
from pyvc.sym import A, S, LoopSpec, WhileSpec, array, elem, intvar, scalar

from .common import *

HT = scalar("h", "+")


def psi_t(n):
    """t = h n"""
    return HT * n


def node(n):
    """Ogata's node of the sine transform: pi n tanh(pi/2 sinh(h n))"""
    return S(tm.PI) * n * np.tanh(S(tm.PI) / 2 * np.sinh(psi_t(n)))


def weight(n):
    """pi x sin(x) psi'(h n),  psi'(t) = (pi t cosh t + sinh(pi sinh t)) / (1 + cosh(pi sinh t))"""
    t_, pi = psi_t(n), S(tm.PI)
    s = pi * np.sinh(t_)
    return pi * node(n) * np.sin(node(n)) * (pi * t_ * np.cosh(t_) + np.sinh(s)) / (1 + np.cosh(s))


def check(C):
    import halomod.tools as T

    F = "halomod.tools"
    num, app = tm.num, tm.app
    n0, n1 = intvar("n0"), intvar("n1")
    nj = S(tm.add(t(n0), J), "i")

    def post_nodes(v):
        x, w = v
        n_ = tm.sub(t(n1), t(n0))
        return {
            "one node per summand": tm.and_(tm.eq(x.shape_t[0], n_), tm.eq(w.shape_t[0], n_)),
            "double-exponential node": tm.eq(elem(x, J), t(node(nj))),
            "weight of the sine transform": tm.eq(elem(w, J), t(weight(nj))),
        }

    hy = [tm.lt(t(n0), t(n1)), tm.lt(J, tm.sub(t(n1), t(n0)))]
    C.prove(f"{F}._get_sumspace", lambda: T._get_sumspace(HT, n0, n1), post_nodes, hy, {"h": (0.005, 0.1), "n0": (1, 4), "n1": (5, 9)}, f"{F}._get_sumspace")

    # ------------------------------------------------------------ hankel_transform: the chunked sum
    ch = intvar("chunk")
    X, W = (lambda n: app("node", "+", t(HT), n)), (lambda n: app("weight", "", t(HT), n))

    def sumspace(h, a, b_):
        a, b_ = t(a), t(b_)
        n_ = tm.sub(b_, a)
        if not tm.equal(t(h), t(HT)):
            raise sym.Unsupported("nodes of another spacing")
        return A((n_,), lambda i: X(tm.add(a, i[0])), "r"), A((n_,), lambda i: W(tm.add(a, i[0])), "r")

    at, rt = scalar("atol", "0+"), scalar("rtol", "0+")
    rv = array("r", NR, sign="+")

    class Many:
        """a function per separation"""

        def __len__(self):
            return 1

        def __getitem__(self, i):
            return lambda kk: uf("P")(kk, i)

    one = uf("P")
    Rq = lambda i: app("r", "+", i)

    def part(i, nn, many):
        """partial sum of w_n P(x_n / r_i) over the nodes 1 .. nn-1 (ghost)"""
        return app("Sig", "", i, nn)

    def chunk_sum(i, nn, many):
        x = A((t(ch),), lambda q: tm.div(X(tm.add(nn, q[0])), Rq(i)), "r")
        w = A((t(ch),), lambda q: W(tm.add(nn, q[0])), "r")
        return t((w * (uf("P")(x, S(i, "i")) if many else uf("P")(x))).sum())

    nnv, prev, res = intvar("nn"), scalar("prev"), scalar("res")
    for many in (False, True):
        for v in "rk":
            def inv(loc, many=many):
                i = t(loc["ir"])
                nn, p_, r_ = t(loc["nn"]), t(loc["prev_res"]), t(loc["res"])
                back = tm.sub(nn, t(ch))
                return tm.and_(
                    tm.le(tm.ONE, nn), tm.eq(r_, part(i, nn, many)),
                    tm.or_(tm.and_(tm.eq(nn, tm.ONE), tm.eq(p_, num(100))), tm.and_(tm.le(tm.ONE, back), tm.eq(p_, part(i, back, many)))),
                )

            def ghost(loc, many=many):
                i, nn = t(loc["ir"]), t(loc["nn"])
                return tm.and_(tm.eq(part(i, tm.ONE, many), tm.ZERO), tm.eq(part(i, tm.add(nn, t(ch)), many), tm.add(part(i, nn, many), chunk_sum(i, nn, many))))

            def body(i, loc, many=many):
                i = t(i)
                nn = t(loc["nn"])
                got = elem(loc["out"], i)
                back = part(i, tm.sub(nn, t(ch)), many)
                d = tm.sub(back, got)
                tol = tm.add(t(at), tm.mul(t(rt), tm.fn("abs", got)))
                return {
                    "sum over consecutive nodes from the first, each once": tm.eq(got, part(i, nn, many)),
                    "summed until a chunk changes the sum by no more than the tolerance, or to the last node": tm.or_(tm.le(tm.fn("floor", tm.div(num("3.2"), t(HT))), nn), tm.and_(tm.le(d, tol), tm.le(tm.sub(num(0), tol), d))),
                }

            def fin(w, v=v):
                a = [x for x in sorted(sym_apps(elem(w, J)), key=str) if x.args[0].startswith("%after_out")]
                s_ = a[0] if a else num(0)
                r3 = tm.pow_(Rq(J), num(3))
                want = tm.div(s_, tm.mul(tm.mul(num(2), tm.pow_(tm.PI, num(2))), r3)) if v == "r" else tm.div(tm.mul(tm.mul(num(4), tm.PI), s_), r3)
                return {"sum over 2 pi^2 r^3, or 4 pi over k^3": tm.eq(elem(w, J), want), "one value per point": shape_is(w, S(NR, "i"))}

            loops = {"hankel_transform": LoopSpec({}, lambda i, loc: tm.TRUE, body, ("out",))}
            whiles = {"hankel_transform": [WhileSpec({"nn": lambda: nnv, "prev_res": lambda: prev, "res": lambda: res}, inv, ghost)]}
            hy = [tm.lt(J, NR), tm.lt(num(0), t(ch)), tm.lt(t(HT), tm.ONE), tm.lt(t(at), num(100))]
            C.prove(f"{F}.hankel_transform (to {'a correlation' if v == 'r' else 'a power'}, {'a spectrum per point' if many else 'one spectrum'})", lambda many=many, v=v: T.hankel_transform(Many() if many else one, rv, v, h=HT, chunksize=ch, atol=at, rtol=rt), fin, hy, {"h": (0.1, 0.9), "chunk": (1, 3), "nr": (2, 4), "r": (0.5, 2), "nn": (1, 5)}, f"{F}.hankel_transform", extra={"globals": {"_get_sumspace": sumspace}, "loops": loops, "whiles": whiles})
    C.prove(f"{F}.hankel_transform (unknown variable)", lambda: T.hankel_transform(one, rv, "q"), lambda w: {"refused": tm.FALSE}, (), {}, f"{F}.hankel_transform", allow_raise=(ValueError,))

    # ------------------------------------------------------------ power_to_corr_ogata: a tabulated spectrum, continued through its end points
    def tabulated(many, state):
        """state: at either end F (declared possibly negative), P (declared positive and so), N (declared positive and not)"""
        KA = lambda i: app("kt", "+", i)
        Z, O = tm.ZERO, tm.ONE
        NN = tm.fn("trunc", tm.div(num("3.2"), t(HT)))
        e0, e1 = tm.sub(NK, O), tm.sub(NK, num(2))
        pw = array("P", NR, NK) if many else array("P", NK)
        ln = lambda x: tm.fn("log", x)

        def positive(js):
            if not many:
                return tm.and_(*[tm.lt(Z, app("P", "", j)) for j in js])
            bs = [sym.bvar() for _ in js]
            return tm.and_(*[tm.not_(tm.mk("exists", bv, NR, tm.not_(tm.lt(Z, app("P", "", bv, j))))) for bv, j in zip(bs, js)])

        given = [positive(e) if c == "P" else tm.not_(positive(e)) for c, e in zip(state, ([Z, O], [e1, e0])) if c != "F"]

        def continued(q, p):
            def line(a, c, law):
                u = tm.div(tm.sub(q, ln(KA(a))), tm.sub(ln(KA(c)), ln(KA(a))))
                f = ln if law else (lambda x: x)
                v = tm.add(f(p(a)), tm.mul(u, tm.sub(f(p(c)), f(p(a)))))
                return tm.fn("exp", v) if law else v

            inside = t(sym.SymSplineI(A((NK,), lambda j: ln(KA(j[0])), "r"), A((NK,), lambda j: p(j[0]), "r"), k=3)(S(q)))
            return tm.ite(tm.lt(q, ln(KA(Z))), line(Z, O, state[0] == "P"), tm.ite(tm.lt(ln(KA(e0)), q), line(e0, e1, state[1] == "P"), inside))

        def part(i, n_):
            """the weighted sum over the first n nodes, of the table continued through its end points"""
            p = (lambda j: app("P", "", i, j)) if many else (lambda j: app("P", "", j))
            bv = sym.bvar()
            at_ = S(tm.add(bv, O), "i")
            return tm.red("sum", bv, n_, tm.mul(t(weight(at_)), continued(ln(tm.div(t(node(at_)), Rq(i))), p)))

        def body(i, loc):
            i = t(i)
            got, full = elem(loc["out"], i), part(i, NN)
            goal = tm.eq(got, full)
            beyond = getattr(sym.ENGINE.cur, "firsts", [])
            if beyond:  # the first node beyond the table
                f = beyond[-1]
                upto, goal = part(i, tm.add(f, O)), tm.FALSE
                for when, before in ((tm.lt(f, O), part(i, tm.add(NN, f))), (tm.le(O, f), part(i, f))):
                    conv = tm.le(tm.fn("abs", tm.sub(upto, before)), tm.add(t(at), tm.mul(t(rt), tm.fn("abs", before))))
                    goal = tm.or_(goal, tm.and_(when, conv, tm.eq(got, upto)), tm.and_(when, tm.not_(conv), tm.eq(got, full)))
            return {"sum over the nodes of the table continued through its end points, cut at the table's end only where it has converged to the accuracy asked for": goal}

        def fin(w):
            a = [x for x in sorted(sym_apps(elem(w, J)), key=str) if x.args[0].startswith("%after_out")]
            want = tm.div(a[0] if a else num(0), tm.mul(tm.mul(num(2), tm.pow_(tm.PI, num(2))), tm.pow_(Rq(J), num(3))))
            return {"sum over 2 pi^2 r^3": tm.eq(elem(w, J), want), "one value per point": shape_is(w, S(NR, "i"))}

        flag = lambda n_: lambda i: S(tm.lt(Z, app("%" + n_, "", i.t)), "b")
        loop = LoopSpec({"warn_upper": flag("wu"), "warn_lower": flag("wl"), "warn_conv": flag("wc")}, lambda i, loc: tm.TRUE, body, ("out",))
        hy = [tm.lt(J, NR), tm.lt(num(3), NK), tm.lt(t(HT), O), tm.lt(KA(Z), KA(e0)), *given]
        nm = f"{'a table per point' if many else 'one table'}, ends {' and '.join({'F': 'of unknown sign', 'P': 'positive', 'N': 'declared positive, not so'}[c] for c in state)}"
        pos = tuple(c != "F" for c in state)
        sym.MONO["kt"] = 1
        try:
            with tm.opaque():
                C.prove(f"{F}.power_to_corr_ogata ({nm})", lambda: T.power_to_corr_ogata(pw, array("kt", NK, sign="+"), rv, h=HT, power_pos=pos, rtol=rt, atol=at), fin, hy, {"h": (0.1, 0.9), "nr": (1, 2), "nk": (5, 6), "r": (0.5, 2)}, f"{F}.power_to_corr_ogata", extra={"identity": [(InterpolatedUnivariateSpline, sym.SymSplineI)], "loops": {"power_to_corr_ogata": loop}})
        finally:
            del sym.MONO["kt"]

    for state in [x + y for x in "FPN" for y in "FPN"]:
        tabulated(False, state)
        if C.tier != "quick" or state in ("FP", "PF", "NN"):
            tabulated(True, state)

    # ------------------------------------------------------------ the remaining transforms
    kk, rad = array("k", NK, sign="+"), scalar("rad", "+")

    def post_w(w):
        x = t(S(app("k", "+", J)) * rad)
        return {"3 (sin x - x cos x) / x^3 with x = k r": tm.eq(tm.mul(elem(w, J), tm.pow_(x, num(3))), tm.mul(num(3), tm.sub(tm.fn("sin", x), tm.mul(x, tm.fn("cos", x)))))}

    C.prove(f"{F}.exclusion_window", lambda: T.exclusion_window(kk, rad), post_w, [tm.lt(J, NK)], {"k": (0.1, 3), "rad": (0.2, 3), "nk": (2, 4)}, f"{F}.exclusion_window")

    calls = {}

    def ogata(power, k, r, h=0.005, power_pos=(True, True), rtol=1e-3, atol=1e-15, _reverse=False):
        """contract of power_to_corr_ogata: the integral of p k^2 sin(kr)/(kr) / 2 pi^2 tabulated at r"""
        calls.update(power=power, k=k, r=r, h=h, pos=power_pos, rtol=rtol, atol=atol)
        return uf("ogata")(r)

    xi = array("xi", NR)

    def post_c(w):
        return {
            "8 pi^3 times the transform with separations and wavenumbers exchanged": tm.eq(elem(w, J), tm.mul(tm.mul(num(8), tm.pow_(tm.PI, num(3))), app("ogata", "", app("k", "+", J)))),
            **TF({"the caller's table, points and accuracy": calls["power"] is xi and calls["k"] is rv and calls["r"] is kk and (calls["h"], calls["pos"], calls["rtol"], calls["atol"]) == (0.01, (False, True), 0.5, 0.25)}),
        }

    C.prove(f"{F}.corr_to_power_ogata", lambda: T.corr_to_power_ogata(xi, rv, kk, h=0.01, power_pos=(False, True), rtol=0.5, atol=0.25), post_c, [tm.lt(J, NK)], {}, f"{F}.corr_to_power_ogata", extra={"globals": {"power_to_corr_ogata": ogata}})

    seen = {}

    def power(lnk):
        seen["lnk"] = lnk
        return uf("P")(lnk)

    def simple(i, loc):
        i = t(i)
        g = seen["lnk"]
        rr = Rq(i)
        n_ = g.shape_t[0]
        f = A((n_,), lambda q: t(uf("P")(S(elem(g, q[0]))) * np_exp(S(elem(g, q[0]))) ** 2 * S(tm.fn("sin", tm.mul(tm.fn("exp", elem(g, q[0])), rr))) / S(rr)), "r")
        dx = tm.sub(elem(g, tm.ONE), elem(g, tm.ZERO))
        want = tm.div(t(sym.sym_simpson(f, dx=S(dx))), tm.mul(num(2), tm.pow_(tm.PI, num(2))))
        return {
            "integral over ln k of P k^2 sin(kr)/r / 2 pi^2": tm.eq(elem(loc["corr"], i), want),
            "evenly spaced in ln k": tm.eq(tm.sub(elem(g, tm.add(L, tm.ONE)), elem(g, L)), dx),
            "from k = 1e-6": tm.eq(elem(g, tm.ZERO), tm.fn("log", num("1e-6"))),
        }

    def np_exp(x):
        return S(tm.fn("exp", t(x)))

    def fin2(w):
        return {"one value per separation": shape_is(w, S(NR, "i"))}

    C.prove(f"{F}.power_to_corr", lambda: T.power_to_corr(power, rv), fin2, [tm.lt(J, NR)], {"nr": (2, 3), "r": (0.5, 2), "P": (0, 1)}, f"{F}.power_to_corr", extra={"loops": {"power_to_corr": LoopSpec({}, lambda i, loc: tm.TRUE, simple, ("corr",))}})

    # ------------------------------------------------------------ bounded run-time oracles
    from scipy.special import gamma

    def pair(rg):
        """an analytic pair: P(k) and xi(r)"""
        kind, a, A_ = pick(rg, ["lorentz", "exp", "gauss", "power"]), float(logu(rg, 0.05, 5)), float(logu(rg, 1e-2, 1e4))
        if kind == "lorentz":
            return kind, a, A_, (lambda k: A_ / (k**2 + a**2) ** 2), (lambda r: A_ * np.exp(-a * r) / (8 * np.pi * a))
        if kind == "exp":
            return kind, a, A_, (lambda k: A_ * np.exp(-a * k)), (lambda r: A_ * a / (np.pi**2 * (a**2 + r**2) ** 2))
        if kind == "gauss":
            return kind, a, A_, (lambda k: A_ * np.exp(-((a * k) ** 2) / 2)), (lambda r: A_ * (2 * np.pi * a**2) ** -1.5 * np.exp(-((r / a) ** 2) / 2))
        n = float(rg.uniform(-1.7, -1.3))
        a = n
        return kind, a, A_, (lambda k: A_ * k**n), (lambda r: A_ * gamma(n + 2) * np.sin(np.pi * (n + 2) / 2) / (2 * np.pi**2 * r ** (n + 3)))

    def points(rg, kind, a, n):
        """separations around the scale of the pair (well inside it the quadrature needs a smaller spacing than the default)"""
        s_ = 1.0 if kind == "power" else (1 / a if kind == "lorentz" else a)
        return np.sort(logu(rg, 0.3 * s_, 4 * s_, n))

    def hank(rg, i, rc):
        kind, a, A_, P, X = pair(rg)
        n = int(rg.integers(1, 8))
        r = points(rg, kind, a, n)
        many = bool(rg.integers(2))
        h, chk = float(pick(rg, [0.005, 0.001, 0.003])), int(pick(rg, [100, 37, 250]))
        if kind == "power":
            h, chk = 0.005, 100
        rc.rec(kind=kind, a=a, A=A_, r=r, many=many, h=h, chunksize=chk)
        r0 = r.copy()
        tol = 1e-8
        f = [(lambda k, q=q: P(k) * (1 + q)) for q in range(n)] if many else P
        fac = 1 + np.arange(n) if many else 1
        got = T.hankel_transform(f, r, "r", h=h, chunksize=chk)
        rc.ok(np.array_equal(r, r0), "the separations are left unmodified")
        rc.ok(got.shape == r.shape, "one value per separation")
        rc.close(got, X(r) * fac, "correlation of an analytic spectrum", rtol=1e-3 if kind == "power" else 1e-4, atol=20 * tol / (2 * np.pi**2 * r.min() ** 3))
        one = np.array([T.hankel_transform(f[j] if many else f, r[j : j + 1], "r", h=h, chunksize=chk)[0] for j in range(n)])
        rc.close(one, got, "each separation on its own", rtol=1e-13)
        if kind != "power":
            # and back: P(k) of the correlation
            k = points(rg, {"lorentz": "exp", "exp": "lorentz", "gauss": "lorentz"}[kind], a, n)
            g = [(lambda x, q=q: X(x) * (1 + q)) for q in range(n)] if many else X
            back = T.hankel_transform(g, k, "k", h=h, chunksize=chk)
            rc.close(back, P(k) * fac, "spectrum of an analytic correlation", rtol=1e-4, atol=20 * tol * 4 * np.pi / k.min() ** 3)
        s2 = float(r.mean())
        lin = T.hankel_transform(lambda q: 3 * P(q) + A_ * np.exp(-q * s2), r, "r", h=h, chunksize=chk)
        rc.close(lin, 3 * X(r) + A_ * s2 / (np.pi**2 * (s2**2 + r**2) ** 2), "linear in the spectrum", rtol=1e-3 if kind == "power" else 1e-4, atol=20 * tol / (2 * np.pi**2 * r.min() ** 3))

    C.case(f"{F}.hankel_transform: analytic pairs", hank, 40 if C.tier == "quick" else 480, "Lorentzian, exponential, Gaussian and power-law spectra of any width and amplitude, both directions, one spectrum or one per separation")

    def table(rg, i, rc):
        kind, a, A_, P, X = pair(rg)
        while kind == "gauss":
            kind, a, A_, P, X = pair(rg)
        r = points(rg, kind, a, 6)
        pos = (bool(rg.integers(2)), bool(rg.integers(2))) if i % 3 == 0 else (True, True)
        k = np.geomspace(1e-6, 1e3 / r.min() if kind != "exp" else 100 / a, 3000)
        rc.rec(kind=kind, a=a, A=A_, r=r, pos=pos)
        tab = P(k)
        t0, k0, r0 = tab.copy(), k.copy(), r.copy()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = T.power_to_corr_ogata(tab, k, r, power_pos=pos)
            two = T.power_to_corr_ogata(np.array([tab * (1 + j) for j in range(6)]), k, r, power_pos=pos)
        rc.ok(np.array_equal(tab, t0) and np.array_equal(k, k0) and np.array_equal(r, r0), "tables and points are left unmodified")
        rc.close(got, X(r), "correlation of a tabulated spectrum", rtol=2e-2)
        rc.close(two, got * (1 + np.arange(6)), "a spectrum per separation", rtol=1e-6)
        if kind != "power":
            q = points(rg, "lorentz" if kind == "exp" else "exp", a, 5)
            s_ = 1 / a if kind == "lorentz" else a
            x = np.geomspace(1e-5 * s_, (60 if kind == "lorentz" else 1e5) * s_, 3000)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                back = T.corr_to_power_ogata(X(x), x, q, power_pos=(True, True))
            rc.close(back, P(q), "spectrum of a tabulated correlation", rtol=2e-2)

    C.case(f"{F}.power_to_corr_ogata: analytic pairs", table, 24 if C.tier == "quick" else 288, "finely tabulated Lorentzian, exponential and power-law spectra; both directions; one spectrum or one per separation")

    def extended(rg, i, rc):
        """a table whose ends fall short of the nodes, against the same table continued by hand"""
        n = int(rg.integers(200, 500))
        k = np.geomspace(float(logu(rg, 1e-3, 0.5)), float(logu(rg, 5, 20)), n)
        lk = np.log(k)
        dl = lk[1] - lk[0]
        lo, up = float(rg.uniform(-0.5, 1.0)), float(rg.uniform(-0.5, 1.0))
        amp = float(logu(rg, 1e-1, 1e4))
        k0 = float(logu(rg, 0.1, 1))
        # of either sign at either end
        p = amp * (np.exp(-((lk - np.log(k0)) ** 2) / 2) + lo * 0.05 / (1 + (k / k[3]) ** 2) + up * 0.02 / (1 + (k[-3] / k) ** 2))
        if i % 6 == 5:
            p[[0, -1, 1, -2][i // 6 % 4]] = 0.0
        rr = np.sort(logu(rg, 0.2, 3, int(rg.integers(1, 4))))
        pos = [(True, True), (False, True), (True, False), (False, False)][i % 4]
        h = float(pick(rg, [0.005, 0.01]))
        rc.rec(k=(k[0], k[-1], n), p_ends=(p[0], p[1], p[-2], p[-1]), r=rr, pos=pos, h=h)
        N = int(3.2 / h)
        j = np.arange(1, N + 1)
        tt = h * j
        with np.errstate(all="ignore"):
            s_ = np.pi * np.sinh(tt)
            x = np.pi * j * np.tanh(s_ / 2)
            dp = np.where(s_ < 700, (np.pi * tt * np.cosh(tt) + np.sinh(np.minimum(s_, 700))) / (1 + np.cosh(np.minimum(s_, 700))), 1.0)
        spl = InterpolatedUnivariateSpline(lk, p, k=3)
        plow = pos[0] and p[0] > 0 and p[1] > 0
        pup = pos[1] and p[-1] > 0 and p[-2] > 0
        want = []
        for r_ in rr:
            q = np.log(x / r_)
            sl, su = (q - lk[0]) / dl, (q - lk[-1]) / dl
            with np.errstate(all="ignore"):
                low = p[0] * (p[1] / p[0]) ** sl if plow else p[0] + (p[1] - p[0]) * sl
                high = p[-1] * (p[-1] / p[-2]) ** su if pup else p[-1] + (p[-1] - p[-2]) * su
            v = np.where(q < lk[0], low, np.where(q > lk[-1], high, spl(q)))
            terms = np.pi * np.sin(x) * dp * x * v
            want.append((terms.sum() / (2 * np.pi**2 * r_**3), np.abs(terms).max() / (2 * np.pi**2 * r_**3)))
        want = np.array(want)
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            got = T.power_to_corr_ogata(p, k, rr, h=h, power_pos=pos, rtol=0.0, atol=0.0)
            two = T.power_to_corr_ogata(np.array([p * (1 + q) for q in range(len(rr))]), k, rr, h=h, power_pos=pos, rtol=0.0, atol=0.0)
        ok = np.isfinite(want).all(axis=1)
        for j_ in np.flatnonzero(ok):
            rc.close(got[j_], want[j_, 0], "the sum over the table continued through its two end points (power law where positive, else straight in ln k)", rtol=1e-6, atol=1e-9 * want[j_, 1])
        if all(f == g for f, g in [(plow, pos[0]), (pup, pos[1])]) or not ok.all():
            for j_ in np.flatnonzero(ok):
                rc.close(two[j_], got[j_] * (1 + j_), "a spectrum per separation", rtol=1e-6, atol=1e-9 * want[j_, 1])

    C.case(f"{F}.power_to_corr_ogata: tables that end inside the range of the nodes", extended, 24 if C.tier == "quick" else 288, "end values of either sign and zero; either declaration of positivity")

    def simp(rg, i, rc):
        kind, a, A_, P, X = pair(rg)
        while kind in ("gauss", "power"):
            kind, a, A_, P, X = pair(rg)
        r = points(rg, kind, a, 3)
        ints = rg.random() < 0.4 and a < 3
        if ints:
            r = np.array([1, 2])
        r = pick(rg, [r, list(r), r[0]])
        rc.rec(kind=kind, a=a, A=A_, r=r)
        got = T.power_to_corr(lambda lk: P(np.exp(lk)), r)
        rr = np.atleast_1d(np.asarray(r, float))
        rc.ok(np.shape(got) == rr.shape, "one value per separation")
        rc.close(got, X(rr), "correlation of an analytic spectrum", rtol=1e-2, atol=1e-3 * X(0.3 * (1 / a if kind == "lorentz" else a)))

    C.case(f"{F}.power_to_corr: analytic pairs", simp, 12 if C.tier == "quick" else 144, "Lorentzian and exponential spectra; arrays, lists, integers and scalars of separations")

    def window(rg, i, rc):
        R = float(logu(rg, 0.01, 50))
        k = logu(rg, 0.1, 60, 6) / R
        form = i % 4
        if form == 1:
            k = k[:1]
        rc.rec(k=k, R=R, form=form)
        gx, gw = np.polynomial.legendre.leggauss(200)
        x = R * (gx + 1) / 2
        want = np.array([np.sum(gw * R / 2 * 3 * x**2 * np.sinc(q * x / np.pi)) / R**3 for q in k])
        if form == 2:
            k, want = float(k[0]), want[0]
        elif form == 3:
            k, want = k[:6].reshape(2, 3), want[:6].reshape(2, 3)
        rc.ok(np.shape(T.exclusion_window(k, R)) == np.shape(k), "one value per wavenumber")
        rc.close(T.exclusion_window(k, R), want, "Fourier transform of a normalised top hat", rtol=1e-8, atol=1e-10)

    C.case(f"{F}.exclusion_window: top hat", window, 20 if C.tier == "quick" else 240, "against quadrature")


def sym_apps(q):
    out, seen, todo = set(), set(), [q]
    while todo:
        x = todo.pop()
        if not isinstance(x, tm.T) or x in seen:
            continue
        seen.add(x)
        if x.op == "app":
            out.add(x)
        todo.extend(y for y in x.args if isinstance(y, tm.T))
        for y in x.args:
            if isinstance(y, (tuple, list)):
                for z in y:
                    todo.extend([z] if isinstance(z, tm.T) else [u for u in z if isinstance(u, tm.T)] if isinstance(z, (tuple, list)) else [])
    return out
