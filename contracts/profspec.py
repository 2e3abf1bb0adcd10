"""Published density shapes f(x) (x = r/r_s), independent of the code under verification."""

from __future__ import annotations

import numpy as np
import scipy.special as sp
from scipy.integrate import quad

SHAPES = {
    "NFW": lambda x, p: 1 / (x * (1 + x) ** 2),
    "Hernquist": lambda x, p: 1 / (x * (1 + x) ** 3),
    "Moore": lambda x, p: 1 / (x**1.5 * (1 + x**1.5)),
    "Constant": lambda x, p: 1 + 0 * x,
    "GeneralizedNFW": lambda x, p: 1 / (x ** p["alpha"] * (1 + x) ** (3 - p["alpha"])),
    "Einasto": lambda x, p: np.exp(-2 / p["alpha"] * (x ** p["alpha"] - 1)),
    "CoredNFW": lambda x, p: 1 / ((x + 0.75) * (x + 1) ** 2),
    "PowerLawWithExpCut": lambda x, p: x ** (-p["b"]) * np.exp(-p["a"] * x),
}
for _n in ("NFW", "Hernquist", "Moore", "GeneralizedNFW"):
    SHAPES[_n + "Inf"] = SHAPES[_n]
PARS = {"GeneralizedNFW": {"alpha": 1}, "GeneralizedNFWInf": {"alpha": 1}, "Einasto": {"alpha": 0.18}, "PowerLawWithExpCut": {"a": 0.049, "b": 2.248}}
INF = {"NFWInf", "HernquistInf", "MooreInf", "GeneralizedNFWInf", "PowerLawWithExpCut"}
FIN = [n for n in SHAPES if n not in INF]


def gen_params(rg, name):
    if name.startswith("GeneralizedNFW"):
        return {"alpha": float(rg.choice([1, 0.5, 1.3, 0.8]))}
    if name == "Einasto":
        return {"alpha": float(rg.choice([0.18, 0.15, 0.25])), "use_interp": False}
    if name == "PowerLawWithExpCut":
        return {"a": float(rg.uniform(0.05, 2)), "b": float(rg.choice([2.248, 2.0, 1.5, 2.6]))}
    return {}


def msum(name, p, hi, lo=0.0):
    """int_lo^hi x^2 f(x) dx"""
    f = SHAPES[name]
    pieces = [lo] + [b for b in (1e-4, 1e-2, 0.3, 2.0, 8.0, 30.0) if lo < b < hi] + [hi]
    tot = 0.0
    for a, b in zip(pieces, pieces[1:]):
        if a == 0:  # substitute x = y^4 near the cusp
            tot += quad(lambda y: 4 * y**3 * y**8 * f(y**4, p), 0, b**0.25, limit=200, epsabs=0, epsrel=1e-11)[0]
        else:
            tot += quad(lambda x: x * x * f(x, p), a, b, limit=200, epsabs=0, epsrel=1e-11)[0]
    return tot


def ftsum(name, p, K, hi):
    """int_0^hi x^2 f(x) sin(Kx)/(Kx) dx   (hi may be inf)"""
    f = SHAPES[name]
    x0 = min(1.0 / K, 1.0, hi)
    tot = quad(lambda y: 4 * y**3 * y**8 * f(y**4, p) * np.sinc(K * y**4 / np.pi), 0, x0**0.25, limit=400, epsabs=0, epsrel=1e-10)[0]
    if x0 < hi:
        if np.isinf(hi):
            tot += quad(lambda x: x * f(x, p), x0, np.inf, weight="sin", wvar=K, limlst=400, limit=400)[0] / K
        else:
            tot += quad(lambda x: x * f(x, p), x0, hi, weight="sin", wvar=K, limit=800, epsabs=1e-13)[0] / K
    return tot


class CM:
    """a concentration-mass relation for tests"""

    def __init__(self, c0=7.0, s=-0.1):
        self.c0, self.s = c0, s

    def cm(self, m, z=0):
        return self.c0 * (np.asarray(m, float) / 1e12) ** self.s / (1 + z)
