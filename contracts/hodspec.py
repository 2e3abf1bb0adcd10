"""Specification of the occupation models: the published mean relations, written independently of /repo.

Each entry: params -> generator of random physical values; central(m,p), satellite(m,p) (before the central
condition), tracer-per-object amplitudes; all usable on symbolic scalars and on numpy arrays.
"""

from __future__ import annotations

import numpy as np
import scipy.special as sp

P10 = lambda x: 10**x


def step(c, v=1.0):
    return np.where(c, v, 0.0)


def lg(x):
    return np.log(x) / np.log(np.float64(10)) if not hasattr(x, "t") else np.log10(x)


def geach_c(m, p):
    d = lg(m) - p["M_min"]
    s = p["x"] * p["sig_logm"]
    return p["fcb"] * (1 - p["fca"]) * np.exp(-(d * d) / (2 * s * s)) + p["fca"] * (1 + sp.erf(d / s))


def geach_s(m, p):
    d = lg(m) - p["M_1"]
    return p["fs"] * (1 + sp.erf(d / p["delta"])) * 10 ** (p["alpha"] * d)


def plaw(m, p):
    return 10 ** (p["alpha"] * (lg(m) - p["M_1"]))


def zheng_s(m, p):
    m0 = P10(p["M_0"])
    x = np.where(m > m0, m - m0, 1.0)
    return np.where(m > m0, 10 ** (p["alpha"] * (lg(x) - p["M_1"])), 0.0)


def tinker_s(m, p):
    mm = P10(p["M_min"])
    d = np.where(m > mm, m - mm, 1.0)
    return np.where(m > mm, np.exp(-P10(p["M_cut"]) / d) * (m / P10(p["M_1"])), 0.0)


def within(m, p, lo="M_min", hi="M_max"):
    return (m >= P10(p[lo])) & (m <= P10(p[hi]))


def spin_c(m, p):
    return m * (p["a1"] * (m / 1e10) ** p["beta"] * np.exp(-((m / P10(p["M_break"])) ** p["alpha"])) + p["a2"]) * np.exp(-((P10(p["M_1"]) / m) ** 0.5))


def spin_s(m, p):
    u = m / P10(p["M_break_sat"])
    return np.where(m >= 1e11, P10(p["M_0"]) * u ** p["beta_sat"] * np.exp(-((1 / u) ** p["alpha_sat"])), 0.0)


def spin_ts(m, p):
    return np.where(within(m, p, "M_min_counts", "M_max_counts"), (m / P10(p["M_1_counts"])) ** p["alpha_counts"], 0.0)


U = lambda a, b: (a, b)
base = {"M_min": U(10.5, 13.0), "M_1": U(11.5, 14.0), "alpha": U(0.5, 1.6)}

SPEC = {
    "Zehavi05": dict(params=base, c=lambda m, p: step(m >= P10(p["M_min"])), s=plaw, sharp=True),
    "Zheng05": dict(
        params={**base, "M_0": U(10.0, 12.5), "sig_logm": U(0.05, 1.0)},
        c=lambda m, p: (1 + sp.erf((lg(m) - p["M_min"]) / p["sig_logm"])) / 2, s=zheng_s,
        mmin=lambda p: p["M_min"] - 5 * p["sig_logm"],
    ),
    "Contreras13": dict(
        params={**base, "M_0": U(10, 12), "sig_logm": U(0.05, 1.0), "fca": U(0.0, 0.5), "fcb": U(0.0, 0.5), "fs": U(0.1, 2), "delta": U(0.2, 2), "x": U(0.3, 2)},
        c=geach_c, s=geach_s,
    ),
    "Tinker05": dict(params={"M_min": U(10.5, 13), "M_1": U(11.5, 14), "M_cut": U(11, 13.5)}, c=lambda m, p: step(m >= P10(p["M_min"])), s=tinker_s, inherent=True, sharp=True),
    "Zehavi05WithMax": dict(params={**base, "M_max": U(13.5, 16)}, c=lambda m, p: step(within(m, p)), s=plaw, sharp=True),
    "Zehavi05Marked": dict(
        params={**base, "M_max": U(13.5, 16), "logA": U(-2, 2)}, c=lambda m, p: step(within(m, p), P10(p["logA"])), s=lambda m, p: plaw(m, p) * P10(p["logA"]),
        tc=lambda m, p: P10(p["logA"]) + 0 * m, ts=lambda m, p: P10(p["logA"]) + 0 * m, sharp=True, marked=True,
    ),
    "ContinuousPowerLaw": dict(
        params={**base, "M_max": U(13.5, 16), "logA": U(-2, 2), "sigma_A": U(0, 1)}, c=None,
        s=lambda m, p: np.where(within(m, p), P10(p["logA"]) * (10 ** (p["alpha"] * (lg(m) - p["M_1"])) + 1), 0.0), sharp=True, bulk=True,
    ),
    "Constant": dict(params={"M_min": U(10.5, 13), "logA": U(-2, 2), "sigma_A": U(0, 1)}, c=None, s=lambda m, p: np.where(m > P10(p["M_min"]), P10(p["logA"]), 0.0), bulk=True),
    "Spinelli19": dict(
        params={"a1": U(0.0005, 0.01), "a2": U(1e-5, 1e-3), "alpha": U(0.3, 1), "beta": U(0.2, 0.8), "M_min": U(8, 10), "M_break": U(11, 13), "M_1": U(-4, 10), "M_0": U(7, 9),
                "M_break_sat": U(11, 12), "alpha_sat": U(0.4, 1.2), "beta_sat": U(0.6, 1.4), "M_1_counts": U(12, 13.5), "alpha_counts": U(0.7, 1.3), "M_min_counts": U(10.5, 11.5), "M_max_counts": U(14.5, 16)},
        c=spin_c, s=spin_s, tc=lambda m, p: np.where(within(m, p, "M_min_counts", "M_max_counts"), 1.0, 0.0), ts=spin_ts, mass=True,
    ),
}
SPEC["Geach12"] = SPEC["Contreras13"]

POISSON = [k for k, v in SPEC.items() if not v.get("bulk")]


# ---- Leauthaud et al. 2011
def leau_lhm(lsm, p):
    """mean log halo mass at log stellar mass (their eq. 21)"""
    a1 = 1 / (1 + p["redshift"]) - 1
    g = lambda n: p[f"smhm_{n}_0"] + p[f"smhm_{n}_a"] * a1
    ratio = 10 ** (lsm - g("m0"))
    return g("m1") + g("beta") * lg(ratio) + ratio ** g("delta") / (1 + ratio ** (-g("gamma"))) - 0.5


LEAU = {
    "redshift": U(0, 2), "sm_thresh": U(8.5, 11.2), "smhm_m0_0": U(10.3, 11.0), "smhm_m0_a": U(-0.3, 0.3), "smhm_m1_0": U(12.0, 12.7), "smhm_m1_a": U(-0.3, 0.3),
    "smhm_beta_0": U(0.35, 0.55), "smhm_beta_a": U(-0.1, 0.1), "smhm_delta_0": U(0.4, 0.7), "smhm_delta_a": U(-0.1, 0.1), "smhm_gamma_0": U(1, 2), "smhm_gamma_a": U(-0.2, 0.2),
    "sig_logmstar": U(0.1, 0.4), "alphasat": U(0.8, 1.2), "betasat": U(0.5, 1.1), "bsat": U(5, 15), "betacut": U(-0.3, 0.3), "bcut": U(0.5, 2),
}


def draw(rng, params):
    out = {}
    for k, (a, b) in params.items():
        v = rng.uniform(a, b)
        u = rng.random()
        if u < 0.08:
            v = a
        elif u < 0.16:
            v = b
        out[k] = float(v)
    return out


def masses(rng, p, n=None):
    """mass grids that include the cut-offs themselves and their float neighbours"""
    n = n or int(rng.choice([1, 2, int(rng.integers(3, 40)), int(rng.integers(3, 40)), int(rng.integers(3, 40)), int(rng.integers(41, 140))]))
    one = n == 1
    m = np.sort(10 ** rng.uniform(9.0, 16.2, n))
    extra = []
    for k in ("M_min", "M_max", "M_0", "M_1", "M_cut"):
        if k in p and 8 < p[k] < 17 and rng.random() < 0.7:
            c = 10 ** p[k]
            extra += [c, np.nextafter(c, 0), np.nextafter(c, 1e300)]
    if rng.random() < 0.5:
        extra += [1e11, np.nextafter(1e11, 0)]
    m = np.unique(np.concatenate([m, extra])) if extra else m
    return rng.choice(m, 1) if one else m
