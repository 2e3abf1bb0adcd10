"""Compare the verifier's reading of numpy/scipy with the real library on concrete arrays.

    /opt/venv/bin/python -m pyvc.selftest

Every snippet runs twice: on ordinary arrays with the real numpy, and on symbolic arrays of
the same (concrete) shapes whose elements are uninterpreted; the resulting terms are then
evaluated with the ordinary elements.  Results must agree element by element and in shape.
"""

from __future__ import annotations

import itertools
import sys
import types

import numpy as np
from scipy import integrate as intg
from scipy import special as sp

from . import sym
from . import terms as tm
from .engine import explore

SHAPES = {"a": (4,), "b": (4,), "p": (5,), "M": (3, 4), "N": (3, 4), "Q": (4, 5), "C": (2, 3, 4), "G": (7, 3)}
SNIPPETS = """
a + b*2 - 1/a
a**2 / np.sqrt(b)
np.outer(a, p)
np.add.outer(a, p)
M.T
M.sum(axis=0)
M.sum(axis=-1)
np.sum(M)
np.sum(M, where=M > 1)
np.sum(M, axis=1, keepdims=True)
M.mean(axis=1)
np.average(M, axis=1, weights=N)
np.prod(a)
np.dot(a, b)
np.dot(M, Q)
M @ Q
M @ a
a @ Q
np.matmul(M, a)
np.linalg.norm(M, axis=1)
np.linalg.norm(a)
np.linalg.norm(G, axis=1, keepdims=True)
np.stack([a, b])
np.stack([a, b], axis=1)
np.stack([M, N], axis=-1)
np.vstack([a, b])
np.column_stack([a, b])
np.array([a, b])
np.concatenate([a, p])
np.hstack([a, p])
np.append(a, 3.0)
np.diff(a)
np.diff(M)
np.diff(M, axis=0)
np.select([a > 1.5, a > 1.0], [b, 2*b], 0.5)
np.where(a > 1.2, a, -a)
np.where(M > a, M, a)
np.clip(a, 0.8, 1.4)
np.count_nonzero(M > 1.0, axis=1)
np.tile(a, 3)
np.tile(a, 1)
np.tile(a, 3).reshape(3, 4)
np.flip(a)
a[::-1]
M[:, ::-1]
M[::-1, 1:3]
a[1:-1]
a[::2]
a[1::2]
M[1]
M[:, 2]
M[..., 1]
C[..., 1:, 0]
C[1, :, None, 2]
a[:, None] * p
a[np.newaxis, :] + M
np.expand_dims(a, 1) * p
np.tile(a, (3, 1))
np.repeat(a[None, :], 3, axis=0)
np.moveaxis(C, 0, -1)
np.swapaxes(C, 0, 1)
C.transpose((1, 0, 2))
np.transpose(C)
np.einsum('ij,jk->ik', M, Q)
np.einsum('ij,ij->j', M, N)
np.einsum('kij->ji', C)
np.maximum(a, b)
np.minimum(M, 1.1)
np.abs(a - b)
np.sign(a - 1.2)
np.square(a)
np.hypot(a, b)
np.reciprocal(a)
np.exp(-a) * np.log(b) + np.log10(a) - np.log2(b)
np.expm1(a) + np.log1p(b)
np.sin(a) * np.cos(b)
np.tanh(a)
np.arctan(a)
sp.erf(a) + sp.erfc(b)
sp.gamma(a)
np.power(a, b)
10**a
np.floor(3*a)
np.ceil(3*a)
np.ones_like(a) * 3 + np.zeros_like(M)
np.full(3, 2.0)
np.full_like(a, 2.5)
np.ones((2, 3))
np.linspace(0, 2, 5)
np.linspace(0, 2, 5, endpoint=False)
np.logspace(0, 2, 5)
np.geomspace(1, 100, 5)
np.arange(4) * a
np.arange(1, 3, 0.5)
np.atleast_1d(a)
np.atleast_2d(a)
np.squeeze(a[None, :])
np.reshape(C, (6, 4))
C.reshape((2, -1))
C.ravel()
np.meshgrid(a, p)[0]
np.meshgrid(a, p, indexing='ij')[1]
np.broadcast_to(a, (3, 4))
np.cumsum(a)
np.any(M > 2.4)
np.all(M > 0.4)
np.any(M > 1.9, axis=1)
np.all(M > 0.6, axis=0)
np.isclose(a, b)
np.logical_and(a > 1, b > 1)
np.logical_or(a > 1, b > 1)
~(a > 1)
(a > 1) ^ (b > 1)
np.logical_not(a > 1)
np.trapezoid(a, dx=0.3)
np.trapezoid(M, b)
np.trapezoid(M, dx=0.2, axis=0)
intg.simpson(p, dx=0.3)
intg.simpson(G, dx=0.3, axis=0)
intg.trapezoid(M, b)
intg.cumulative_trapezoid(a, b, initial=0)
intg.cumulative_trapezoid(M, dx=0.5, initial=0)
np.apply_along_axis(lambda g: g.sum() * g[0], -1, M)
np.interp(1.5, np.arange(4), a)
a.copy()
M.max() * 0 + M.min() * 0
np.max(a) - np.min(b)
np.max(M, axis=1)
np.dot(a, 2.0)
np.array(a) + np.asarray(b)
np.power(a, 3) - a**3
-a
+a
abs(-a)
a // 0.3
a % 0.3
3 - a
2 / a
""".strip().splitlines()
PROGRAMS = [
    "x = a.copy(); x[x > 1.2] = 0; r = x",
    "x = np.zeros_like(a); x[1:] = b[:-1]; r = x",
    "x = M.copy(); x[:, 1] *= 2; r = x",
    "x = M.copy(); x[M > 1.1] = 3.0; r = x",
    "x = M.copy(); x[1:, :-1] += 1; r = x",
    "x = np.zeros((3, 4)); x[...] = a; r = x",
    "x = np.ones(4); x *= a; x /= b; x -= 1; x += 2; r = x",
    "x = np.zeros(4)\nfor i in range(4): x[i] = a[i]*b[3-i]\nr = x",
    "x = C.copy(); x.transpose((1, 0, 2))[0] = 7; r = x",
    "x = np.array(a); np.clip(x, 0.9, 1.3, x); r = x",
    "x = np.zeros(4); m = a > 1.2; x[m] = b[m]*2; x[~m] = -a[~m]; r = x",
    "x = a.copy(); y = x[1:]; y[0] = 5; r = x",
    "x = np.empty(4); x[0] = 1; x[1:] = a[1:]; r = x",
    "x, y = np.linspace(0, 1, 4, retstep=True); r = x*y + a",
    "r = sum(v*w for v, w in zip(a, b))",
    "r = np.array([v**2 for v in a])",
    "r = np.array([M[i, j] for i in range(2) for j in range(2)])",
    "r = a[np.where(a > 1.2)[0][0]]",
    "r = np.argmax(a > 1.2)",
    "r = (a.max() > 2.0) * 1 + (M.min() < 0.6) * 2 + (b.max() <= 2.4) * 4 + (b.min() >= 0.7) * 8",
    "r = 1 if a.max() > 1.9 else 0",
    "u, v = M[0], M[1]\nr = u*v",
]
# arrays of symbolic length (4 when evaluated) and whole numbers k: selections, repeats, rows written by the iterations of a loop
SELECTIONS = [
    "r = a[a > 1.2]",
    "r = a[a > 1.2][b[a > 1.2] > 1.0]",
    "r = np.sum(k[k > 0])",
    "r = np.where(a > 1.2)[0]",
    "x = a.copy(); x[x > 1.2] = 7 - x[x > 1.2]; r = x",
    "r = np.repeat(a, k)",
    "r = np.repeat(a[k > 0], k[k > 0])",
    "r = np.repeat(np.arange(len(a))[k > 0], k[k > 0])",
    "r = np.concatenate(([0], np.cumsum(k)))",
    "r = np.insert(np.cumsum(k), 0, 0)",
    "x = np.zeros(3 + np.sum(k)); o = np.concatenate(([0], np.cumsum(k))) + 3\nfor i in range(len(a)): x[o[i]:o[i + 1]] = a[i] * np.arange(k[i])\nr = x",
    "x = np.zeros((np.sum(k), 2)); m = k > 0; q = k[m]; v = a[m]; o = np.concatenate(([0], np.cumsum(q)))\nfor i in range(len(v)): x[o[i]:o[i + 1], 1] = v[i]\nr = x",
    "x = np.zeros((len(a), 2)); x[:, 1] = a; d = x[:, 1] - 1.2; x[d > 0, 1] = d[d > 0]; r = x",
    "r = a[np.flatnonzero(k)]",
    # branches within an iteration
    "x = np.zeros(len(a))\nfor i in range(len(a)):\n    if a[i] > 1.2:\n        x[i] = b[i]\nr = x",
    "x = np.ones(len(a))\nfor i in range(len(a)):\n    if a[i] > 1.2:\n        x[i] = b[i]\n    elif b[i] > 1.5:\n        x[i] = 3 * a[i]\n    else:\n        y = 2 * b[i]; x[i] = y\n        x[i] += y\nr = x",
    "x = np.ones(len(a)); z = a.copy()\nfor i in range(len(a)):\n    if a[i] > 1.2: x[i] = b[i]\n    if b[i] > 1.5: x[i] = x[i] + z[i]; z[i] = 7\nr = x + z",
    "x = np.zeros((len(a), 3))\nfor i in range(len(a)):\n    for j in range(3):\n        if a[i] > b[i]: x[i, j] = j + a[i]\n        elif j > 1: x[i, j] = -b[i]\nr = x",
    "x = np.zeros((len(a), len(a)))\nfor i in range(len(a)):\n    if a[i] > 1.2:\n        for j in range(len(a)):\n            x[i, j] = b[j] if b[j] > a[i] else a[j]\n    else:\n        x[i] = b\nr = x",
    "x = np.zeros(len(a))\nfor i in range(len(a)):\n    if a[i] <= 1.2: continue\n    x[i] = b[i] if k[i] > 1 else -b[i]\nr = x",
]


def main():
    rg = np.random.default_rng(7)
    data = {k: rg.uniform(0.5, 2.5, s) for k, s in SHAPES.items()}
    bad = skipped = n = 0

    def env(kind, name, idx, extra):
        if name.startswith("first"):  # the only searches above
            return tm.mp.mpf(int(np.argmax(data["a"] > 1.2)))
        if name == "n":
            return tm.mp.mpf(4)
        if name.startswith("it"):
            return tm.mp.mpf(0)  # a generic iteration: the facts assumed of it hold of the first
        return tm.mp.mpf(float(data[name][idx]))

    glob = {"np": np, "intg": intg, "sp": sp}

    data["k"] = np.array([2, 0, 3, 1])
    for src in SNIPPETS + PROGRAMS + SELECTIONS:
        sel = src in SELECTIONS
        prog = src if src in PROGRAMS or sel else f"r = {src}"
        loc = {k: v.copy() for k, v in data.items()}
        with np.errstate(all="ignore"):
            exec(prog, dict(glob), loc)
        want = np.asarray(loc["r"])
        n += 1

        mod = types.ModuleType("snippet")
        mod.np, mod.intg, mod.sp = np, intg, sp

        def f():
            mod.__dict__.update({k: sym.array(k, *sh_, sign="+") for k, sh_ in SHAPES.items()})
            if sel:
                n = tm.var("n", "i", "+")
                mod.__dict__.update(a=sym.array("a", n, sign="+"), b=sym.array("b", n, sign="+"), k=sym.array("k", n, sign="0+", k="i"))
            exec(code, mod.__dict__)
            return mod.r

        code = compile(prog, "snippet", "exec")
        try:
            with sym.session([mod], {"compact": sel}):
                paths = explore(f)
        except sym.Unsupported as e:
            skipped += 1
            print("unsupported:", src, "--", e)
            continue
        paths = [q for q in paths if all(tm.evalf(c, env) for c in q[0])]
        if len(paths) != 1 or paths[0][1] != "ret":
            bad += 1
            print("PATHS", src, [(q[1], q[2]) for q in paths])
            continue
        res = paths[0][2]
        r = sym.lift(res)
        sh = () if isinstance(r, sym.S) else tuple(int(tm.evalf(q, env)) for q in r.shape_t)
        if sh != want.shape:
            bad += 1
            print("SHAPE", src, sh, want.shape)
            continue
        try:
            for idx in itertools.product(*map(range, sh)):
                t = r.t if isinstance(r, sym.S) else r.at(tuple(tm.num(i) for i in idx))
                v = tm.evalf(t, env)
                if not np.isclose(float(v), float(want[idx]), rtol=1e-9, atol=1e-12):
                    bad += 1
                    print("VALUE", src, idx, v, want[idx])
                    break
        except (sym.Unsupported, tm.EvalError) as e:
            skipped += 1
            print("not evaluated:", src, "--", type(e).__name__, e)
    print(f"{n} snippets, {skipped} outside the verifier's reach, {bad} wrong")
    return 1 if bad else 0


if __name__ == "__main__":
    sys.exit(main())
