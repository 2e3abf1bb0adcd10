"""Path exploration and proof back ends.

``explore(f)`` runs ``f`` (which executes the *real* code objects of /repo on symbolic values) once per
feasible path.  A decision on a symbolic condition that is neither implied nor excluded by the current
path condition forks.  ``prove(pc, goal)`` discharges a verification condition by (1) canonical forms,
(2) case splits on the indicator conditions with z3 pruning, (3) z3 with instances of sound axioms of the
transcendental functions.  ``refute`` searches a numeric counterexample of the VC.
"""

from __future__ import annotations

import random
import sys
import time
from fractions import Fraction as Fr

if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import mpmath as mp
import z3

from . import terms as tm
from .terms import T, Unsupported

RLIMIT = 6_000_000
MAXPATHS = 256


class _Ctx:
    def __init__(self, prefix, hyps):
        self.prefix = list(prefix)
        self.taken = []
        self.pc = list(hyps)
        self.alts = []
        self.nofork = False
        self.poison = None  # set when a symbolic loop was left other than by exhaustion
        self.local = None  # exploration of the branches within one generic loop iteration
        self.side = []  # loop-contract obligations met on the way: (path condition, goals)


class Local:
    """the branches taken within one generic loop iteration"""

    def __init__(self, outer):
        self.outer, self.prefix, self.taken, self.alts, self.conds = outer, [], [], [], []

    def branched(self):
        return bool(self.taken) or bool(self.outer and self.outer.branched())


class Engine:
    def __init__(self):
        self.cur = None
        self.solver_time = 0.0
        self.z3_calls = 0
        self.paths = 0

    def assume(self, c):
        if c is tm.TRUE:
            return
        self.cur.pc.append(c)

    def decide(self, c) -> bool:
        if c is tm.TRUE:
            return True
        if c is tm.FALSE:
            return False
        ctx = self.cur
        if ctx is None:
            raise Unsupported("symbolic branch outside exploration")
        c0 = simp_cond(c)
        if c0 is tm.TRUE:
            return True
        if c0 is tm.FALSE:
            return False
        at = ctx.local or ctx
        k = len(at.taken)
        if k < len(at.prefix):
            v = at.prefix[k]
        else:
            st = feasible(ctx.pc + [c])
            sf = feasible(ctx.pc + [tm.not_(c)])
            if st and sf and ctx.nofork:
                raise Unsupported("contract branches on a symbolic condition")
            if st and sf:
                at.alts.append(tuple(at.taken) + (False,))
                v = True
            elif st:
                v = True
            elif sf:
                v = False
            elif ctx.local:
                raise Unsupported("unreachable branch inside a generic loop iteration")
            else:
                raise Infeasible()
        at.taken.append(v)
        if ctx.local:
            at.conds.append(c if v else tm.not_(c))
        ctx.pc.append(c if v else tm.not_(c))
        return v


class Infeasible(Exception):
    pass


class PathEnd(BaseException):
    """an arbitrary loop iteration ended; carries the obligations of the loop contract"""

    def __init__(self, goals):
        self.goals = goals


ENGINE = Engine()


def simp_cond(c):
    try:
        p = tm.cond_poly(c)
    except Unsupported:
        return c
    if not p:
        return tm.FALSE
    if len(p) == 1 and () in p and p[()] == 1:
        return tm.TRUE
    return c


def explore(f, hyps=(), maxpaths=MAXPATHS):
    """Yield (pc, kind, value): kind 'ret' or 'raise'."""
    work = [()]
    out = []
    while work:
        pre = work.pop()
        ctx = _Ctx(pre, hyps)
        old, ENGINE.cur = ENGINE.cur, ctx
        try:
            try:
                v = f()
                if ctx.poison:
                    raise Unsupported(ctx.poison)
                res = ("ret", v)
            except Infeasible:
                res = None
            except PathEnd as e:
                res = ("goals", e.goals)
            except Unsupported:
                raise
            except Exception as e:  # the real code raised
                if ctx.local and ctx.local.branched():
                    raise Unsupported("exception on some branch inside a generic loop iteration") from e
                if getattr(e, "pyvc_unsupported", False):
                    raise Unsupported(str(e)) from e
                res = ("raise", e)
        finally:
            ENGINE.cur = old
        work.extend(ctx.alts)
        ENGINE.paths += 1
        out.extend((pc, "goals", g) for pc, g in ctx.side)
        if res is not None:
            out.append((list(ctx.pc), res[0], res[1]))
        if len(out) > maxpaths:
            raise Unsupported("too many paths")
    return out


# ------------------------------------------------------------------ z3
DEFAX = {}  # defined functions: name -> f(application term) -> facts that hold of it


class Z:
    def __init__(self):
        self.memo = {}
        self.axioms = []
        self.fnapps = {}
        self.defs = []

    def real(self, x):
        return z3.ToReal(x) if z3.is_int(x) else x

    def go(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._go(t)
        return r

    def _go(self, t):
        o, a = t.op, t.args
        if o == "num":
            q = a[0]
            if q.denominator == 1:
                return z3.RealVal(q.numerator)
            return z3.RealVal(f"{q.numerator}/{q.denominator}")
        if o == "true":
            return z3.BoolVal(True)
        if o == "false":
            return z3.BoolVal(False)
        if o == "var":
            v = z3.ToReal(z3.Int(a[0])) if a[1] == "i" else z3.Real(a[0])
            if a[2] == "+":
                self.axioms.append(v > 0)
            elif a[2] == "0+":
                self.axioms.append(v >= 0)
            return v
        if o == "app":
            f = z3.Function("A_" + a[0], *([z3.RealSort()] * (len(a) - 1)))
            v = f(*[self.go(x) for x in a[2:]]) if len(a) > 2 else z3.Real("A_" + a[0])
            if a[1] == "+":
                self.axioms.append(v > 0)
            elif a[1] == "0+":
                self.axioms.append(v >= 0)
            if a[0] in DEFAX:
                self.defs.append((a[0], t, v))
            return v
        if o == "bapp":
            f = z3.Function("P_" + a[0], *([z3.RealSort()] * (len(a) - 1)), z3.BoolSort())
            return f(*[self.go(x) for x in a[1:]])
        if o == "add":
            return z3.Sum([self.go(x) for x in a])
        if o == "mul":
            r = self.go(a[0])
            for x in a[1:]:
                r = r * self.go(x)
            return r
        if o == "pow":
            b, e = a
            if tm.isnum(e):
                q = e.args[0]
                if q.denominator == 1:
                    zb = self.go(b)
                    n = abs(int(q))
                    if n <= 8:
                        r = zb
                        for _ in range(n - 1):
                            r = r * zb
                        return r if q > 0 else 1 / r
                if q == Fr(1, 2):
                    zb = self.go(b)
                    s = z3.Function("sqrt", z3.RealSort(), z3.RealSort())(zb)
                    self.axioms.append(z3.Implies(zb >= 0, z3.And(s >= 0, s * s == zb)))
                    self.axioms.append(z3.Implies(zb > 0, s > 0))
                    return s
            zb, ze = self.go(b), self.go(e)
            v = z3.Function("pow", z3.RealSort(), z3.RealSort(), z3.RealSort())(zb, ze)
            self.axioms.append(z3.Implies(zb > 0, v > 0))
            self.axioms.append(z3.Implies(zb >= 0, v >= 0))
            self.axioms.append(z3.Implies(z3.And(zb > 1, ze > 0), v > 1))
            self.axioms.append(z3.Implies(z3.And(zb >= 1, ze >= 0), v >= 1))
            self.axioms.append(z3.Implies(z3.And(zb < 1, zb >= 0, ze > 0), v < 1))
            self.axioms.append(z3.Implies(z3.And(zb > 0, ze == 0), v == 1))
            self.fnapps.setdefault("pow", []).append((zb, ze, v))
            return v
        if o == "fn":
            n = a[0]
            if len(a) == 1:
                v = z3.Real("K_" + n)
                if n == "pi":
                    self.axioms.append(z3.And(v > z3.RealVal("314159265/100000000"), v < z3.RealVal("314159266/100000000")))
                return v
            args = [self.go(x) for x in a[1:]]
            if n == "abs":
                return z3.If(args[0] >= 0, args[0], -args[0])
            if n == "floor":
                return z3.ToReal(z3.ToInt(args[0]))
            if n == "ceil":
                return -z3.ToReal(z3.ToInt(-args[0]))
            if n == "trunc":
                return z3.If(args[0] >= 0, z3.ToReal(z3.ToInt(args[0])), -z3.ToReal(z3.ToInt(-args[0])))
            if n == "sqrt":
                return self.go(tm.pow_(a[1], tm.num(Fr(1, 2))))
            v = z3.Function("F_" + n, *([z3.RealSort()] * (len(args) + 1)))(*args)
            x = args[0]
            ax = self.axioms
            if n == "exp":
                ax += [v > 0, v >= 1 + x, z3.Implies(x <= 0, v <= 1), z3.Implies(x < 0, v < 1)]
            elif n == "log":
                ax += [z3.Implies(x > 1, v > 0), z3.Implies(z3.And(x > 0, x < 1), v < 0), z3.Implies(x == 1, v == 0), z3.Implies(x > 0, v <= x - 1)]
            elif n == "erf":
                ax += [v > -1, v < 1, z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0), z3.Implies(x == 0, v == 0)]
            elif n in ("sin", "cos"):
                ax += [v <= 1, v >= -1]
            elif n == "arctan":
                ax += [z3.Implies(x > 0, z3.And(v > 0, v < x)), z3.Implies(x == 0, v == 0), z3.Implies(x < 0, v < 0)]
            elif n == "gammainc":
                ax += [v >= 0, v <= 1]
            elif n == "gamma":
                ax += [z3.Implies(x > 0, v > 0)]
            elif n == "cosh":
                ax += [v >= 1]
            if len(args) == 1:
                self.fnapps.setdefault(n, []).append((x, v))
            return v
        if o == "ite":
            return z3.If(self.go(a[0]), self.go(a[1]), self.go(a[2]))
        if o == "lt":
            x, y = a
            if x.op == "inf" or y.op == "inf":
                raise Unsupported("inf compare")
            return self.go(x) < self.go(y)
        if o == "eq":
            return self.go(a[0]) == self.go(a[1])
        if o == "not":
            return z3.Not(self.go(a[0]))
        if o == "and":
            return z3.And([self.go(x) for x in a])
        if o == "red":
            # opaque: canonical identity only
            c = tm.canon(t)
            if not c or list(c) == [()]:
                return self.go(tm.num(c.get((), 0)))
            k = tm.pkey(c)
            v = z3.Real("R_%d" % (hash(k) & 0xFFFFFFFFFFFF))
            if a[0] == "sum" and tm.pnonneg(c):
                self.axioms.append(v >= 0)
            return v
        if o == "exists":
            return z3.Bool("X_%d" % (hash(tm.pkey(tm.canon(t))) & 0xFFFFFFFFFFFF))
        raise Unsupported(f"z3 {o}")

    def finish(self):
        done = 0
        while done < len(self.defs) and done < 40:  # the definitions' instances (they may bring further applications)
            name, t, v = self.defs[done]
            done += 1
            for f in DEFAX[name](t):
                self.axioms.append(self.go(f))
        ax = list(self.axioms)
        for n in ("exp", "log", "erf", "arctan"):
            apps = self.fnapps.get(n, [])[:8]
            for i in range(len(apps)):
                for j in range(i + 1, len(apps)):
                    (x, v), (y, w) = apps[i], apps[j]
                    c1, c2 = x < y, y < x
                    if n == "log":
                        c1, c2 = z3.And(x > 0, c1), z3.And(y > 0, c2)
                    ax += [z3.Implies(c1, v < w), z3.Implies(c2, w < v)]
        apps = self.fnapps.get("pow", [])[:6]
        for i in range(len(apps)):
            for j in range(len(apps)):
                if i != j:
                    (b, e, v), (b2, e2, w) = apps[i], apps[j]
                    ax.append(z3.Implies(z3.And(b == b2, b > 1, e < e2), v < w))
                    ax.append(z3.Implies(z3.And(e == e2, e > 0, b >= 0, b < b2), v < w))
        return ax


def instances(conds):
    """the universal facts among the conditions (no index below n has ...), at the indices the conditions speak of"""
    parts = []
    for c in conds:
        parts += c.args if c.op == "and" else (c,)
    univ = [c.args[0].args for c in parts if c.op == "not" and c.args[0].op == "exists"]
    if not univ:
        return []
    ground, bound = {}, set()
    subs = set().union(*[tm.subterms(c) for c in conds])
    bound = {u.args[1] if u.op == "red" else u.args[0] for u in subs if u.op in ("red", "exists")}
    for u in subs:
        if u.op == "app" and not tm.free_vars(u) & bound:
            ground.setdefault(u.args[0], []).append(u)
    out = []
    for bv, n, body in univ:
        bs = [(bv, n)]
        while body.op == "exists":
            bs.append(body.args[:2])
            body = body.args[2]
        vs = {b for b, _ in bs}
        at = {}
        for u in tm.subterms(body):
            if u.op == "app" and vs <= set(u.args[2:]):
                for g in ground.get(u.args[0], ()):
                    if len(g.args) == len(u.args):
                        new = {}
                        if all(new.setdefault(x, y) is y if x in vs else x is y for x, y in zip(u.args[2:], g.args[2:])):
                            at[tuple(new[b] for b, _ in bs)] = None
        for vals in sorted(at, key=lambda us: [u.h for u in us])[:12]:
            sb = dict(zip([b for b, _ in bs], vals))
            out.append(tm.not_(tm.and_(*[c for b, m in bs for c in (tm.le(tm.ZERO, sb[b]), tm.lt(sb[b], tm.subst(m, sb)))], tm.subst(body, sb))))
    return out


def _check(conds, rlimit=RLIMIT):
    t0 = time.time()
    s = z3.Solver()
    s.set("rlimit", rlimit)
    s.set("timeout", 60000)
    z = Z()
    for c in [*conds, *instances(conds)]:
        s.add(z.go(c))
    for a in z.finish():
        s.add(a)
    r = s.check()
    ENGINE.solver_time += time.time() - t0
    ENGINE.z3_calls += 1
    return r


_FMEMO = {}


def feasible(conds):
    key = frozenset(conds)
    r = _FMEMO.get(key)
    if r is None:
        try:
            # the facts about the same variables alone often settle it
            last = tm.free_vars(conds[-1]) if conds else set()
            near = [c for c in conds[:-1] if tm.free_vars(c) <= last]
            r = not (near and len(near) < len(conds) - 1 and _check([*near, conds[-1]], 100_000) == z3.unsat) and _check(conds, 600_000) != z3.unsat
        except Unsupported:
            r = True
        _FMEMO[key] = r
    return r


def z3_valid(hyps, goal):
    try:
        return _check(list(hyps) + [tm.not_(goal)]) == z3.unsat
    except Unsupported:
        return False


# ------------------------------------------------------------------ equality / goals
def ite_conds(t, acc):
    for u in tm.subterms(t):
        if u.op == "ite":
            acc.setdefault(u.args[0], None)
    return acc


def atoms_of(c, acc):
    if c.op == "not":
        atoms_of(c.args[0], acc)
    elif c.op == "and":
        for x in c.args:
            atoms_of(x, acc)
    elif c not in (tm.TRUE, tm.FALSE):
        acc[c] = None
    return acc


def prove_equal(hyps, a, b, depth=0, budget=None):
    """-> True (proved) / False (not proved)."""
    budget = budget if budget is not None else [400]
    budget[0] -= 1
    if budget[0] < 0:
        return False
    try:
        if tm.equal(a, b):
            return True
    except Unsupported:
        pass
    # case split on conditions
    conds = {}
    for t in (a, b):
        for c in ite_conds(t, {}):
            if not any(u.op == "var" and u.args[0].startswith("%") for u in tm.subterms(c)):
                atoms_of(c, conds)
    bound = set()
    for t in (a, b):
        for u in tm.subterms(t):
            if u.op in ("red", "exists"):
                bound.add(u.args[1] if u.op == "red" else u.args[0])
    conds = [c for c in conds if not any(v in bound for v in tm.subterms(c)) or not (tm.free_vars(c) & bound)]
    if conds:
        c = conds[0]
        ok = True
        for val, lit in ((tm.TRUE, c), (tm.FALSE, tm.not_(c))):
            if not feasible(list(hyps) + [lit]):
                continue
            if not prove_equal(list(hyps) + [lit], tm.subst(a, {c: val}), tm.subst(b, {c: val}), depth + 1, budget):
                ok = False
                break
        if ok:
            return True
        return False
    # sums (and other functionals) of tables that agree element by element
    for x, y in red_pairs(a, b):
        if same_red(hyps, x, y, depth):
            return prove_equal(hyps, tm.subst(a, {x: y}), b, depth + 1, budget)
    # use equalities in hyps: substitute var := term
    for h in hyps:
        if h.op == "eq":
            for x, y in (h.args, h.args[::-1]):
                if x.op in ("var", "app") and x not in tm.subterms(y) and (x in tm.subterms(a) or x in tm.subterms(b)):
                    try:
                        if prove_equal([g for g in hyps if g is not h], tm.subst(a, {x: y}), tm.subst(b, {x: y}), depth + 1, budget):
                            return True
                    except Unsupported:
                        pass
    return z3_valid(hyps, tm.eq(a, b))


def red_pairs(a, b):
    """functionals occurring in only one of two terms each, over tables of the same length (outermost first)"""
    ra, rb = ([u for u in tm.subterms(x) if u.op == "red"] for x in (a, b))
    if not ra or not rb or len(ra) > 12 or len(rb) > 12:
        return
    for x in ra:
        for y in rb:
            if x is y or x.args[0] != y.args[0] or len(x.args) != len(y.args) or x in rb or y in ra:
                continue
            if tm.free_vars(x) & {u.args[1] for u in ra} or tm.free_vars(y) & {u.args[1] for u in rb}:
                continue
            try:
                if tm.equal(x.args[2], y.args[2]):
                    yield x, y
            except Unsupported:
                pass


_SMEMO = {}


def _symbols(t):
    return {u.args[0] for u in tm.subterms(t) if u.op in ("var", "app", "bapp")}


def same_red(hyps, x, y, depth=0, budget=None):
    """the tables under two functionals agree element by element"""
    v = tm.var(f"e!{depth}", "i", "0+")
    while v in tm.subterms(x) or v in tm.subterms(y):
        v = tm.var(v.args[0] + "'", "i", "0+")
    if any(not (isinstance(p, tm.T) and isinstance(q, tm.T)) and p != q for p, q in zip(x.args[3:], y.args[3:])):
        return False
    ps = [(tm.subst(p, {x.args[1]: v}), tm.subst(q, {y.args[1]: v})) for p, q in zip(x.args[3:], y.args[3:]) if isinstance(p, tm.T)]
    ps = [(p, q) for p, q in ps if p is not q]
    for bounds in ((), (tm.lt(v, x.args[2]),)):  # of every element; of those in range
        use = [*hyps, *bounds]
        about = set().union(*[_symbols(z) for z in (*bounds, *[z for pq in ps for z in pq])])
        use = [h for h in use if _symbols(h) <= about and not any(u.op in ("red", "exists") for u in tm.subterms(h))]
        key = (tm.skey(tm.mk("pairs", *use, tm.ZERO, *[z for pq in ps for z in pq]), generated=True), tm.HYP_OPAQUE[0], tm.RED_OPAQUE[0])
        if key not in _SMEMO:
            _SMEMO[key] = all(prove_equal(use, p, q, depth + 1, [60]) for p, q in ps)
        if _SMEMO[key]:
            return True
    return False


def prove(hyps, goal):
    """Returns the back end name that discharged the VC or None."""
    try:
        g = simp_cond(goal)
        if g is tm.TRUE:
            return "canonical-form"
    except Unsupported:
        pass
    if goal.op == "eq":
        try:
            if tm.equal(*goal.args):
                return "canonical-form"
        except Unsupported:
            pass
        try:
            if prove_equal(hyps, *goal.args):
                return "case-split+canonical-form/z3"
        except Unsupported:
            return None
        return None
    if goal.op == "and":
        for g in goal.args:
            if prove(hyps, g) is None:
                return None
        return "conjunction"
    # functionals of tables that agree element by element are one and the same
    if any(u.op == "red" for u in tm.subterms(goal)):
        same = unify_reds(hyps, goal)
        if same:
            m = {}
            if z3_valid([tm.subst(h, same, m) for h in hyps], tm.subst(goal, same, m)):
                return "pointwise equality+z3"
    if goal.op == "not" and goal.args[0].op == "and" and any(u.op == "red" for u in tm.subterms(goal)):
        for g in goal.args[0].args:  # a disjunction: one of its members
            if prove(hyps, tm.not_(g)) is not None:
                return "disjunct"
    if z3_valid(hyps, goal):
        return "z3"
    return None


def unify_reds(hyps, goal):
    """functional -> the equal one chosen to stand for it, among those of the hypotheses and the goal"""
    reds = []
    for h in [*hyps, goal]:
        new = [u for u in tm.subterms(h) if u.op == "red" and u not in reds]
        bound = {u.args[1] for u in new}
        reds += sorted((u for u in new if not tm.free_vars(u) & bound), key=lambda u: u.h)
    if len(reds) > 16:
        return {}
    reps, same = [], {}
    for x in reds:
        for y in reps:
            if x.args[0] == y.args[0] and len(x.args) == len(y.args):
                try:
                    if tm.equal(x.args[2], y.args[2]) and same_red(hyps, x, y):
                        same[x] = y
                        break
                except Unsupported:
                    pass
        else:
            reps.append(x)
    return same


# ------------------------------------------------------------------ numeric refutation
class Env:
    """Random assignment of the VC's variables (respecting sorts, signs, ranges and array-length hints)."""

    def __init__(self, rng, ranges=None):
        self.rng = rng
        self.ranges = ranges or {}
        self.vals = {}

    def __call__(self, kind, name, idx, extra):
        key = (kind, name, idx)
        if key in self.vals:
            return self.vals[key]
        r = self.ranges.get(name)
        rng = self.rng
        if kind == "bapp":
            v = rng.random() < 0.5
        elif callable(r):
            v = mp.mpf(r(rng, idx, self))
        elif r is not None and isinstance(r, tuple):
            lo, hi = r[:2]
            if kind == "var" and extra and extra[0] == "i":
                v = mp.mpf(rng.randint(int(lo), int(hi)))
            elif lo > 0 and hi / lo > 50:
                v = mp.mpf(lo) * mp.power(mp.mpf(hi) / lo, rng.random())
            else:
                v = mp.mpf(lo + (hi - lo) * rng.random())
            if rng.random() < 0.05:
                v = mp.mpf(rng.choice([lo, hi]))
        elif kind == "var" and extra and extra[0] == "i":
            sign = extra[1] if len(extra) > 1 else ""
            v = mp.mpf(rng.randint(2 if sign == "+" else 0, 6))
        else:
            sign = (extra[1] if kind == "var" and len(extra) > 1 else (extra[0] if extra else ""))
            mag = mp.mpf(10) ** rng.uniform(-1.2, 1.0)
            v = mag if sign in ("+", "0+") else (mag if rng.random() < 0.5 else -mag)
            if sign != "+" and rng.random() < 0.06:
                v = mp.mpf(0)
        self.vals[key] = v
        return v

    def show(self):
        out = {}
        for (k, n, i), v in self.vals.items():
            nm = n if not i else f"{n}[{','.join(map(str, i))}]"
            out[nm] = bool(v) if isinstance(v, bool) else float(v)
        return out


def refute(hyps, goal, ranges=None, tries=300, seed=1, rtol=1e-7):
    """Random search for hyps & not goal. Returns env dict or None; equality compared with a relative tolerance."""
    rng = random.Random(seed)
    t_end = time.time() + 20
    for _ in range(tries):
        if time.time() > t_end:
            break
        env = Env(rng, ranges)
        try:
            memo = {}
            if not all(tm.evalf(h, env, memo) for h in hyps):
                continue
            if violates(goal, env, memo, rtol):
                d = env.show()
                return d
        except (tm.EvalError, ZeroDivisionError, ValueError, OverflowError, TypeError, mp.libmp.libhyper.NoConvergence):
            continue
    return None


def violates(goal, env, memo, rtol):
    if goal.op == "and":
        return any(violates(g, env, memo, rtol) for g in goal.args)
    if goal.op == "eq":
        x, y = (tm.evalf(v, env, memo) for v in goal.args)
        if mp.isnan(x) or mp.isnan(y):
            return False
        return abs(x - y) > rtol * (abs(x) + abs(y)) and abs(x - y) > 1e-280
    if goal.op in ("lt", "not") and (goal.op == "lt" or goal.args[0].op == "lt"):
        neg = goal.op == "not"
        x, y = (tm.evalf(v, env, memo) for v in (goal.args[0].args if neg else goal.args))
        tol = rtol * (abs(x) + abs(y))
        return (x < y - tol) if neg else (x > y + tol)
    return not tm.evalf(goal, env, memo)
