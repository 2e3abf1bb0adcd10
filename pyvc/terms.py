"""First-order terms over the reals, their canonical form, numeric evaluation, derivatives.

Terms are immutable, hash-consed tuples wrapped in :class:`T`.  The *canonical form* of a real
term is a Laurent polynomial over atoms (variables, array elements, exp/log/sin/erf/... of canonical
arguments, fractional powers, indicator functions of conditions, linear reductions).  Two terms with
the same canonical form are equal for every value of the variables for which both are defined.
"""

from __future__ import annotations

import math
from fractions import Fraction as Fr

import mpmath as mp

mp.mp.dps = 30


class Unsupported(Exception):
    """The engine does not model this construct (nothing is concluded from it)."""


_INTERN: dict = {}


class T:
    __slots__ = ("op", "args", "h", "_c")

    def __repr__(self):
        return show(self)


def mk(op, *args):
    key = (op,) + tuple(id(a) if isinstance(a, T) else a for a in args)
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        t.h = len(_INTERN)
        t._c = None
        _INTERN[key] = t
    return t


# ------------------------------------------------------------------ construction
def simplest_fraction(f: float) -> Fr:
    """The simplest rational that rounds to the double ``f`` (so 0.3333333333333333 -> 1/3)."""
    if f == int(f):
        return Fr(int(f))
    fr = Fr(f)
    half = Fr(math.ulp(f)) / 2
    lo, hi = fr - half, fr + half
    if fr < 0:
        return -simplest_fraction(-f)

    # Stern-Brocot: simplest fraction strictly within (lo, hi)
    def simp(a, b):
        fl = math.floor(a)
        if fl + 1 < b:
            return Fr(fl + 1)
        if a == fl:
            # a integer, open interval
            return fl + 1 / Fr(math.floor(1 / (b - fl)) + 1)
        r = simp(1 / (b - fl), 1 / (a - fl)) if b - fl != 0 else None
        return fl + 1 / r

    cand = simp(lo, hi)
    dec = Fr(repr(f))
    # prefer the decimal literal unless the rational is much simpler (e.g. 1/3 written as 1.0/3)
    if dec.denominator <= 10**9:
        return dec
    if cand.denominator <= 10**6:
        return cand
    return dec


def num(x) -> T:
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return mk("num", Fr(int(x)))
    if isinstance(x, Fr):
        return mk("num", x)
    if isinstance(x, int):
        return mk("num", Fr(x))
    f = float(x)
    if math.isnan(f):
        return mk("nan")
    if math.isinf(f):
        return mk("inf", 1 if f > 0 else -1)
    return mk("num", simplest_fraction(f))


ZERO, ONE = num(0), num(1)
TRUE, FALSE = mk("true"), mk("false")


def var(name, sort="r", sign=""):
    return mk("var", name, sort, sign)


def app(name, sign, *idx):
    return mk("app", name, sign, *idx)


def fn(name, *args):
    if name == "gammainc" and args[1].op == "num" and args[1].args[0] == 0:
        return ZERO
    return mk("fn", name, *args)


PI = fn("pi")


def isnum(t):
    return t.op == "num"


def add(*ts):
    c = Fr(0)
    out = []
    for t in ts:
        t = num(t)
        if t.op == "add":
            for u in t.args:
                if isnum(u):
                    c += u.args[0]
                else:
                    out.append(u)
        elif isnum(t):
            c += t.args[0]
        else:
            out.append(t)
    if c != 0 or not out:
        out.append(num(c))
    if len(out) == 1:
        return out[0]
    return mk("add", *out)


def mul(*ts):
    c = Fr(1)
    out = []
    for t in ts:
        t = num(t)
        if t.op == "mul":
            for u in t.args:
                if isnum(u):
                    c *= u.args[0]
                else:
                    out.append(u)
        elif isnum(t):
            c *= t.args[0]
        else:
            out.append(t)
    if c == 0:
        return ZERO
    if c != 1 or not out:
        out.insert(0, num(c))
    if len(out) == 1:
        return out[0]
    return mk("mul", *out)


def neg(t):
    return mul(num(-1), t)


def sub(a, b):
    return add(a, neg(num(b)))


def pow_(a, b):
    a, b = num(a), num(b)
    if isnum(b):
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if isnum(a) and e.denominator == 1 and a.args[0] != 0:
            return num(a.args[0] ** int(e))
        if isnum(a) and a.args[0] == 0 and e > 0:
            return ZERO
    if isnum(a) and a.args[0] == 0 and b.op == "var" and b.args[2] == "+":
        return ZERO
    return mk("pow", a, b)


def div(a, b):
    return mul(a, pow_(b, num(-1)))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk("ite", c, a, b)


def lt(a, b):
    a, b = num(a), num(b)
    if isnum(a) and isnum(b):
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a.op == "inf" or b.op == "inf":
        if a.op == "inf" and b.op == "inf":
            return TRUE if a.args[0] < b.args[0] else FALSE
        if a.op == "inf":
            return TRUE if a.args[0] < 0 else FALSE
        return TRUE if b.args[0] > 0 else FALSE
    if a is b:
        return FALSE
    c = _count(b) if a is ZERO else None
    if c is not None:
        return c
    return mk("lt", a, b)


def le(a, b):
    return not_(lt(b, a))


def eq(a, b):
    a, b = num(a), num(b)
    if a is b:
        return TRUE
    if isnum(a) and isnum(b):
        return FALSE
    c = _count(a) if b is ZERO else _count(b) if a is ZERO else None
    if c is not None:
        return not_(c)
    return mk("eq", a, b)


def _count(a):
    """the number of those for which a condition holds is not zero: there is one for which it does"""
    if a.op == "red" and a.args[0] == "sum" and len(a.args) == 4:
        b = a.args[3]
        if b.op == "ite" and b.args[1] is ONE and b.args[2] is ZERO:
            return mk("exists", a.args[1], a.args[2], b.args[0])
    return None


def not_(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.args[0]
    return mk("not", c)


def and_(*cs):
    out = []
    for c in cs:
        if c is FALSE:
            return FALSE
        if c is TRUE:
            continue
        if c.op == "and":
            out.extend(c.args)
        else:
            out.append(c)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk("and", *out)


def or_(*cs):
    return not_(and_(*[not_(c) for c in cs]))


def red(kind, bv, n, body, *extra):
    """A reduction over index ``bv`` in [0, n): ``kind`` names the functional, linear in ``body``."""
    return mk("red", kind, bv, n, body, *extra)


_fresh = [0]


def fresh(prefix="_i", sort="i"):
    _fresh[0] += 1
    return var(f"{prefix}{_fresh[0]}", sort)


# ------------------------------------------------------------------ traversal
def subterms(t, acc=None):
    acc = set() if acc is None else acc
    st = [t]
    while st:
        x = st.pop()
        if x in acc:
            continue
        acc.add(x)
        for a in x.args:
            if isinstance(a, T):
                st.append(a)
    return acc


def free_vars(t, memo=None):
    """variables that occur outside the binders of them"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is None:
        if t.op == "var":
            r = frozenset([t])
        else:
            r = frozenset().union(*[free_vars(a, memo) for a in t.args if isinstance(a, T)])
            if t.op == "red":
                r = (free_vars(t.args[3], memo) | frozenset().union(*[free_vars(a, memo) for a in t.args[4:] if isinstance(a, T)])) - {t.args[1]} | free_vars(t.args[2], memo)
            elif t.op == "exists":
                r = free_vars(t.args[2], memo) - {t.args[0]} | free_vars(t.args[1], memo)
        memo[t] = r
    return r


def subst(t, mapping, memo=None):
    memo = {} if memo is None else memo

    def go(x):
        if x in mapping:
            return mapping[x]
        r = memo.get(x)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in x.args):
            r = x
        else:
            new = [go(a) if isinstance(a, T) else a for a in x.args]
            r = rebuild(x.op, new)
        memo[x] = r
        return r

    return go(t)


def rebuild(op, a):
    if op == "add":
        return add(*a)
    if op == "mul":
        return mul(*a)
    if op == "pow":
        return pow_(*a)
    if op == "ite":
        return ite(*a)
    if op == "lt":
        return lt(*a)
    if op == "eq":
        return eq(*a)
    if op == "not":
        return not_(a[0])
    if op == "and":
        return and_(*a)
    if op == "fn":
        return fn(*a)
    return mk(op, *a)


def show(t, d=0):
    if d > 12:
        return "…"
    o, a = t.op, t.args
    r = lambda x: show(x, d + 1)  # noqa: E731
    if o == "num":
        return str(a[0])
    if o == "var":
        return a[0]
    if o == "app":
        return f"{a[0]}[{','.join(r(x) for x in a[2:])}]"
    if o == "fn":
        return a[0] if len(a) == 1 else f"{a[0]}({', '.join(r(x) for x in a[1:])})"
    if o == "add":
        return "(" + " + ".join(r(x) for x in a) + ")"
    if o == "mul":
        return "*".join(r(x) for x in a)
    if o == "pow":
        return f"{r(a[0])}**{r(a[1])}"
    if o == "ite":
        return f"ite({r(a[0])}, {r(a[1])}, {r(a[2])})"
    if o == "lt":
        return f"({r(a[0])} < {r(a[1])})"
    if o == "eq":
        return f"({r(a[0])} == {r(a[1])})"
    if o == "not":
        return f"!{r(a[0])}"
    if o == "and":
        return "(" + " & ".join(r(x) for x in a) + ")"
    if o == "red":
        return f"{a[0]}[{r(a[1])}<{r(a[2])}]({', '.join(r(x) if isinstance(x, T) else str(x) for x in a[3:])})"
    return o + str(tuple(r(x) if isinstance(x, T) else x for x in a))


# ------------------------------------------------------------------ canonical form
# poly: dict mono -> Fr ; mono: tuple of (atom_id, Fr exponent) sorted
ATOMS: list = []  # id -> (key, pos(bool), info)
_ATOM_ID: dict = {}
MAXTERMS = 4000


class TooBig(Unsupported):
    pass


def atom(key, pos=False, nonneg=False, deps=frozenset(), idem=False):
    i = _ATOM_ID.get(key)
    if i is None:
        i = len(ATOMS)
        ATOMS.append((key, pos, nonneg or pos, deps, idem))
        _ATOM_ID[key] = i
    return i


def pconst(c):
    c = Fr(c)
    return {(): c} if c else {}


def padd(p, q, s=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def pscale(p, s):
    return {m: c * s for m, c in p.items()} if s else {}


def mmul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        v = d.get(a, 0) + e
        if ATOMS[a][4] and v > 1:
            v = Fr(1)
        if v:
            d[a] = v
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def _fix(mono, coef):
    """Expand B-atoms with exponent >= 1 and sin^2 into polynomials."""
    for a, e in mono:
        key = ATOMS[a][0]
        if key[0] == "B" and (e >= 1):
            k = math.floor(e)
            rest = tuple((b, f) if b != a else (a, e - k) for b, f in mono if not (b == a and e == k))
            p = {rest: coef}
            base = dict(key[1])
            for _ in range(k):
                p = pmul(p, base)
            return p
        if key[0] == "E" and not 0 <= e < 1 and len(key[1]) == 1 and key[1][0][1] == 1:
            lk = ATOMS[key[1][0][0]][0]
            if lk[:2] == ("F", "log") and len(lk[2]) == 1 and lk[2][0][0] == ():
                k = math.floor(e)
                rest = tuple((b, f) if b != a else (a, e - k) for b, f in mono if not (b == a and e == k))
                return _norm({rest: coef * lk[2][0][1] ** k})
        if key[0] == "F" and key[1] == "sin" and e >= 2:
            c = atom(("F", "cos", key[2]), deps=ATOMS[a][3])
            k = math.floor(e / 2)
            rest = tuple((b, f) if b != a else (a, e - 2 * k) for b, f in mono if not (b == a and e == 2 * k))
            p = {rest: coef}
            for _ in range(k):
                p = pmul(p, {(): Fr(1), ((c, Fr(2)),): Fr(-1)})
            return p
    return None


def pmul(p, q):
    if len(p) > len(q):
        p, q = q, p
    if len(p) == 1 and () in p:
        return pscale(q, p[()])
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = mmul(m1, m2)
            c = c1 * c2
            f = _fix(m, c)
            if f is None:
                v = r.get(m, 0) + c
                if v:
                    r[m] = v
                else:
                    r.pop(m, None)
            else:
                for mm, cc in f.items():
                    v = r.get(mm, 0) + cc
                    if v:
                        r[mm] = v
                    else:
                        r.pop(mm, None)
        if len(r) > MAXTERMS:
            raise TooBig("polynomial too large")
    return r


def pkey(p):
    return tuple(sorted(p.items()))


def pdeps(p):
    s = frozenset()
    for m in p:
        for a, _ in m:
            s |= ATOMS[a][3]
    return s


def pvars(p):
    return pdeps(p)


def ppos(p):
    """Is the polynomial certainly > 0 (sufficient condition)?"""
    strict = False
    if not p:
        return False
    for m, c in p.items():
        if c < 0:
            return False
        s = True
        for a, e in m:
            k, pos, nn, _, _ = ATOMS[a]
            if pos:
                continue
            s = False
            if nn and e > 0:
                continue
            if e.denominator == 1 and e.numerator % 2 == 0 and e > 0:
                continue
            return False
        strict = strict or s
    return strict


def mono_pos(m):
    return all(ATOMS[a][1] for a, _ in m)


def content(p):
    """Factor p = coef * mono * p' with p' primitive (Laurent monomial content over all atoms)."""
    atoms, cnt = {}, {}
    for m in p:
        for a, e in m:
            cnt[a] = cnt.get(a, 0) + 1
            if a not in atoms or e < atoms[a]:
                atoms[a] = e
    for a, c in cnt.items():
        if c < len(p) and atoms[a] > 0:
            atoms[a] = Fr(0)
    g = tuple(sorted((a, e) for a, e in atoms.items() if e and not ATOMS[a][4]))
    inv = tuple((a, -e) for a, e in g)
    q = {}
    for m, c in p.items():
        q[mmul(m, inv)] = c
    lead = min(q)
    coef = abs(q[lead])
    q = {m: c / coef for m, c in q.items()}
    return coef, g, q


def contains_ite(t, memo={}):
    r = memo.get(t)
    if r is None:
        if t.op == "ite":
            r = t
        elif t.op in ("red",) or t.op in ("lt", "eq", "not", "and"):
            r = False
        else:
            r = False
            for a in t.args:
                if isinstance(a, T):
                    r = contains_ite(a)
                    if r:
                        break
        memo[t] = r
    return r


PRIMES = {}


def log_const(c: Fr):
    """Canonical poly of log(c), c>0 rational."""
    if c == 1:
        return {}

    def fac(n):
        d = {}
        while n % 10 == 0:
            d[10] = d.get(10, 0) + 1
            n //= 10
        p = 2
        while p * p <= n and p < 2000:
            while n % p == 0:
                d[p] = d.get(p, 0) + 1
                n //= p
            p += 1
        if n > 1:
            d[n] = d.get(n, 0) + 1
        return d

    out = {}

    def put(p, e):
        if p == 5:
            put(10, e)
            put(2, -e)
            return
        a = atom(("F", "log", pkey(pconst(p))), pos=True)
        out[((a, Fr(1)),)] = out.get(((a, Fr(1)),), Fr(0)) + e

    for p, e in fac(c.numerator).items():
        put(p, Fr(e))
    for p, e in fac(c.denominator).items():
        put(p, Fr(-e))
    return {m: c for m, c in out.items() if c}


def canon(t: T):
    if t._c is None:
        t._c = _canon(t)
    return t._c


def _lift(t, fbuild):
    return None


def _canon(t):
    o, a = t.op, t.args
    if o == "num":
        return pconst(a[0])
    if o == "nan" or o == "inf":
        return {((atom((o,) + a), Fr(1)),): Fr(1)}
    if o == "var":
        return {((atom(("v",) + a, pos=a[2] == "+", nonneg=a[2] in ("+", "0+"), deps=frozenset([a[0]])), Fr(1)),): Fr(1)}
    if o == "app":
        ik = tuple(pkey(canon(x)) for x in a[2:])
        d = frozenset()
        for x in a[2:]:
            d |= pdeps(canon(x))
        return {((atom(("app", a[0], a[1]) + ik, pos=a[1] == "+", nonneg=a[1] in ("+", "0+"), deps=d), Fr(1)),): Fr(1)}
    if o == "add":
        p = {}
        for x in a:
            p = padd(p, canon(x))
        return p
    if o == "mul":
        p = pconst(1)
        for x in a:
            p = pmul(p, canon(x))
        return p
    if o == "ite":
        c = cond_poly(a[0])
        pa, pb = canon(a[1]), canon(a[2])
        return padd(pmul(c, padd(pa, pb, -1)), pb)
    if o in ("pow", "fn"):
        it = None
        for x in a:
            if isinstance(x, T):
                it = contains_ite(x)
                if it:
                    break
        if it:
            c = it.args[0]
            t1 = subst(t, {c: TRUE})
            t2 = subst(t, {c: FALSE})
            if t1 is t or t2 is t:
                raise Unsupported("ite lifting")
            return canon(ite(c, t1, t2))
        if o == "pow":
            if isnum(a[1]):
                return ppow(canon(a[0]), a[1].args[0])
            ce = canon(a[1])
            if len(ce) == 0:
                return pconst(1)
            if len(ce) == 1 and () in ce:
                return ppow(canon(a[0]), ce[()])
            lb = plog(canon(a[0]))
            return pexp(pmul(ce, lb))
        return pfn(a[0], [x for x in a[1:]])
    if o == "red":
        return pred(t)
    if o in ("true", "false", "lt", "eq", "not", "and", "bapp", "exists"):
        return cond_poly(t)
    raise Unsupported(f"canon {o}")


def ppow(p, e: Fr):
    if e == 0:
        return pconst(1)
    if not p:
        if e > 0:
            return {}
        raise Unsupported("division by zero")
    if e.denominator == 1 and e > 0 and (len(p) > 1) and e <= 6:
        r = pconst(1)
        for _ in range(int(e)):
            r = pmul(r, p)
        return r
    if len(p) == 1:
        ((m, c),) = p.items()
        if e.denominator == 1:
            if any(ATOMS[a][4] for a, _ in m) and e < 0:
                raise Unsupported("division by indicator")
            return _norm({tuple((a, x * e if not ATOMS[a][4] else x) for a, x in m): Fr(c) ** int(e)})
        # fractional power: need positivity of every atom (or of coefficient)
        if c > 0 and mono_pos(m):
            cc = constpow(c, e)
            return pmul(cc, _norm({tuple((a, x * e) for a, x in m): Fr(1)}))
        # split off positive part
        pos = tuple((a, x) for a, x in m if ATOMS[a][1])
        rest = tuple((a, x) for a, x in m if not ATOMS[a][1])
        base = {rest: Fr(1 if c > 0 else -1)}
        k = atom(("B", pkey(base)), nonneg=True, deps=pdeps(base))
        r = pmul(constpow(abs(c), e), _norm({tuple((a, x * e) for a, x in pos): Fr(1)}))
        return pmul(r, {((k, e),): Fr(1)})
    # B atoms with negative exponents inside: clear
    bad = {}
    for m in p:
        for a, x in m:
            if ATOMS[a][0][0] == "B" and x < 0:
                bad[a] = max(bad.get(a, 0), math.ceil(-x))
    if bad:
        q = p
        for a, k in bad.items():
            q = pmul(q, {((a, Fr(k)),): Fr(1)}) if False else _mulB(q, a, k)
        if not q:
            raise Unsupported("zero base")
        inv = tuple(sorted((a, -Fr(k) * e) for a, k in bad.items()))
        return pmul(ppow(q, e), _norm({inv: Fr(1)}))
    coef, g, q = content(p)
    if g or coef != 1 or len(q) == 1:
        r = ppow({g: coef}, e) if (e.denominator == 1 or mono_pos(g)) else None
        if r is None:
            # keep non-positive content inside
            gp = tuple((a, x) for a, x in g if ATOMS[a][1])
            gn = tuple((a, x) for a, x in g if not ATOMS[a][1])
            q = {mmul(m, gn): c for m, c in q.items()}
            r = ppow({gp: coef}, e)
        return pmul(r, ppow_prim(q, e))
    return ppow_prim(q, e)


def _mulB(q, a, k):
    """multiply q by B_a^k keeping B exponents (so negative exponents cancel exactly)."""
    out = {}
    for m, c in q.items():
        d = dict(m)
        d[a] = d.get(a, Fr(0)) + k
        if d[a] == 0:
            del d[a]
        mm = tuple(sorted(d.items()))
        f = _fix(mm, c)
        for m2, c2 in (f or {mm: c}).items():
            v = out.get(m2, 0) + c2
            if v:
                out[m2] = v
            else:
                out.pop(m2, None)
    return out


def ppow_prim(q, e):
    # canonical sign: for integer exponents make the leading coefficient positive
    if e.denominator == 1:
        lead = min(q)
        s = 1
        if q[lead] < 0:
            q = pscale(q, -1)
            s = -1 if int(e) % 2 else 1
        k = atom(("B", pkey(q)), pos=ppos(q), deps=pdeps(q))
        return {((k, e),): Fr(s)}
    k = atom(("B", pkey(q)), pos=ppos(q), nonneg=True, deps=pdeps(q))
    return _norm({((k, e),): Fr(1)})


def _norm(p):
    out = {}
    for m, c in p.items():
        m = tuple(sorted((a, x) for a, x in m if x))
        f = _fix(m, c)
        for m2, c2 in (f or {m: c}).items():
            v = out.get(m2, 0) + c2
            if v:
                out[m2] = v
            else:
                out.pop(m2, None)
    return out


def constpow(c: Fr, e: Fr):
    """c**e for c>0 as poly: rational if exact else exp(e*log c) atoms over prime logs."""
    if c == 1:
        return pconst(1)
    return pexp(pscale(log_const(c), e))


def plog(p):
    if not p:
        raise Unsupported("log of zero")
    if len(p) == 1:
        ((m, c),) = p.items()
        if c > 0:
            out = log_const(c)
            rest = []
            for a, x in m:
                key, pos = ATOMS[a][0], ATOMS[a][1]
                if key[0] == "E":
                    out = padd(out, {key[1]: x})
                elif pos:
                    out = padd(out, {((logatom(a), Fr(1)),): x})
                else:
                    rest.append((a, x))
            if rest:
                q = {tuple(rest): Fr(1)}
                k = atom(("F", "log", pkey(q)), deps=pdeps(q))
                out = padd(out, {((k, Fr(1)),): Fr(1)})
            return out
        k = atom(("F", "log", pkey(p)), deps=pdeps(p))
        return {((k, Fr(1)),): Fr(1)}
    bad = {}
    for m in p:
        for a, x in m:
            if ATOMS[a][0][0] == "B" and x < 0:
                bad[a] = max(bad.get(a, 0), math.ceil(-x))
    if bad and all(ATOMS[a][1] for a in bad):
        q = p
        for a, k in bad.items():
            q = _mulB(q, a, k)
        out = plog(q)
        for a, k in bad.items():
            out = padd(out, {((logatom(a), Fr(1)),): Fr(-k)})
        return out
    coef, g, q = content(p)
    gp = tuple((a, x) for a, x in g if ATOMS[a][1])
    gn = tuple((a, x) for a, x in g if not ATOMS[a][1])
    q = {mmul(m, gn): c for m, c in q.items()}
    out = padd(log_const(coef), plog({gp: Fr(1)})) if gp else log_const(coef)
    if len(q) == 1:
        return padd(out, plog(q))
    k = atom(("B", pkey(q)), pos=ppos(q), deps=pdeps(q))
    return padd(out, {((logatom(k), Fr(1)),): Fr(1)})


def logatom(a):
    q = {((a, Fr(1)),): Fr(1)}
    return atom(("F", "log", pkey(q)), deps=ATOMS[a][3])


def pexp(p):
    m = []
    coef = Fr(1)
    extra = pconst(1)
    for mono, c in p.items():
        # exp(c*log(x)) -> x**c
        if len(mono) == 1 and mono[0][1] == 1 and ATOMS[mono[0][0]][0][:2] == ("F", "log"):
            inner = dict(ATOMS[mono[0][0]][0][2])
            if len(inner) == 1:
                ((im, ic),) = inner.items()
                if im == ():
                    if c.denominator == 1:
                        coef *= ic ** int(c)
                        continue
                elif ic == 1 and len(im) == 1 and im[0][1] == 1 and ATOMS[im[0][0]][1]:
                    extra = pmul(extra, _norm({((im[0][0], c),): Fr(1)}))
                    continue
                elif ic == 1 and c.denominator == 1:
                    extra = pmul(extra, ppow(inner, c))
                    continue
        d = frozenset()
        for a, _ in mono:
            d |= ATOMS[a][3]
        if mono == ():
            k = atom(("E", ()), pos=True)
        else:
            k = atom(("E", mono), pos=True, deps=d)
        m.append((k, c))
    return pmul(extra, _norm({tuple(sorted(m)): coef}))


ODD = {"sin", "erf", "Si", "arctan", "sinh", "tanh", "arcsin"}
EVEN = {"cos", "cosh", "abs"}
POSFN = {"cosh": True, "gamma": False}


HYP_OPAQUE, RED_OPAQUE = [False], [False]


class opaque:
    """within: sinh, cosh and tanh are functions of their own (not expanded into exponentials); sums are
    atoms, equal when they are written alike (the prover compares the others summand by summand)"""

    def __init__(self, reds=True):
        self.reds = reds

    def __enter__(self):
        self.set(True, self.reds)

    def __exit__(self, *a):
        self.set(False, False)

    @staticmethod
    def set(h, r):
        HYP_OPAQUE[0], RED_OPAQUE[0] = h, r
        for t in list(_INTERN.values()):
            t._c = None


def skey(t, generated=False):
    """the term as written, up to the names of bound variables (and of the free variables the verifier generated)"""
    bound, ids, out, free = {}, {}, [], {}
    todo = [t]
    while todo:
        x = todo[-1]
        if x in ids:
            todo.pop()
            continue
        if x.op in ("red", "exists"):
            bv = x.args[1] if x.op == "red" else x.args[0]
            bound.setdefault(bv, len(bound))
        kids = [a for a in x.args if isinstance(a, T) and a not in ids]
        if kids:
            todo.extend(reversed(kids))
            continue
        todo.pop()
        ids[x] = len(out)
        if x in bound:
            out.append(("bv", bound[x]))
        elif generated and x.op == "var" and "!" in x.args[0]:
            out.append(("fv", free.setdefault(x.args[0], len(free)), *x.args[1:]))
        else:
            out.append((x.op, *[("t", ids[a]) if isinstance(a, T) else a for a in x.args]))
    return tuple(out)


def pfn(name, args):
    if name in ("pi", "euler"):
        return {((atom(("F", name), pos=True), Fr(1)),): Fr(1)}
    if name == "exp":
        return pexp(canon(args[0]))
    if name == "log":
        return plog(canon(args[0]))
    if name == "sqrt":
        return ppow(canon(args[0]), Fr(1, 2))
    ps = [canon(x) for x in args]
    if name in ("sin", "cos"):
        return ptrig(name, ps[0])
    if name in ("sinh", "cosh") and not HYP_OPAQUE[0]:
        e1, e2 = pexp(ps[0]), pexp(pscale(ps[0], -1))
        return pscale(padd(e1, e2, -1 if name == "sinh" else 1), Fr(1, 2))
    if name == "tanh" and not HYP_OPAQUE[0]:
        e1, e2 = pexp(ps[0]), pexp(pscale(ps[0], -1))
        return pmul(padd(e1, e2, -1), ppow(padd(e1, e2), Fr(-1)))
    if name == "erfc":
        return padd(pconst(1), pfn1("erf", ps[0]), -1)
    if name == "abs":
        p = ps[0]
        if not p:
            return {}
        if ppos(p):
            return p
        if ppos(pscale(p, -1)):
            return pscale(p, -1)
        coef, g, q = content(p)
        if mono_pos(g):
            lead = min(q)
            if q[lead] < 0:
                q = pscale(q, -1)
            k = atom(("F", "abs", pkey(q)), nonneg=True, deps=pdeps(q))
            return pmul({g: coef}, {((k, Fr(1)),): Fr(1)})
    if len(ps) == 1:
        return pfn1(name, ps[0])
    d = frozenset()
    for p in ps:
        d |= pdeps(p)
    k = atom(("F", name) + tuple(pkey(p) for p in ps), deps=d, pos=name in POSF2, nonneg=name in POSF2)
    return {((k, Fr(1)),): Fr(1)}


POSF2 = set()


def pfn1(name, p):
    s = 1
    if name in ODD or name in EVEN:
        if not p:
            if name in ("cos", "cosh"):
                return pconst(1)
            return {}
        lead = min(p)
        if p[lead] < 0:
            p = pscale(p, -1)
            if name in ODD:
                s = -1
    const = len(p) == 1 and () in p
    if const and name == "trunc":
        c = p[()]
        return pconst(int(c))
    if const and name == "floor":
        return pconst(math.floor(p[()]))
    if const and name == "ceil":
        return pconst(math.ceil(p[()]))
    if const and name == "gamma" and p[()].denominator == 1 and 0 < p[()] < 20:
        return pconst(math.factorial(int(p[()]) - 1))
    k = atom(("F", name, pkey(p)), pos=name in ("cosh",), nonneg=name in ("abs",), deps=pdeps(p))
    return {((k, Fr(1)),): Fr(s)}


def ptrig(name, p):
    """sin/cos of a sum expanded over its monomials (angle addition, integer multiples kept)."""
    if not p:
        return {} if name == "sin" else pconst(1)
    items = sorted(p.items())
    # multiples of pi
    if len(items) > 4:
        return pfn1(name, p)

    def single(m, c):
        # returns (sin, cos)
        s = 1
        if c < 0:
            s, c = -1, -c
        # integer part expansions for multiples: use base angle c/ k with k integer numerator
        k = c.numerator if c.numerator <= 4 else 1
        base = c / k
        q = {m: base}
        d = pdeps(q)
        S = {((atom(("F", "sin", pkey(q)), deps=d), Fr(1)),): Fr(1)}
        C = {((atom(("F", "cos", pkey(q)), deps=d), Fr(1)),): Fr(1)}
        if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]][0] == ("F", "pi"):
            if base.denominator == 1:
                S, C = {}, pconst((-1) ** int(base))
            elif base.denominator == 2:
                S, C = pconst((-1) ** ((int(base * 2) - 1) // 2)), {}
        rs, rc = {}, pconst(1)
        for _ in range(k):
            rs, rc = padd(pmul(rs, C), pmul(rc, S)), padd(pmul(rc, C), pmul(rs, S), -1)
        return pscale(rs, s), rc

    rs, rc = {}, pconst(1)
    for m, c in items:
        S, C = single(m, c)
        rs, rc = padd(pmul(rs, C), pmul(rc, S)), padd(pmul(rc, C), pmul(rs, S), -1)
    return rs if name == "sin" else rc


# ---- conditions as 0/1 polynomials
def cond_poly(c):
    if c._c is not None:
        return c._c
    c._c = _cond_poly(c)
    return c._c


def _cond_poly(c):
    o, a = c.op, c.args
    if o == "true":
        return pconst(1)
    if o == "false":
        return {}
    if o == "not":
        return padd(pconst(1), cond_poly(a[0]), -1)
    if o == "and":
        p = pconst(1)
        for x in a:
            p = pmul(p, cond_poly(x))
        return p
    if o == "bapp":
        ik = tuple(pkey(canon(x)) for x in a[1:])
        d = frozenset()
        for x in a[1:]:
            d |= pdeps(canon(x))
        return {((atom(("bapp", a[0]) + ik, nonneg=True, deps=d, idem=True), Fr(1)),): Fr(1)}
    if o == "exists":
        bv, n, body = a
        p = cond_poly(body)
        if not p:
            return {}
        npk = canon(n)
        if p == {(): Fr(1)}:
            return ind_poly(npk, "lt")
        h = max([_mono_height(m) for m in p] + [0])
        to = f"${h + 1}"
        p = cond_poly(subst(body, {bv: mk("var", to, *bv.args[1:])}))
        d = (pdeps(p) - {to}) | pdeps(npk)
        return {((atom(("exists", h + 1, pkey(npk), pkey(p)), nonneg=True, deps=d, idem=True), Fr(1)),): Fr(1)}
    if o in ("lt", "eq"):
        for x in a:
            it = contains_ite(x)
            if it:
                k = it.args[0]
                return canon(ite(k, mk("asreal", subst(c, {k: TRUE})), mk("asreal", subst(c, {k: FALSE})))) if False else _ite_cond(k, subst(c, {k: TRUE}), subst(c, {k: FALSE}))
        p = padd(canon(a[1]), canon(a[0]), -1)
        return ind_poly(p, o)
    if o == "ite":
        return _ite_cond(a[0], a[1], a[2])
    raise Unsupported(f"condition {o}")


def _ite_cond(k, x, y):
    cp = cond_poly(k)
    px, py = cond_poly(x), cond_poly(y)
    return padd(pmul(cp, padd(px, py, -1)), py)


def ind_poly(p, o):
    if o == "lt":  # p > 0
        if not p:
            return {}
        if len(p) == 1 and () in p:
            return pconst(1 if p[()] > 0 else 0)
        if ppos(p):
            return pconst(1)
        if ppos(pscale(p, -1)):
            return {}
        coef, g, q = content(p)
        gp = tuple((a, x) for a, x in g if ATOMS[a][1])
        gn = tuple((a, x) for a, x in g if not ATOMS[a][1])
        q = {mmul(m, gn): c for m, c in q.items()}
        k = atom(("ind", ">", pkey(q)), nonneg=True, deps=pdeps(q), idem=True)
        return {((k, Fr(1)),): Fr(1)}
    if not p:
        return pconst(1)
    if len(p) == 1 and () in p:
        return {}
    if ppos(p) or ppos(pscale(p, -1)):
        return {}
    coef, g, q = content(p)
    gp = tuple((a, x) for a, x in g if ATOMS[a][1])
    gn = tuple((a, x) for a, x in g if not ATOMS[a][1])
    q = {mmul(m, gn): c for m, c in q.items()}
    if q[min(q)] < 0:
        q = pscale(q, -1)
    k = atom(("ind", "=", pkey(q)), nonneg=True, deps=pdeps(q), idem=True)
    return {((k, Fr(1)),): Fr(1)}


# ---- reductions
def _height(p, seen=None):
    h = 0
    for d in pdeps(p):
        if d.startswith("$"):
            h = max(h, int(d[1:]))
    return h


def _bound_height_atom(a, memo={}):
    r = memo.get(a)
    if r is not None:
        return r
    key = ATOMS[a][0]
    h = 0

    def walk(k):
        nonlocal h
        if isinstance(k, tuple):
            if len(k) and k[0] == "R":
                h = max(h, k[1])
            for x in k:
                walk(x)
        elif isinstance(k, int) and not isinstance(k, bool):
            pass

    # recursively look into poly keys: atoms are ints inside monos
    def pol(k):
        nonlocal h
        if isinstance(k, tuple):
            if len(k) == 2 and isinstance(k[0], int) and isinstance(k[1], Fr):
                h = max(h, _bound_height_atom(k[0]))
                return
            for x in k:
                pol(x)

    if key[0] in ("R", "exists"):
        h = key[1]
    pol(key)
    memo[a] = h
    return h


def _mono_height(m):
    h = 0
    for a, _ in m:
        h = max(h, _bound_height_atom(a))
    return h


def pnonneg(p):
    """Is the polynomial certainly >= 0 (sufficient condition)?"""
    for m, c in p.items():
        if c < 0:
            return False
        for a, e in m:
            k, pos, nn, _, idem = ATOMS[a]
            if pos or ((nn or idem) and e > 0) or (e.denominator == 1 and e.numerator % 2 == 0 and e > 0):
                continue
            return False
    return True


SUM_NORM = []  # rewriting rules for sums: f(bound variable, number, body) -> equal term, or None


def pred(t):
    kind, bv, n, body = t.args[:4]
    extra = t.args[4:]
    name = bv.args[0]
    if RED_OPAQUE[0]:
        if not canon(n) or body is ZERO:
            return {}
        return {((atom(("R", skey(t)), deps=frozenset(v.args[0] for v in free_vars(t))), Fr(1)),): Fr(1)}
    if kind == "sum" and not extra:
        for f in SUM_NORM:
            r = f(bv, n, body)
            if r is not None:
                return canon(r)
        pn = canon(n)
        k = pn.get((), Fr(0))
        if not pn or (len(pn) == 1 and k < 0):
            return {}
        rest = {m: c for m, c in pn.items() if m != ()}
        if rest and k.denominator == 1 and 0 < k <= 3 and pnonneg(rest):
            # the sum to n + k is the sum to n and the k terms that follow
            base = sub(n, num(k))
            out = canon(red("sum", bv, base, body))
            for j in range(int(k)):
                out = padd(out, canon(subst(body, {bv: add(base, num(j))})))
            return out
    linear = not kind.startswith("nl:")
    npk = canon(n)
    exs0 = [canon(x) if isinstance(x, T) else x for x in extra]
    hx = max([_mono_height(m) for q in exs0 if isinstance(q, dict) for m in q] + [0])
    pb0 = canon(body)

    def inside_height(m, nm):
        return max(hx, _mono_height(tuple((a, e) for a, e in m if nm in ATOMS[a][3])))

    if linear:
        heights = sorted({inside_height(m, name) for m in pb0})
    else:
        heights = [max([hx] + [_mono_height(m) for m in pb0])]
    out = {}
    for h in heights:
        # the bound variable takes its canonical name before normalisation, so that normal forms do not depend on it
        to = f"${h + 1}"
        sub_ = {bv: mk("var", to, *bv.args[1:])}
        pb = canon(subst(body, sub_))
        exs = [canon(subst(x, sub_)) if isinstance(x, T) else x for x in extra]
        for m, c in pb.items() if linear else [(None, None)]:
            if linear:
                if inside_height(m, to) != h:
                    continue
                outside = tuple((a, e) for a, e in m if to not in ATOMS[a][3])
                inside = tuple((a, e) for a, e in m if to in ATOMS[a][3])
                ip = {inside: Fr(1)}
            else:
                outside, ip, c = (), pb, Fr(1)
            deps = pdeps(ip) | pdeps(npk)
            for x in exs:
                if isinstance(x, dict):
                    deps |= pdeps(x)
            deps = frozenset(d for d in deps if d != to)
            k = atom(("R", h + 1, kind, pkey(npk), pkey(ip)) + tuple(pkey(x) if isinstance(x, dict) else x for x in exs), deps=deps, nonneg=kind == "sum" and pnonneg(ip))
            out = padd(out, pmul({outside: c}, {((k, Fr(1)),): Fr(1)}))
    return out


# ---- equality by clearing denominators
def clear_denoms(p):
    """Multiply through by B-atoms with negative (integer part) exponents; value-zero preserving."""
    for _ in range(60):
        bad = None
        for m in p:
            for a, e in m:
                if ATOMS[a][0][0] == "B" and e < 0:
                    if bad is None or a > bad[0]:
                        bad = (a,)
        if bad is None:
            return p
        a = bad[0]
        k = max(-dict(m).get(a, Fr(0)) for m in p)
        k = math.ceil(k)
        p = _mulB(p, a, Fr(k))
    return p


def is_zero(p):
    if not p:
        return True
    q = clear_denoms(p)
    return not q


def equal(a: T, b: T):
    return is_zero(padd(canon(a), canon(b), -1))


# ------------------------------------------------------------------ derivative
def diff(t, x):
    memo = {}

    def d(u):
        r = memo.get(u)
        if r is None:
            r = memo[u] = _d(u)
        return r

    def _d(u):
        o, a = u.op, u.args
        if u is x:
            return ONE
        if o in ("num", "var", "inf"):
            return ZERO
        if o == "app":
            if any(d(i) is not ZERO for i in a[2:]):
                raise Unsupported("derivative of array element")
            return ZERO
        if o == "add":
            return add(*[d(v) for v in a])
        if o == "mul":
            out = []
            for i, v in enumerate(a):
                dv = d(v)
                if dv is not ZERO:
                    out.append(mul(*(a[:i] + (dv,) + a[i + 1 :])))
            return add(*out) if out else ZERO
        if o == "pow":
            b, e = a
            db, de = d(b), d(e)
            r = ZERO
            if db is not ZERO:
                r = mul(e, pow_(b, sub(e, ONE)), db)
            if de is not ZERO:
                r = add(r, mul(u, fn("log", b), de))
            return r
        if o == "ite":
            return ite(a[0], d(a[1]), d(a[2]))
        if o == "fn":
            n = a[0]
            if len(a) == 1:
                return ZERO
            if all(d(v) is ZERO for v in a[1:]):
                return ZERO
            v = a[1]
            if len(a) == 2:
                dv = d(v)
                f = {
                    "exp": lambda: u,
                    "log": lambda: pow_(v, num(-1)),
                    "sqrt": lambda: div(num(Fr(1, 2)), u),
                    "sin": lambda: fn("cos", v),
                    "cos": lambda: neg(fn("sin", v)),
                    "Si": lambda: div(fn("sin", v), v),
                    "Ci": lambda: div(fn("cos", v), v),
                    "arctan": lambda: div(ONE, add(ONE, mul(v, v))),
                    "erf": lambda: mul(num(2), fn("exp", neg(mul(v, v))), pow_(PI, num(Fr(-1, 2)))),
                }.get(n)
                if f is None:
                    raise Unsupported(f"derivative of {n}")
                return mul(f(), dv)
            if n == "gammainc" and d(a[1]) is ZERO:
                s, z = a[1], a[2]
                return mul(div(mul(pow_(z, sub(s, ONE)), fn("exp", neg(z))), fn("gamma", s)), d(z))
            raise Unsupported(f"derivative of {n}")
        raise Unsupported(f"derivative {o}")

    return d(t)


# ------------------------------------------------------------------ numeric evaluation
class EvalError(Exception):
    pass


DEFINED = {}  # functions with a definition (compaction, ranks, groups): name -> f(env, arguments)


def evalf(t, env, memo=None):
    """Evaluate with mpmath.  ``env(kind, name, idx)`` supplies variables / array elements."""
    memo = {} if memo is None else memo

    def go(u):
        r = memo.get(u)
        if r is None:
            r = _go(u)
            memo[u] = r
        return r

    def _go(u):
        o, a = u.op, u.args
        if o == "num":
            return mp.mpf(a[0].numerator) / a[0].denominator
        if o == "inf":
            return mp.inf * a[0]
        if o == "nan":
            return mp.nan
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "var":
            return env("var", a[0], (), a[1:])
        if o == "app":
            if a[0] in DEFINED:
                return DEFINED[a[0]](env, [go(i) for i in a[2:]])
            return env("app", a[0], tuple(int(go(i)) for i in a[2:]), (a[1],))
        if o == "bapp":
            return env("bapp", a[0], tuple(int(go(i)) for i in a[1:]), ())
        if o == "add":
            return mp.fsum(go(v) for v in a)
        if o == "mul":
            r = mp.mpf(1)
            for v in a:
                r *= go(v)
            return r
        if o == "pow":
            b, e = go(a[0]), go(a[1])
            if b == 0 and e < 0:
                raise EvalError("0**neg")
            if b < 0 and e != int(e):
                raise EvalError("neg**frac")
            return mp.power(b, e)
        if o == "ite":
            return go(a[1]) if go(a[0]) else go(a[2])
        if o == "lt":
            return go(a[0]) < go(a[1])
        if o == "eq":
            return go(a[0]) == go(a[1])
        if o == "not":
            return not go(a[0])
        if o == "and":
            return all(go(v) for v in a)
        if o == "exists":
            bv, n, body = a
            return any(evalf(subst(body, {bv: num(i)}), env) for i in range(int(go(n))))
        if o == "fn":
            n = a[0]
            if n == "pi":
                return mp.pi
            if n == "euler":
                return mp.euler
            v = [go(x) for x in a[1:]]
            return evalfn(n, v)
        if o == "red":
            return evalred(u, env, go)
        raise EvalError(o)

    return go(t)


def evalfn(n, v):
    x = v[0]
    if n == "exp":
        return mp.exp(x)
    if n == "log":
        if x <= 0:
            raise EvalError("log")
        return mp.log(x)
    if n == "sqrt":
        if x < 0:
            raise EvalError("sqrt")
        return mp.sqrt(x)
    f = {
        "sin": mp.sin, "cos": mp.cos, "erf": mp.erf, "erfc": mp.erfc, "Si": mp.si, "Ci": mp.ci,
        "gamma": mp.gamma, "arctan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
        "floor": mp.floor, "ceil": mp.ceil, "abs": abs, "arcsin": mp.asin, "arccos": mp.acos, "tan": mp.tan,
        "trunc": lambda z: mp.floor(z) if z >= 0 else mp.ceil(z),
    }.get(n)
    if f is not None:
        return f(x)
    if n == "gammainc":
        return mp.gammainc(v[0], 0, v[1], regularized=True)
    raise EvalError(n)


RED_EVAL = {}


def evalred(u, env, go):
    kind, bv, n, body = u.args[:4]
    nn = int(go(n))
    f = RED_EVAL.get(kind)
    if f is None:
        raise EvalError(kind)
    ys = [evalf(subst(body, {bv: num(i)}), env) for i in range(nn)]
    ex = []
    for x in u.args[4:]:
        if not isinstance(x, T):
            ex.append(x)
        elif bv in subterms(x):
            ex.append([evalf(subst(x, {bv: num(i)}), env) for i in range(nn)])
        else:
            ex.append(go(x))
    return mp.mpf(f(ys, *ex))
