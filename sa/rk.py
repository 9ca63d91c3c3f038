"""Rooted-tree order conditions over exact fields (Q or Q(sqrt d))."""

from fractions import Fraction
from functools import lru_cache

import sympy as sp

from .absint import AnalysisError


class Q2:
    """a + b*sqrt(d), exact."""

    __slots__ = ("a", "b", "d")

    def __init__(self, a, b=0, d=0):
        self.a, self.b, self.d = Fraction(a), Fraction(b), d if b else 0

    def _c(self, o):
        if not isinstance(o, Q2):
            o = Q2(o)
        if self.d and o.d and self.d != o.d:
            raise AnalysisError("tableau coefficients from two different quadratic fields")
        return o, self.d or o.d

    def __add__(self, o):
        o, d = self._c(o)
        return Q2(self.a + o.a, self.b + o.b, d)

    __radd__ = __add__

    def __neg__(self):
        return Q2(-self.a, -self.b, self.d)

    def __sub__(self, o):
        return self + (-o if isinstance(o, Q2) else Q2(-Fraction(o)))

    def __mul__(self, o):
        o, d = self._c(o)
        return Q2(self.a * o.a + self.b * o.b * d, self.a * o.b + self.b * o.a, d)

    __rmul__ = __mul__

    def zero(self):
        return self.a == 0 and self.b == 0

    def __eq__(self, o):
        return (self - (o if isinstance(o, Q2) else Q2(o))).zero()

    def __hash__(self):
        return hash((self.a, self.b, self.d))

    def f(self):
        return float(self.a) + float(self.b) * float(self.d) ** 0.5

    def __repr__(self):
        return f"{self.a}" + (f"+({self.b})*sqrt({self.d})" if self.b else "")


def to_q2(x):
    if isinstance(x, bool):
        raise AnalysisError("bool coefficient")
    if isinstance(x, (int, Fraction)):
        return Q2(x)
    if isinstance(x, float):
        return Q2(Fraction(x))
    if isinstance(x, sp.Basic):
        if x.is_Float:
            return Q2(Fraction(float(x)))
        x = sp.nsimplify(x) if x.has(sp.Float) else sp.expand(x)
        if x.is_Rational:
            return Q2(Fraction(int(x.p), int(x.q)))
        ds = {p.base for p in x.atoms(sp.Pow) if p.exp in (sp.Rational(1, 2), sp.Rational(-1, 2))}
        if len(ds) == 1:
            d = ds.pop()
            x = sp.expand(sp.radsimp(x))
            r = sp.sqrt(d)
            b = x.coeff(r)
            a = sp.expand(x - b * r)
            if a.is_Rational and b.is_Rational and d.is_Integer:
                return Q2(Fraction(int(a.p), int(a.q)), Fraction(int(b.p), int(b.q)), int(d))
    raise AnalysisError(f"coefficient {x!r} is not in a supported exact field")


@lru_cache(None)
def trees(n):
    """All rooted trees with n nodes: a tree is a sorted tuple of child trees."""
    if n == 1:
        return ((),)
    out = set()

    def part(rem, maxt, cur):
        if rem == 0:
            out.add(tuple(sorted(cur)))
            return
        for k in range(1, rem + 1):
            for t in trees(k):
                if maxt is not None and (k, t) > maxt:
                    continue
                part(rem - k, (k, t), cur + [t])

    part(n - 1, None, [])
    return tuple(sorted(out))


@lru_cache(None)
def size(t):
    return 1 + sum(size(c) for c in t)


@lru_cache(None)
def gamma(t):
    g = size(t)
    for c in t:
        g *= gamma(c)
    return g


def tstr(t):
    return "[" + "".join(tstr(c) for c in t) + "]"


def order_residuals(A, b, order):
    """yield (tree, residual) for all rooted trees up to the order.  A, b: Q2."""
    s = len(b)
    memo = {}

    def phi(t):  # stage vector of internal weights
        if t in memo:
            return memo[t]
        v = [Q2(1)] * s
        for c in t:
            pc = phi(c)
            w = []
            for i in range(s):
                acc = Q2(0)
                for j in range(s):
                    if not A[i][j].zero():
                        acc = acc + A[i][j] * pc[j]
                w.append(acc)
            v = [x * y for x, y in zip(v, w)]
        memo[t] = v
        return v

    for n in range(1, order + 1):
        for t in trees(n):
            v = phi(t)
            acc = Q2(0)
            for i in range(s):
                acc = acc + b[i] * v[i]
            yield t, acc - Q2(Fraction(1, gamma(t)))
