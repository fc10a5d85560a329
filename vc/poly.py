"""Sparse multivariate polynomials over Q.

A polynomial is a dict  monomial -> coefficient ; a monomial is a tuple of (variable id, exponent)
pairs sorted by variable id; coefficients are int or Fraction (never a Fraction with denominator 1).
Instances are immutable by convention.
"""
from fractions import Fraction
import math


def q(x):
    """exact rational value of a Python number; floats are read as the decimal they print as"""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, int):
        return x
    if isinstance(x, Fraction):
        return x.numerator if x.denominator == 1 else x
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise ValueError("not finite")
    f = Fraction(repr(x))
    return f.numerator if f.denominator == 1 else f


def _norm(c):
    if isinstance(c, Fraction) and c.denominator == 1:
        return c.numerator
    return c


def mono_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    r = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            r.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            r.append(x)
            i += 1
        else:
            r.append(y)
            j += 1
    if i < la:
        r.extend(a[i:])
    elif j < lb:
        r.extend(b[j:])
    return tuple(r)


def mono_div(a, b):
    """a / b or None"""
    d = dict(a)
    for v, e in b:
        x = d.get(v, 0) - e
        if x < 0:
            return None
        if x:
            d[v] = x
        else:
            d.pop(v, None)
    return tuple(sorted(d.items()))


def mono_key(m):
    """lexicographic order, larger variable ids first"""
    return tuple(sorted(m, key=lambda t: -t[0]))


class Poly:
    __slots__ = ("t", "_h", "_vars")

    def __init__(self, t):
        self.t = t
        self._h = None
        self._vars = None

    # constructors
    @staticmethod
    def const(c):
        c = q(c)
        return Poly({(): c}) if c else ZERO

    @staticmethod
    def var(i):
        return Poly({((i, 1),): 1})

    def __hash__(self):
        if self._h is None:
            self._h = hash(frozenset(self.t.items()))
        return self._h

    def __eq__(self, o):
        return isinstance(o, Poly) and self.t == o.t

    def is_zero(self):
        return not self.t

    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const_value(self):
        return self.t.get((), 0)

    def vars(self):
        if self._vars is None:
            self._vars = frozenset(v for m in self.t for v, _ in m)
        return self._vars

    def degree(self):
        return max((sum(e for _, e in m) for m in self.t), default=0)

    def __add__(self, o):
        if len(self.t) < len(o.t):
            self, o = o, self
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) + c
            if s:
                r[m] = _norm(s)
            else:
                del r[m]
        return Poly(r)

    def __neg__(self):
        return Poly({m: -c for m, c in self.t.items()})

    def __sub__(self, o):
        r = dict(self.t)
        for m, c in o.t.items():
            s = r.get(m, 0) - c
            if s:
                r[m] = _norm(s)
            else:
                del r[m]
        return Poly(r)

    def scale(self, c):
        if not c:
            return ZERO
        if c == 1:
            return self
        return Poly({m: _norm(k * c) for m, k in self.t.items()})

    def __mul__(self, o):
        a, b = self.t, o.t
        if not a or not b:
            return ZERO
        if len(a) > len(b):
            a, b = b, a
        r = {}
        get = r.get
        for m1, c1 in a.items():
            for m2, c2 in b.items():
                m = mono_mul(m1, m2)
                r[m] = get(m, 0) + c1 * c2
        return Poly({m: _norm(c) for m, c in r.items() if c})

    def pow(self, n):
        r = ONE
        b = self
        while n:
            if n & 1:
                r = r * b
            n >>= 1
            if n:
                b = b * b
        return r

    def diff(self, v):
        r = {}
        for m, c in self.t.items():
            for k, (w, e) in enumerate(m):
                if w == v:
                    m2 = m[:k] + (((v, e - 1),) if e > 1 else ()) + m[k + 1:]
                    r[m2] = r.get(m2, 0) + c * e
        return Poly({m: _norm(c) for m, c in r.items() if c})

    def subst(self, mp):
        """replace variables by polynomials"""
        if not (self.vars() & mp.keys()):
            return self
        acc = {}
        cache = {}
        for m, c in self.t.items():
            keep = []
            p = None
            for v, e in m:
                if v in mp:
                    k = (v, e)
                    if k not in cache:
                        cache[k] = mp[v].pow(e)
                    p = cache[k] if p is None else p * cache[k]
                else:
                    keep.append((v, e))
            keep = tuple(keep)
            if p is None:
                acc[keep] = acc.get(keep, 0) + c
            else:
                for m2, c2 in p.t.items():
                    mm = mono_mul(keep, m2)
                    acc[mm] = acc.get(mm, 0) + c * c2
        return Poly({m: _norm(c) for m, c in acc.items() if c})

    def content(self):
        """positive rational c such that self/c is primitive with integer coefficients"""
        if not self.t:
            return 1
        den = 1
        for c in self.t.values():
            if isinstance(c, Fraction):
                den = den * c.denominator // math.gcd(den, c.denominator)
        g = 0
        for c in self.t.values():
            g = math.gcd(g, int(c * den))
        return _norm(Fraction(g, den))

    def primitive(self):
        c = self.content()
        return self if c == 1 else self.scale(Fraction(1) / c)

    def lead(self):
        m = max(self.t, key=mono_key)
        return m, self.t[m]

    def divexact(self, o):
        """self / o if the division is exact, else None"""
        if o.is_const():
            return self.scale(Fraction(1) / o.const_value())
        if len(o.t) == 1:
            (m0, c0), = o.t.items()
            r = {}
            for m, c in self.t.items():
                d = mono_div(m, m0)
                if d is None:
                    return None
                r[d] = _norm(Fraction(c) / c0)
            return Poly(r)
        rem = dict(self.t)
        lm, lc = o.lead()
        res = {}
        steps = 0
        while rem:
            steps += 1
            if steps > 400:
                return None
            m = max(rem, key=mono_key)
            d = mono_div(m, lm)
            if d is None:
                return None
            k = _norm(Fraction(rem[m]) / lc)
            res[d] = k
            for m2, c2 in o.t.items():
                mm = mono_mul(d, m2)
                s = rem.get(mm, 0) - k * c2
                if s:
                    rem[mm] = _norm(s)
                else:
                    rem.pop(mm, None)
        return Poly(res)

    def sqrt(self):
        """a polynomial r with r*r == self, or None"""
        if not self.t:
            return ZERO
        if self.is_const():
            c = Fraction(self.const_value())
            if c < 0:
                return None
            a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
            if a * a == c.numerator and b * b == c.denominator:
                return Poly.const(Fraction(a, b))
            return None
        m, c = self.lead()
        if any(e % 2 for _, e in m):
            return None
        c = Fraction(c)
        if c < 0:
            return None
        a, b = math.isqrt(c.numerator), math.isqrt(c.denominator)
        if a * a != c.numerator or b * b != c.denominator:
            return None
        lm = tuple((v, e // 2) for v, e in m)
        lc = Fraction(a, b)
        root = Poly({lm: _norm(lc)})
        rem = self - root * root
        for _ in range(60):
            if rem.is_zero():
                return root
            m, c = rem.lead()
            d = mono_div(m, lm)
            if d is None:
                return None
            t = Poly({d: _norm(Fraction(c) / (2 * lc))})
            if d in root.t:
                return None
            rem = rem - t * (root.scale(2) + t)
            root = root + t
        return None

    def show(self, names, limit=12):
        if not self.t:
            return "0"
        out = []
        for k, m in enumerate(sorted(self.t, key=mono_key, reverse=True)):
            if k >= limit:
                out.append("... (%d terms)" % len(self.t))
                break
            c = self.t[m]
            s = "*".join(names(v) + ("^%d" % e if e > 1 else "") for v, e in m)
            if not s:
                out.append(str(c))
            elif c == 1:
                out.append(s)
            elif c == -1:
                out.append("-" + s)
            else:
                out.append("%s*%s" % (c, s))
        return " + ".join(out).replace("+ -", "- ")


ZERO = Poly({})
ONE = Poly({(): 1})
