"""Symbolic real scalars, formulas and the path context.

Sym     a rational function over Q in the variables of the current path (num / product of factors)
F       a formula: polynomial (in)equalities, opaque booleans, and / or
Ctx     one execution path: variables with their defining relations, hypotheses, decisions, obligations

Every Sym also carries its value on a fixed vector of sample inputs; samples are only used to skip
solver calls (a branch with a sample is feasible) and to look for violating inputs, never to accept
an obligation.
"""
import math
import numbers
import re
from fractions import Fraction
import numpy as np
from .poly import Poly, ZERO, ONE, q

NS = 96
np.seterr(all="ignore")


class PathEnd(BaseException):
    """the current path is infeasible / excluded by an assumption"""


class Unsupported(BaseException):
    """the engine cannot follow the code here (never a verdict about the code)"""


CTX = None


def ctx():
    if CTX is None:
        raise Unsupported("symbolic value used outside of a path")
    return CTX


def set_ctx(c):
    global CTX
    CTX = c


# ---------------------------------------------------------------- formulas
class F:
    __slots__ = ("op", "p", "k", "s", "_h")

    def __init__(self, op, p=None, k=None, s=None):
        self.op, self.p, self.k, self.s, self._h = op, p, k, s, None

    def key(self):
        if self._h is None:
            if self.op in ("and", "or"):
                self._h = (self.op, tuple(x.key() for x in self.k))
            else:
                self._h = (self.op, self.p)
        return self._h

    def neg(self):
        o, s = self.op, self.s
        ns = None if s is None else np.where(s == 1, 0, np.where(s == 0, 1, -1)).astype(np.int8)
        if o == "T":
            return FALSE
        if o == "F":
            return TRUE
        if o == "lt":
            return F("le", -self.p, None, ns)
        if o == "le":
            return F("lt", -self.p, None, ns)
        if o == "eq":
            return F("ne", self.p, None, ns)
        if o == "ne":
            return F("eq", self.p, None, ns)
        if o == "bv":
            return F("nbv", self.p, None, ns)
        if o == "nbv":
            return F("bv", self.p, None, ns)
        if o == "and":
            return F("or", None, [x.neg() for x in self.k], ns)
        if o == "or":
            return F("and", None, [x.neg() for x in self.k], ns)
        raise AssertionError(o)

    def polys(self):
        if self.op in ("and", "or"):
            for x in self.k:
                yield from x.polys()
        elif self.p is not None and isinstance(self.p, Poly):
            yield self.p

    def map(self, fn):
        if self.op in ("and", "or"):
            return (f_and if self.op == "and" else f_or)([x.map(fn) for x in self.k])
        if isinstance(self.p, Poly):
            return mk(self.op, fn(self.p), self.s)
        return self

    def show(self, names):
        if self.op == "T" or self.op == "F":
            return "true" if self.op == "T" else "false"
        if self.op in ("and", "or"):
            return "(" + (" & " if self.op == "and" else " | ").join(x.show(names) for x in self.k) + ")"
        if self.op in ("bv", "nbv"):
            return ("" if self.op == "bv" else "not ") + names(self.p)
        return "%s %s 0" % (self.p.show(names), {"lt": "<", "le": "<=", "eq": "=", "ne": "!="}[self.op])


TRUE = F("T")
FALSE = F("F")


def mk(op, p, s=None):
    """formula  p <op> 0"""
    if p.is_const():
        c = p.const_value()
        r = {"lt": c < 0, "le": c <= 0, "eq": c == 0, "ne": c != 0}[op]
        return TRUE if r else FALSE
    p = p.primitive()
    if op in ("eq", "ne") and p.lead()[1] < 0:
        p = -p
    return F(op, p, None, s)


def _smin(ks, which):
    ss = [k.s for k in ks]
    if any(s is None for s in ss):
        return None
    a = np.stack(ss)
    if which == "and":
        return np.where((a == 0).any(0), 0, np.where((a == 1).all(0), 1, -1)).astype(np.int8)
    return np.where((a == 1).any(0), 1, np.where((a == 0).all(0), 0, -1)).astype(np.int8)


def f_and(ks):
    r = []
    for k in ks:
        if k.op == "F":
            return FALSE
        if k.op == "T":
            continue
        r.extend(k.k if k.op == "and" else [k])
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return F("and", None, r, _smin(r, "and"))


def f_or(ks):
    r = []
    for k in ks:
        if k.op == "T":
            return TRUE
        if k.op == "F":
            continue
        r.extend(k.k if k.op == "or" else [k])
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return F("or", None, r, _smin(r, "or"))


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return ctx().decide(self.f)

    def __and__(self, o):
        return wrapb(f_and([self.f, tof(o)]))
    __rand__ = __and__

    def __or__(self, o):
        return wrapb(f_or([self.f, tof(o)]))
    __ror__ = __or__

    def __invert__(self):
        return wrapb(self.f.neg())

    def __xor__(self, o):
        o = tof(o)
        return wrapb(f_or([f_and([self.f, o.neg()]), f_and([self.f.neg(), o])]))

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool, np.bool_)):
            return ~(self ^ o)
        return bool(self) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return ~r if isinstance(r, SymBool) else not r

    def __hash__(self):
        return hash(bool(self))

    def __int__(self):
        return int(bool(self))
    __index__ = __int__

    def __float__(self):
        return float(bool(self))

    def __add__(self, o):
        return int(bool(self)) + o
    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o
    __rmul__ = __mul__

    def __sub__(self, o):
        return int(bool(self)) - o

    def __rsub__(self, o):
        return o - int(bool(self))


def wrapb(f):
    if f.op == "T":
        return True
    if f.op == "F":
        return False
    return SymBool(f)


def tof(b):
    if isinstance(b, SymBool):
        return b.f
    if isinstance(b, F):
        return b
    if isinstance(b, Undef):
        return TRUE
    if isinstance(b, Sym):
        return tof(b != 0)
    if isinstance(b, np.ndarray) and b.shape == ():
        return tof(b.item())
    return TRUE if b else FALSE


# ---------------------------------------------------------------- undefined values
class Undef:
    """NaN ('nan') or an unspecified non-finite / undefined result ('any')"""
    __slots__ = ("kind",)

    def __init__(self, kind):
        self.kind = kind

    def _arith(self, *a):
        return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _arith
    __pow__ = __rpow__ = __mod__ = __rmod__ = __floordiv__ = _arith

    def __neg__(self):
        return self
    __abs__ = __pos__ = __neg__

    def _cmp(self, o):
        if self.kind == "nan":
            return False
        return ctx().choose("comparison with an undefined value", 2) == 0
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = _cmp

    def __ne__(self, o):
        return True if self.kind == "nan" else self._cmp(o)

    def __bool__(self):
        return True

    def __hash__(self):
        return 7

    def __float__(self):
        return math.nan

    def __repr__(self):
        return "nan"

    def sqrt(self):
        return self


NAN = Undef("nan")
UNDEF = Undef("any")


# ---------------------------------------------------------------- scalars
def lift(x):
    """Sym for a number, Undef for nan, None if it cannot be lifted (inf is handled by the callers)"""
    if isinstance(x, (Sym, Undef)):
        return x
    if isinstance(x, SymBool):
        return const(int(bool(x)))
    if isinstance(x, (bool, int, Fraction)):
        return const(x)
    if isinstance(x, (float, np.floating, np.integer, np.bool_)):
        if isinstance(x, (np.integer, np.bool_)):
            return const(int(x))
        x = float(x)
        if x != x:
            return NAN
        if x in (math.inf, -math.inf):
            return None
        if x in (math.pi, -math.pi) and CTX is not None:
            p = CTX.pi()
            return p if x > 0 else -p
        return const(q(x))
    if hasattr(x, "vc_sym"):
        return x.vc_sym()
    return None


def const(c):
    c = q(c)
    return Sym(Poly.const(c), {}, np.full(NS, float(c)))


def _den_mul(a, b):
    if not b:
        return a
    if not a:
        return b
    r = dict(a)
    for f, e in b.items():
        r[f] = r.get(f, 0) + e
    return r


class Sym:
    __slots__ = ("num", "den", "val")

    def __init__(self, num, den, val):
        self.num, self.den, self.val = num, den, val

    # -- construction
    @staticmethod
    def make(num, den, val):
        """reduce and cancel"""
        c = CTX
        if c is not None:
            num = c.reduce(num)
        if num.is_zero():
            return Sym(ZERO, {}, np.zeros(NS))
        if den:
            nd = {}
            for f, e in den.items():
                if e >= 2 and c is not None and len(f.t) == 1:
                    (m, _), = f.t.items()
                    if len(m) == 1 and m[0][1] == 1 and m[0][0] in c.rules:
                        k, e = divmod(e, 2)
                        r = c.rules[m[0][0]]
                        cc = r.content()
                        num = num.scale(Fraction(1) / Fraction(cc) ** k)
                        r = r.scale(Fraction(1) / cc)
                        if r.is_const():
                            num = num.scale(Fraction(1) / Fraction(r.const_value()) ** k)
                        else:
                            s, fs = split(r)
                            num = num.scale(Fraction(1) / Fraction(s) ** k)
                            for g, ge in fs.items():
                                nd[g] = nd.get(g, 0) + ge * k
                        if not e:
                            continue
                nd[f] = nd.get(f, 0) + e
            out = {}
            for f, e in nd.items():
                while e > 0 and len(num.t) <= 400 and (len(f.t) == 1 or len(f.t) <= 60):
                    d = num.divexact(f)
                    if d is None:
                        break
                    num = d
                    e -= 1
                if e:
                    out[f] = e
            den = out
        return Sym(num, den, val)

    def is_const(self):
        return self.num.is_const() and not self.den

    def cval(self):
        return self.num.const_value()

    def key(self):
        return (self.num, frozenset(self.den.items()))

    # -- arithmetic
    def __add__(self, o):
        o = _operand(o, self, "add")
        if not isinstance(o, Sym):
            return o
        v = self.val + o.val
        if not self.den and not o.den:
            return Sym(self.num + o.num, {}, v)
        if self.den == o.den:
            return Sym.make(self.num + o.num, self.den, v)
        com = dict(self.den)
        for f, e in o.den.items():
            if com.get(f, 0) < e:
                com[f] = e
        n1, n2 = self.num, o.num
        for f, e in com.items():
            for _ in range(e - self.den.get(f, 0)):
                n1 = n1 * f
            for _ in range(e - o.den.get(f, 0)):
                n2 = n2 * f
        return Sym.make(n1 + n2, com, v)

    def __radd__(self, o):
        return self.__add__(o)

    def __neg__(self):
        return Sym(-self.num, self.den, -self.val)

    def __pos__(self):
        return self

    def __sub__(self, o):
        o = _operand(o, self, "sub")
        if not isinstance(o, Sym):
            return o
        return self + (-o)

    def __rsub__(self, o):
        o = _operand(o, self, "rsub")
        if not isinstance(o, Sym):
            return o
        return o + (-self)

    def __mul__(self, o):
        o = _operand(o, self, "mul")
        if not isinstance(o, Sym):
            return o
        if o.is_const():
            c = o.cval()
            return Sym(self.num.scale(c), self.den if c else {}, self.val * float(c))
        if self.is_const():
            c = self.cval()
            return Sym(o.num.scale(c), o.den if c else {}, o.val * float(c))
        return Sym.make(self.num * o.num, _den_mul(self.den, o.den), self.val * o.val)

    __rmul__ = __mul__

    def inv(self):
        if self.is_const():
            return const(Fraction(1) / self.cval())
        s, fs = split(self.num)
        num = Poly.const(Fraction(1) / s)
        for f, e in self.den.items():
            num = num * f.pow(e)
        with np.errstate(all="ignore"):
            v = 1.0 / self.val
        return Sym.make(num, fs, v)

    def _nonzero(self):
        """False on paths where self is zero"""
        if self.is_const():
            return self.cval() != 0
        return not ctx().decide(tof(self == 0))

    def __truediv__(self, o):
        o = _operand(o, self, "div")
        if not isinstance(o, Sym):
            return o
        if not o._nonzero():
            ctx().note("division by zero")
            return UNDEF
        return rationalize(self * o.inv())

    def __rtruediv__(self, o):
        o = _operand(o, self, "rdiv")
        if not isinstance(o, Sym):
            return o
        return o / self

    def __pow__(self, o):
        return sym_pow(self, o)

    def __rpow__(self, o):
        return sym_pow(lift(o), self)

    def __mod__(self, o):
        o = lift(o)
        if isinstance(o, Sym) and self.is_const() and o.is_const() and o.cval():
            return const(Fraction(self.cval()) % Fraction(o.cval()))
        raise Unsupported("modulo of a symbolic value")

    def __rmod__(self, o):
        return lift(o) % self

    def __floordiv__(self, o):
        o = lift(o)
        if isinstance(o, Sym) and self.is_const() and o.is_const() and o.cval():
            return const(Fraction(self.cval()) // Fraction(o.cval()))
        raise Unsupported("floor division of a symbolic value")

    def __rfloordiv__(self, o):
        return lift(o) // self

    def __abs__(self):
        if self.is_const():
            return const(abs(self.cval()))
        c = ctx()
        if getattr(c, "loose_abs", False):       # a number of which nothing is known: no case split
            k = ("abs", self.key())
            if k not in c.cache:
                c.cache[k] = c.sym(c.new_var("abs", "aux", np.abs(self.val)))
            return c.cache[k]
        return self if ctx().decide(tof(self >= 0)) else -self

    # -- comparisons
    def __lt__(self, o):
        return compare(self, o, "lt")

    def __le__(self, o):
        return compare(self, o, "le")

    def __gt__(self, o):
        return compare(self, o, "gt")

    def __ge__(self, o):
        return compare(self, o, "ge")

    def __eq__(self, o):
        return compare(self, o, "eq")

    def __ne__(self, o):
        return compare(self, o, "ne")

    def __hash__(self):
        if self.is_const():
            return hash(self.cval())
        return hash(self.key())

    def __bool__(self):
        if self.is_const():
            return self.cval() != 0
        return bool(self != 0)

    # -- conversions
    def __index__(self):
        if self.is_const() and isinstance(self.cval(), int):
            return self.cval()
        return sym_index(self)

    def __int__(self):
        if self.is_const():
            return int(self.cval())
        return sym_index(self)

    def __float__(self):
        if self.is_const():
            return float(self.cval())
        raise Unsupported("float value of a symbolic value")

    def __round__(self, n=None):
        if self.is_const():
            return const(round(Fraction(self.cval()), n) if n else round(Fraction(self.cval())))
        return sym_round(self, n or 0)

    def __floor__(self):
        if self.is_const():
            return math.floor(self.cval())
        return sym_floor(self)

    def __ceil__(self):
        if self.is_const():
            return math.ceil(self.cval())
        return -sym_floor(-self)

    def __trunc__(self):
        return int(self)

    def __format__(self, spec):
        if CTX is not None and CTX.ints and not self.is_const():
            return sym_format(self, spec)
        return repr(self)

    def __str__(self):
        if CTX is not None and CTX.ints and integer_valued(self):
            return sym_format(self, "d")
        return repr(self)

    def __repr__(self):
        if self.is_const():
            return str(float(self.cval()))
        n = CTX.names if CTX is not None else str
        s = self.num.show(n, 6)
        if self.den:
            s = "(%s)/(%s)" % (s, "*".join(f.show(n, 4) + ("^%d" % e if e > 1 else "") for f, e in self.den.items()))
        return s

    def item(self):
        return self

    def conjugate(self):
        return self

    def copy(self):
        return self

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    @property
    def real(self):
        return self

    def is_integer(self):
        return self.is_const() and isinstance(self.cval(), int)

    # numpy object-array hooks
    def sqrt(self):
        return sym_sqrt(self)

    def cos(self):
        return sym_trig(self)[0]

    def sin(self):
        return sym_trig(self)[1]


def rationalize(x):
    """N / (P + Q s) = N (P - Q s) / (P^2 - Q^2 s^2) for a square root s, when the common factors leave a
    denominator known to be nonzero; gives the roots of a quadratic one normal form"""
    c = CTX
    if c is None or not x.den:
        return x
    for f, e in x.den.items():
        if e != 1 or len(f.t) < 2 or len(f.t) > 40:
            continue
        for s in f.vars():
            if c.vars[s].kind != "sqrt" or s not in c.rules:
                continue
            P, Q = {}, {}
            ok = True
            for m, k in f.t.items():
                d = dict(m)
                ee = d.pop(s, 0)
                if ee == 0:
                    P[m] = k
                elif ee == 1:
                    Q[tuple(sorted(d.items()))] = k
                else:
                    ok = False
            if not ok or not P:
                continue
            P, Q = Poly(P), Poly(Q)
            D = c.reduce(P * P - Q * Q * c.rules[s])
            if D.is_zero() or len(D.t) > 200:
                continue
            _, fs = split(x.num)
            g, N = D, x.num
            for h, he in fs.items():
                if h.is_const():
                    continue
                for _ in range(he):
                    t = g.divexact(h)
                    if t is None:
                        break
                    g = t
                    N = N.divexact(h)
            if g is D and not D.is_const():
                continue
            if not c.nonzero(g):
                continue
            rest = {k: v for k, v in x.den.items() if k != f}
            cg, gf = split(g) if not g.is_const() else (g.const_value(), {})
            return Sym.make((N * (P - Q * Poly.var(s))).scale(Fraction(1) / Fraction(cg)), _den_mul(rest, gf), x.val)
    return x


def _operand(o, me, op):
    """the other operand of an arithmetic operation as a Sym, or the result of the operation"""
    if isinstance(o, Sym):
        return o
    r = lift(o)
    if isinstance(r, Sym):
        return r
    if isinstance(r, Undef):
        return r
    if isinstance(o, (float, np.floating)):      # +-inf
        if op in ("add", "rsub"):
            return float(o)
        if op == "sub":
            return -float(o)
        if op == "div":
            return const(0)
        if op in ("mul", "rdiv"):
            if ctx().decide(tof(me == 0)):
                return UNDEF
            return float(o) if ctx().decide(tof(me > 0)) else -float(o)
    if isinstance(o, (list, tuple, str)) and op == "mul" and CTX is not None and CTX.ints and integer_valued(me):
        return o * sym_index(me)
    if isinstance(o, (list, tuple)):             # numpy scalars turn sequences into arrays
        from . import shim
        a = shim.arr(o)
        return {"add": lambda: a + me, "sub": lambda: me - a, "rsub": lambda: a - me, "mul": lambda: a * me,
                "div": lambda: me / a, "rdiv": lambda: a / me}[op]()
    return NotImplemented


def split(p):
    """p = c * product of factors, factors primitive; single variables are split off"""
    c = p.content()
    p = p.scale(Fraction(1) / c)
    if p.lead()[1] < 0:
        p, c = -p, -c
    common = None
    for m in p.t:
        d = dict(m)
        if common is None:
            common = d
        else:
            common = {v: min(e, d[v]) for v, e in common.items() if v in d}
        if not common:
            break
    fs = {}
    if common:
        mm = tuple(sorted(common.items()))
        p = p.divexact(Poly({mm: 1}))
        for v, e in mm:
            fs[Poly.var(v)] = e
    if not p.is_const():
        fs[p] = fs.get(p, 0) + 1
    else:
        c = c * p.const_value()
    return q(c), fs


def svec(diff, op, scale):
    with np.errstate(all="ignore"):
        tol = 1e-9 * (1e-6 + scale)
        bad = ~np.isfinite(diff)
        if op in ("lt", "le"):
            r = np.where(diff < -tol, 1, np.where(diff > tol, 0, -1))
        elif op == "eq":
            r = np.where(np.abs(diff) > tol, 0, -1)
        else:
            r = np.where(np.abs(diff) > tol, 1, -1)
    return np.where(bad, -1, r).astype(np.int8)


def compare(a, b, op):
    if isinstance(b, Undef):
        return b.__ne__(a) if op == "ne" else b._cmp(a)
    if b is None or isinstance(b, str):
        return op == "ne" if op in ("eq", "ne") else NotImplemented
    if isinstance(b, np.ndarray):
        return NotImplemented
    bb = lift(b)
    if isinstance(bb, Undef):
        return op == "ne"
    if bb is None:
        if isinstance(b, (float, np.floating)):
            pos = float(b) > 0
            return {"lt": pos, "le": pos, "gt": not pos, "ge": not pos, "eq": False, "ne": True}[op]
        if op == "eq":
            return False
        if op == "ne":
            return True
        return NotImplemented
    if op == "gt":
        return compare(bb, a, "lt")
    if op == "ge":
        return compare(bb, a, "le")
    d = a - bb
    sc = np.abs(a.val) + np.abs(bb.val)
    s = svec(d.val, op, sc)
    p = d.num
    c = CTX
    if c is not None and c.ints and op in ("eq", "ne") and integer_valued(d):
        s = ((np.abs(d.val) < 0.5) == (op == "eq")).astype(np.int8)
    if op in ("lt", "le"):
        for f, e in d.den.items():
            if e % 2:
                if c is not None and c.is_pos(f):
                    continue
                p = p * f
        if d.den and c is not None:
            p = c.reduce(p)
    if c is not None and not p.is_const():
        p = c.strip(p, op)
    return wrapb(mk(op, p, s))


def sym_pow(x, y):
    x, y = lift(x), lift(y)
    if isinstance(x, Undef):
        return x
    if isinstance(y, Undef):
        return y
    if x is None or y is None:
        raise Unsupported("power with infinite operand")
    if CTX is not None and CTX.logs is not None and x.is_const() and x.cval() == 10 and not y.is_const():
        return exp10(y)
    if CTX is not None and CTX.pow10 and x.is_const() and x.cval() == 10 and not y.is_const():
        r = pow10(y)
        if r is not None:
            return r
    if y.is_const():
        e = Fraction(y.cval())
        if e.denominator == 1:
            e = int(e)
            if abs(e) > 60:
                raise Unsupported("large power")
            if e < 0:
                return const(1) / sym_pow(x, -e)
            r, b = const(1), x
            while e:
                if e & 1:
                    r = r * b
                e >>= 1
                if e:
                    b = b * b
            return r
        if e.denominator == 2:
            return sym_pow(sym_sqrt(x), e.numerator)
    c = ctx()
    if x.is_const():
        if x.cval() == 1:
            return const(1)
        if x.cval() == 0:
            if c.decide(tof(y > 0)):
                return const(0)
            return UNDEF if not c.decide(tof(y == 0)) else const(1)
    if c.decide(tof(x < 0)):
        c.note("fractional power of a negative number")
        return UNDEF
    if c.decide(tof(y <= 0)):
        return _pow_atom(c, x, y)
    if c.decide(tof(x == 0)):
        return const(0)
    return _pow_atom(c, x, y)


# ---------------------------------------------------------------- integers, powers of ten, digits
def integer_valued(x):
    c = CTX
    return c is not None and not x.den and bool(x.num.vars()) and x.num.vars() <= c.ints \
        and all(Fraction(k).denominator == 1 for k in x.num.t.values())


def pow10(y):
    """10**y for y = +-e + k, e an integer variable whose power of ten is known"""
    c = CTX
    if y.den or len(y.num.vars()) != 1:
        return None
    (v,) = y.num.vars()
    k = y.num.t.get((), 0)
    co = y.num.t.get(((v, 1),), 0)
    if v not in c.pow10 or abs(co) != 1 or len(y.num.t) > 2 or Fraction(k).denominator != 1:
        return None
    E = c.sym(c.pow10[v])
    ten = const(Fraction(10) ** int(k))
    return E * ten if co == 1 else ten / E


def exp10(y):
    """10**y for any y: a positive number of which the logarithm is known"""
    y = lift(y)
    if isinstance(y, Undef):
        return y
    c = ctx()
    if c.logs is None or not isinstance(y, Sym):
        raise Unsupported("exponential of a symbolic value")
    key = ("exp10", y.key())
    if key not in c.cache:
        with np.errstate(all="ignore"):
            n = c.new_var("exp10", "aux", 10.0 ** np.clip(np.asarray(y.val, float), -300, 300))
        c.set_pos(n)
        c.logs[n] = y
        c.cache[key] = c.sym(n)
    return c.cache[key]


def _ln10():
    c = ctx()
    if "ln10" not in c.cache:
        n = c.new_var("ln10", "aux", np.full(NS, math.log(10)))
        c.set_pos(n)
        N = c.sym(n)
        c.axiom(f_and([tof(N > Fraction(23, 10)), tof(N < Fraction(24, 10))]), n)
        c.cache["ln10"] = N
    return c.cache["ln10"]


def ln(x):
    return log10(x) * _ln10()


def exp(y):
    y = lift(y)
    return y if isinstance(y, Undef) else exp10(y / _ln10())


def log10(x):
    x = lift(x)
    if not isinstance(x, Sym):
        return x if isinstance(x, Undef) else UNDEF
    if x.is_const():
        v = Fraction(x.cval())
        for k in range(-40, 41):
            if v == Fraction(10) ** k:
                return const(k)
        raise Unsupported("logarithm of a constant")
    c = ctx()
    if c.logs is not None and len(x.num.t) == 1 and not x.den:
        (m, co), = x.num.t.items()
        if co == 1 and m and all(v in c.logs for v, _ in m):
            r = const(0)
            for v, k in m:
                r = r + c.logs[v] * k
            return r
    if len(x.num.t) == 1 and not x.den:
        (m, co), = x.num.t.items()
        m = dict(m)
        for E, (e, y) in c.mant.items():
            if m == {E: 1, y: 1}:
                for k in range(-40, 41):
                    if Fraction(co) == Fraction(10) ** k:
                        key = ("log10", y)
                        if key not in c.cache:
                            w = c.new_var("log10", "aux", np.log10(c.vars[y].val))
                            W, Y = c.sym(w), c.sym(y)
                            c.axiom(f_and([tof(W >= 0), tof(W < 1)]), w)
                            c.axiom(f_or([tof(W > 0), tof(Y == 1)]), w)
                            c.axiom(f_or([tof(W == 0), tof(Y > 1)]), w)
                            c.cache[key] = W
                        return c.sym(e) + k + c.cache[key]
    raise Unsupported("logarithm of a symbolic value")


def sym_floor(x):
    if x.is_const():
        return math.floor(x.cval())
    c = ctx()
    ip, rest = {}, {}
    if not x.den:
        for m, k in x.num.t.items():
            k = Fraction(k)
            if m and k.denominator == 1 and all(v in c.ints for v, _ in m):
                ip[m] = int(k)
            elif not m:
                ip[m] = math.floor(k)
                if k != ip[m]:
                    rest[m] = k - ip[m]
            else:
                rest[m] = k
        ip = Poly({m: k for m, k in ip.items() if k})
        if not rest:
            return x
        I = Sym(ip, {}, c.evalp(ip))
        R = x - I
    else:
        I, R = const(0), x
    lin = lambda b: tof(b).op == "T" or tof(b).op != "F" and c.ex.linear(c, tof(b))
    if lin(R >= 0) and lin(R < 1):
        return I
    if lin(R <= 0) and lin(R >= -1):
        return I if c.decide(tof(R == 0)) else I - 1
    key = ("floor", R.key())
    if key not in c.cache:
        n = c.new_var("floor", "aux", np.floor(R.val + 1e-9 * np.abs(R.val)))
        c.ints.add(n)
        N = c.sym(n)
        c.axiom(f_and([tof(N <= R), tof(R < N + 1)]), n)
        c.cache[key] = N
    return I + c.cache[key]


def sym_trunc(x):
    if x.is_const():
        return math.trunc(x.cval())
    if integer_valued(x):
        return x
    return sym_floor(x) if ctx().decide(tof(x >= 0)) else -sym_floor(-x)


def sym_round(x, k=0):
    """x rounded to k decimals (halves upwards)"""
    t = Fraction(10) ** k
    if x.is_const():
        return const(round(Fraction(x.cval()), k))
    return sym_floor(x * const(t) + const(Fraction(1, 2))) / const(t)


def sym_index(x):
    """the value of an integer that is known to lie in a small range: one path for each"""
    c = ctx()
    if not integer_valued(x):
        raise Unsupported("integer value of a symbolic value")
    lo = hi = None
    for k in range(0, 41):
        if lo is None and c.ex.linear(c, tof(x >= -k)):
            lo = -k
        if hi is None and c.ex.linear(c, tof(x <= k)):
            hi = k
    if lo is None or hi is None:
        raise Unsupported("integer value of a symbolic value")
    for k in range(lo, hi + 1):
        if c.decide(tof(x == k)):
            return k
    raise PathEnd()


DIGITS, INTS, WIDTH = 0xE000, 0xF000, 32


def digits(x, p):
    """the p digits of an integer that has p digits, as characters that stand for them; None if it is not known to"""
    c = ctx()
    lo, hi = Fraction(10) ** (p - 1), Fraction(10) ** p
    lin = lambda b: tof(b).op == "T" or tof(b).op != "F" and c.ex.linear(c, tof(b))
    if p > WIDTH or not lin(x >= const(lo)):
        return None
    m = math.lcm(*[Fraction(k).denominator for k in x.num.t.values()])
    if integer_valued(x * m) and lin(x * m < const(lo * m + 1)):
        return str(int(lo))
    if not integer_valued(x) or not lin(x < const(hi)):
        return None
    c.tokens.append((x, p))
    if len(c.tokens) > 100:
        raise Unsupported("too many printed numbers")
    t = len(c.tokens) - 1
    return "".join(chr(DIGITS + t * WIDTH + k) for k in range(p))


def int_token(x):
    c = ctx()
    c.tokens.append((x, None))
    return chr(INTS + len(c.tokens) - 1)


def sym_format(x, spec):
    """format(x, spec) of a symbolic number"""
    m = re.fullmatch(r"(?:\.(\d+))?g", spec)
    if m:
        r = digits(x, int(m.group(1) or 6) or 1)
        if r is not None:
            return r
    m = re.fullmatch(r"\.0f", spec)
    if (m or spec in ("d", "")) and integer_valued(x):
        return int_token(x)
    raise Unsupported("formatting of a symbolic value")


def str_mod(fmt, args):
    """fmt % args where symbolic numbers are among args"""
    args = args if isinstance(args, tuple) else (args,)
    out, k, i = [], 0, 0
    for m in re.finditer(r"%(?:%|(\.(\*|\d+))?([dgsif]))", fmt):
        if "%" in fmt[i:m.start()]:
            raise Unsupported("formatting of a symbolic value")
        out.append(fmt[i:m.start()])
        i = m.end()
        if m.group(0) == "%%":
            out.append("%")
            continue
        prec = m.group(2)
        if prec == "*":
            prec = str(int(args[k]))
            k += 1
        a = args[k]
        k += 1
        conv = m.group(3)
        if not isinstance(a, Sym):
            out.append(("%" + ("." + prec if prec else "") + conv) % (a,))
        elif conv in "di":
            if prec:
                raise Unsupported("formatting of a symbolic value")
            out.append(sym_format(sym_trunc(a), "d"))
        elif conv == "s":
            out.append(str(a))
        else:
            out.append(sym_format(a, ("." + prec if prec else "") + conv))
    if "%" in fmt[i:] or k != len(args):
        raise Unsupported("formatting of a symbolic value")
    return "".join(out) + fmt[i:]


def has_int_token(s):
    return any(INTS <= ord(ch) < INTS + 256 for ch in s)


def _pow_atom(c, x, y):
    k = ("pow", x.key(), y.key())
    if k in c.cache:
        return c.cache[k]
    with np.errstate(all="ignore"):
        v = np.power(np.abs(x.val), y.val)
    w = c.new_var("pow", "aux", v)
    c.set_nonneg(w)
    W = c.sym(w)
    one = const(1)
    # facts about x**y for x >= 0
    pos = tof(y > 0)
    c.axiom(f_or([tof(x <= 0), tof(W > 0)]), w)
    c.axiom(f_or([pos.neg(), tof(x > one), tof(W <= one)]), w)
    c.axiom(f_or([pos.neg(), tof(x < one), tof(W >= one)]), w)
    c.axiom(f_or([tof(x != one), tof(W == one)]), w)
    c.axiom(f_or([pos.neg(), tof(x >= one), tof(W < one)]), w)
    c.axiom(f_or([pos.neg(), tof(x <= one), tof(W > one)]), w)
    c.cache[k] = W
    c.pows.append((x, y, W))
    return W


def sym_sqrt(x, nonneg=False):
    x = lift(x)
    if isinstance(x, Undef):
        return x
    if x is None:
        raise Unsupported("sqrt of infinity")
    c = ctx()
    if x.is_const():
        if x.cval() < 0:
            return NAN
        r = x.num.sqrt()
        if r is not None:
            return Sym(r, {}, np.full(NS, float(r.const_value())))
        nonneg = True
    k = ("sqrt", x.key())
    if k in c.cache:
        return c.cache[k]
    if not nonneg and c.decide(tof(x < 0)):
        c.note("square root of a negative number")
        return NAN
    p, den = x.num, {}
    for f, e in x.den.items():
        if e % 2:
            p = p * f
        den[f] = (e + 1) // 2
    p = c.reduce(p)
    with np.errstate(all="ignore"):
        v = np.sqrt(np.abs(x.val))
    r = p.sqrt()
    out = None
    if r is None:
        # split off even powers of variables and the square part of the content
        co = p.content()
        cr = Poly.const(co).sqrt()
        base, outer = p, ONE
        if cr is not None and co != 1:
            base, outer = p.scale(Fraction(1) / co), cr
        s, fs = split(base)
        ev = {f: e - e % 2 for f, e in fs.items() if e >= 2}
        for f, e in ev.items():
            base = base.divexact(f.pow(e))
            outer = outer * f.pow(e // 2)
        base = c.reduce(base)
        if base.is_zero():
            return const(0)
        bv = np.ones(NS)
        with np.errstate(all="ignore"):
            ov = c.evalp(outer)
            bv = np.sqrt(np.abs(c.evalp(base)))
        w = c.sqrt_atom(base, bv)
        out = Sym.make(outer, {}, ov) * w
        if ev:
            out = abs(Sym.make(outer, {}, ov)) * w
    else:
        out = abs(Sym.make(r, {}, c.evalp(r)))
    for f, e in den.items():
        fv = Sym(f, {}, c.evalp(f))
        g = fv if (e % 2 == 0 or c.is_pos(f)) else abs(fv)
        for _ in range(e):
            out = out * g.inv()
    c.cache[k] = out
    return out


# ---------------------------------------------------------------- trigonometry
def sym_trig(x):
    """(cos x, sin x)"""
    x = lift(x)
    if isinstance(x, Undef):
        return x, x
    if x is None:
        return NAN, NAN
    c = ctx()
    if x.is_const() and x.cval() == 0:
        return const(1), const(0)
    k = ("trig", x.key())
    if k in c.cache:
        return c.cache[k]
    parts = []                       # (coefficient, angle variable)
    pi = 0
    rest = {}
    if not x.den:
        for m, co in x.num.t.items():
            if len(m) == 1 and m[0][1] == 1 and m[0][0] == c.pi_id:
                pi = Fraction(co)
            elif len(m) == 1 and m[0][1] == 1 and m[0][0] in c.angle:
                parts.append((Fraction(co), m[0][0]))
            else:
                rest[m] = co
        if rest:
            r = Poly(rest)
            co = r.content()
            if r.lead()[1] < 0:
                co = -co
            base = r.scale(Fraction(1) / co)
            parts.append((Fraction(co), c.angle_alias(base)))
    else:
        parts.append((Fraction(1), c.angle_alias_sym(x)))
    C, S = const(1), const(0)
    if pi:
        t = pi * 2
        fr = t - (t.numerator // t.denominator)
        C, S = [(const(1), const(0)), (const(0), const(1)), (const(-1), const(0)), (const(0), const(-1))][(t.numerator // t.denominator) % 4]
        if fr:
            fc, fs = c.part_turn(fr)
            C, S = C * fc - S * fs, S * fc + C * fs
    for co, v in parts:
        cc, ss = c.angle_mult(v, co)
        C, S = C * cc - S * ss, S * cc + C * ss
    c.cache[k] = (C, S)
    return C, S


def sym_atan2(y, x):
    y, x = lift(y), lift(x)
    if isinstance(y, Undef) or isinstance(x, Undef):
        return UNDEF
    c = ctx()
    k = ("atan2", y.key(), x.key())
    if k in c.cache:
        return c.cache[k]
    h2 = x * x + y * y
    if c.decide(tof(h2 == 0)):
        c.cache[k] = const(0)
        return c.cache[k]
    if y.is_const() and y.cval() == 0:
        r = const(0) if c.decide(tof(x > 0)) else c.pi()
        c.cache[k] = r
        return r
    kn = ("atan2", (-y).key(), x.key())
    if kn in c.cache:
        if c.decide(tof(y == 0)):
            r = const(0) if c.decide(tof(x > 0)) else c.pi()
        else:
            r = -c.cache[kn]
        c.cache[k] = r
        return r
    h = sym_sqrt(h2, nonneg=True)
    hi = h.inv()
    a = c.new_angle("atan2", x * hi, y * hi, np.arctan2(y.val, x.val))
    A = c.sym(a)
    pi = c.pi()
    c.axiom(f_and([tof(A <= pi), tof(A > -pi)]), a)
    c.axiom(f_or([tof(y <= 0), tof(A > 0)]), a)
    c.axiom(f_or([tof(y >= 0), tof(A < 0)]), a)
    c.axiom(f_or([tof(y < 0), tof(A >= 0)]), a)
    c.axiom(f_or([tof(y != 0), tof(x <= 0), tof(A == 0)]), a)
    c.axiom(f_or([tof(y != 0), tof(x >= 0), tof(A == pi)]), a)
    c.axiom(f_or([tof(x <= 0), f_and([tof(A * 2 < pi), tof(A * 2 > -pi)])]), a)
    c.axiom(f_or([tof(x >= 0), tof(A * 2 > pi), tof(A * 2 < -pi)]), a)
    c.cache[k] = A
    return A


def sym_asin(z, which="asin"):
    z = lift(z)
    if isinstance(z, Undef):
        return z
    c = ctx()
    k = (which, z.key())
    if k in c.cache:
        return c.cache[k]
    if c.decide(f_or([tof(z > 1), tof(z < -1)])):
        c.note("arcsin / arccos outside of [-1, 1]")
        c.cache[k] = NAN
        return NAN
    other = sym_sqrt(1 - z * z, nonneg=True)
    pi = c.pi()
    with np.errstate(all="ignore"):
        if which == "asin":
            a = c.new_angle("asin", other, z, np.arcsin(z.val))
            A = c.sym(a)
            c.axiom(f_and([tof(A * 2 <= pi), tof(A * 2 >= -pi)]), a)
            c.axiom(f_or([tof(z <= 0), tof(A > 0)]), a)
            c.axiom(f_or([tof(z >= 0), tof(A < 0)]), a)
            c.axiom(f_or([tof(z != 0), tof(A == 0)]), a)
        else:
            a = c.new_angle("acos", z, other, np.arccos(z.val))
            A = c.sym(a)
            c.axiom(f_and([tof(A <= pi), tof(A >= 0)]), a)
            c.axiom(f_or([tof(z != 1), tof(A == 0)]), a)
            c.axiom(f_or([tof(z != -1), tof(A == pi)]), a)
            c.axiom(f_or([tof(z >= 1), tof(A > 0)]), a)
            c.axiom(f_or([tof(z <= 0), tof(A * 2 < pi)]), a)
            c.axiom(f_or([tof(z >= 0), tof(A * 2 > pi)]), a)
    c.cache[k] = A
    return A


# ---------------------------------------------------------------- paths
class VarInfo:
    __slots__ = ("id", "name", "kind", "val", "rad", "axioms", "deps")

    def __init__(self, id, name, kind, val):
        self.id, self.name, self.kind, self.val = id, name, kind, val
        self.rad = None
        self.axioms = []
        self.deps = ()


class Ctx:
    """one path of one exploration"""

    def __init__(self, explorer, prefix, seed=1):
        self.ex = explorer
        self.prefix = prefix
        self.trail = []
        self.hyps = []
        self.known = {}
        self.vars = []
        self.rules = {}          # var id -> Poly for var**2
        self._rp = {}
        self.pos = set()
        self.nonneg = set()
        self.cache = {}
        self.angle = {}          # var id -> (cos Sym, sin Sym)
        self.half = {}           # var id -> (cos, sin) of half the angle
        self.pows = []
        self.units = []          # registered unit vectors (triples of Sym)
        self.groups = []         # (kind, name, [ids]) for symmetry reduction
        self.mask = np.ones(NS, bool)
        self.notes = []
        self.rng = np.random.default_rng(seed)
        self.pi_id = None
        self.samples_from = {}   # input name -> sample array(s)
        self.bools = {}
        self.counter = {}
        self.ints = set()        # variables that are integers
        self.pow10 = {}          # integer variable e -> variable 10**e
        self.mant = {}           # variable 10**e -> (e, y): numbers y 10**e with 1 <= y < 10
        self.tokens = []         # numbers that were printed
        self.logs = None         # positive variable -> its decimal logarithm, where a contract uses logarithms of anything

    # -- variables
    def names(self, i):
        return self.vars[i].name

    def uniq(self, name):
        n = self.counter.get(name, 0)
        self.counter[name] = n + 1
        return name if n == 0 else "%s_%d" % (name, n)

    def new_var(self, name, kind, val):
        i = len(self.vars)
        self.vars.append(VarInfo(i, self.uniq(name), kind, np.asarray(val, float)))
        return i

    def sym(self, i):
        return Sym(Poly.var(i), {}, self.vars[i].val)

    def set_nonneg(self, i):
        self.nonneg.add(i)

    def set_pos(self, i):
        self.nonneg.add(i)
        self.pos.add(i)

    def axiom(self, f, *vs):
        """f holds by definition of the variables vs"""
        if f.op == "T":
            return
        for v in vs:
            self.vars[v].axioms.append(f)

    def add_rule(self, v, p):
        """v**2 = p"""
        self.rules[v] = p
        self._rp = {}

    def circle_rule(self, h, s):
        """h**2 + s**2 = 1"""
        p = ONE - Poly.var(h).pow(2)
        self.add_rule(s, p)
        self.axiom(mk("le", -p), h, s)

    def reduce(self, p):
        rules = self.rules
        if not rules:
            return p
        hit = False
        for m in p.t:
            for v, e in m:
                if e >= 2 and v in rules:
                    hit = True
                    break
            if hit:
                break
        if not hit:
            return p
        todo = dict(p.t)
        done = {}
        from .poly import mono_mul, _norm
        guard = 0
        while todo:
            m, c = todo.popitem()
            for k in range(len(m) - 1, -1, -1):
                v, e = m[k]
                if e >= 2 and v in rules:
                    break
            else:
                s = done.get(m, 0) + c
                if s:
                    done[m] = _norm(s)
                else:
                    done.pop(m, None)
                continue
            guard += 1
            if guard > 2000000:
                raise Unsupported("expression too large")
            n, r = divmod(e, 2)
            key = (v, n)
            if key not in self._rp:
                self._rp[key] = self.reduce(rules[v].pow(n))
            base = m[:k] + (((v, 1),) if r else ()) + m[k + 1:]
            for m2, c2 in self._rp[key].t.items():
                mm = mono_mul(base, m2)
                s = todo.get(mm, 0) + c * c2
                if s:
                    todo[mm] = _norm(s)
                else:
                    todo.pop(mm, None)
        if len(done) > 60000:
            raise Unsupported("expression too large")
        return Poly(done)

    def evalp(self, p):
        out = np.zeros(NS)
        for m, c in p.t.items():
            t = np.full(NS, float(c))
            for v, e in m:
                t = t * (self.vars[v].val if e == 1 else self.vars[v].val ** e)
            out = out + t
        return out

    def is_pos(self, f):
        """f > 0 for syntactic reasons"""
        for m, c in f.t.items():
            if c < 0:
                return False
            for v, e in m:
                if e % 2 and v not in self.pos:
                    return False
        strict = any(all(v in self.pos for v, _ in m) for m in f.t)
        if strict:
            return True
        k = self.known.get(("le", f))
        if k is False:
            return True
        return False

    def nonzero(self, g):
        """g != 0 follows from what is known (cheap checks only)"""
        if g.is_const():
            return not g.is_zero()
        if self.is_pos(g) or self.is_pos(-g):
            return True
        e = mk("eq", g)
        if self.known.get(e.key()) is False:
            return True
        k = ("nz", g)
        if k not in self.cache:
            self.cache[k] = self.ex.linear(self, e.neg())
        return self.cache[k]

    def strip(self, p, op):
        """divide out positive single variables and squares of nonzero ones"""
        s, fs = split(p)
        if len(fs) == 1 and 1 in fs.values():
            return p
        out = Poly.const(1 if s > 0 else -1)
        if op in ("eq", "ne"):
            out = ONE
        for f, e in fs.items():
            if len(f.t) == 1 and self.is_pos(f):
                continue
            out = out * (f.pow(e) if op in ("lt", "le") else f.pow(e))
        return out

    def sqrt_atom(self, base, val):
        k = ("sqrtatom", base)
        if k in self.cache:
            return self.cache[k]
        w = self.new_var("sqrt", "sqrt", val)
        self.vars[w].rad = base
        self.set_nonneg(w)
        self.add_rule(w, base)
        self.cache[k] = self.sym(w)
        if self.is_pos(base) or ("sq", base) in self.known or self.known.get(("eq", mkkey(base))) is False:
            self.pos.add(w)
        return self.cache[k]

    def pi(self):
        if self.pi_id is None:
            self.pi_id = self.new_var("pi", "pi", np.full(NS, math.pi))
            self.set_pos(self.pi_id)
            P = self.sym(self.pi_id)
            self.axiom(f_and([tof(P > q(3.14159265)), tof(P < q(3.14159266))]), self.pi_id)
        return self.sym(self.pi_id)

    # -- angles
    def new_angle(self, name, cs, sn, val):
        a = self.new_var(name, "angle", val)
        self.angle[a] = (cs, sn)
        self.vars[a].deps = tuple(cs.num.vars() | sn.num.vars())
        return a

    def angle_alias(self, base):
        """angle variable for the polynomial base (its half is the generator, so x and x/2 are related)"""
        k = ("alias", base)
        if k not in self.cache:
            v = self.evalp(base)
            h = self.new_var("cosh", "aux", np.cos(v / 2))
            s = self.new_var("sinh", "aux", np.sin(v / 2))
            self.circle_rule(h, s)
            ch, sh = self.sym(h), self.sym(s)
            a = self.new_var("angle", "angle", v)
            self.angle[a] = (ch * ch - sh * sh, 2 * sh * ch)
            self.half[a] = (ch, sh)
            self.cache[k] = a
        return self.cache[k]

    def angle_alias_sym(self, x):
        k = ("aliass", x.key())
        if k not in self.cache:
            v = x.val
            h = self.new_var("cosh", "aux", np.cos(v / 2))
            s = self.new_var("sinh", "aux", np.sin(v / 2))
            self.circle_rule(h, s)
            ch, sh = self.sym(h), self.sym(s)
            a = self.new_var("angle", "angle", v)
            self.angle[a] = (ch * ch - sh * sh, 2 * sh * ch)
            self.half[a] = (ch, sh)
            self.cache[k] = a
        return self.cache[k]

    def angle_half(self, v):
        if v not in self.half:
            cs, sn = self.angle[v]
            val = self.vars[v].val
            h = self.new_var("cosh", "aux", np.cos(val / 2))
            s = self.new_var("sinh", "aux", np.sin(val / 2))
            ch, sh = self.sym(h), self.sym(s)
            self.circle_rule(h, s)
            if not cs.den:
                self.add_rule(h, ((cs + 1) * const(Fraction(1, 2))).num)
            self.axiom(tof(ch * ch * 2 == cs + 1), h, s)
            self.axiom(tof(ch * sh * 2 == sn), h, s)
            A = self.sym(v)
            pi = self.pi()
            self.axiom(f_or([tof(A > pi), tof(A < -pi), tof(ch >= 0)]), h, s)
            self.axiom(f_or([tof(A > 2 * pi), tof(A < 0), tof(sh >= 0)]), h, s)
            self.axiom(f_or([tof(A < -2 * pi), tof(A > 0), tof(sh <= 0)]), h, s)
            self.half[v] = (ch, sh)
        return self.half[v]

    def part_turn(self, fr):
        """cosine and sine of a fraction of a quarter turn"""
        if fr > Fraction(1, 2):
            c1, s1 = self.part_turn(1 - fr)
            return s1, c1
        k = ("partturn", fr)
        if k not in self.cache:
            val = np.pi / 2 * float(fr)
            if fr == Fraction(1, 2):
                r = const(2).sqrt() / 2
                self.cache[k] = r, r
            else:
                c1, s1 = (self.new_var(n, "aux", np.full(NS, f(val))) for n, f in (("cosf", np.cos), ("sinf", np.sin)))
                self.circle_rule(c1, s1)
                c1, s1 = self.sym(c1), self.sym(s1)
                self.cache[k] = c1, s1
        return self.cache[k]

    def angle_mult(self, v, co):
        neg = co < 0
        co = abs(co)
        if co.denominator == 1:
            c1, s1 = self.angle[v]
            n = co.numerator
        elif co.denominator == 2:
            c1, s1 = self.angle_half(v)
            n = co.numerator
        else:
            # nothing is used of it but that it is an angle
            k = ("anglefrac", v, co)
            if k not in self.cache:
                val = self.vars[v].val * float(co)
                c1, s1 = self.new_var("cosf", "aux", np.cos(val)), self.new_var("sinf", "aux", np.sin(val))
                self.circle_rule(c1, s1)
                self.cache[k] = self.sym(c1), self.sym(s1)
            c1, s1 = self.cache[k]
            return c1, (-s1 if neg else s1)
        if n > 8:
            raise Unsupported("large multiple of an angle")
        C, S = const(1), const(0)
        for _ in range(n):
            C, S = C * c1 - S * s1, S * c1 + C * s1
        return (C, -S) if neg else (C, S)

    # -- hypotheses and decisions
    def note(self, s):
        self.notes.append(s)

    def learn(self, f):
        self.hyps.append(f)
        if f.op == "and":
            for k in f.k:
                self._learn1(k)
        else:
            self._learn1(f)
        if f.s is not None:
            self.mask = self.mask & (f.s == 1)
        else:
            self.mask = self.mask & False

    def _learn1(self, f):
        self.known[f.key()] = True
        n = f.neg()
        self.known[n.key()] = False
        if f.op == "lt":
            # p < 0: also p <= 0, p != 0
            self.known[("le", f.p)] = True
            self.known[("lt", -f.p)] = False
            e = mk("eq", f.p)
            self.known[e.key()] = False
            self.known[("ne", e.p)] = True
            if self.ints and f.p.vars() <= self.ints:     # integers: p < 0 is p + 1 <= 0
                g = mk("le", f.p.primitive() + ONE)
                if self.known.get(g.key()) is None:
                    self.hyps.append(g)
                    self.known[g.key()] = True
        if f.op == "eq" and self.pow10 and len(f.p.vars()) == 1:
            (v,) = f.p.vars()
            a = f.p.t.get(((v, 1),), 0)
            k = -Fraction(f.p.t.get((), 0)) / a if a and len(f.p.t) <= 2 else None
            if v in self.pow10 and k is not None and k.denominator == 1 and abs(k) < 400:
                g = mk("eq", Poly.var(self.pow10[v]) - Poly.const(Fraction(10) ** int(k)))
                if self.known.get(g.key()) is None:
                    self.hyps.append(g)
                    self.known[g.key()] = True
        if f.op in ("lt", "ne", "eq"):
            p = f.p
            if len(p.t) == 1:
                (m, c), = p.t.items()
                if len(m) == 1 and m[0][0] in self.nonneg and f.op in ("lt", "ne"):
                    self.pos.add(m[0][0])
        if f.op == "lt":
            # -x + c < 0 with c >= 0 : x positive
            p = f.p
            lin = [(m, c) for m, c in p.t.items() if m]
            if len(lin) == 1 and len(lin[0][0]) == 1 and lin[0][0][0][1] == 1 and lin[0][1] < 0 \
                    and p.t.get((), 0) >= 0:
                self.pos.add(lin[0][0][0][0])
                self.nonneg.add(lin[0][0][0][0])
            # positive radicand
            w = self.cache.get(("sqrtatom", -p))
            if w is not None:
                (m, _), = w.num.t.items()
                self.pos.add(m[0][0])
            self.known[("sq", -p)] = True

    def tight(self, f):
        """p < 0 over integers as p + 1 <= 0"""
        if f.op == "lt" and self.ints and f.p.vars() <= self.ints:
            return mk("le", f.p.primitive() + ONE, f.s)
        return f

    def assume(self, f):
        f = tof(f)
        if f.op == "T":
            return
        if f.op == "F":
            raise PathEnd()
        for k in (f.k if f.op == "and" else [f]):
            if k.op == "F":
                raise PathEnd()
            if self.known.get(k.key()) is True:
                continue
            if self.known.get(k.key()) is False:
                raise PathEnd()
            self.learn(k)

    def decide(self, f):
        f = tof(f)
        if f.op == "T":
            return True
        if f.op == "F":
            return False
        k = self.known.get(f.key())
        if k is not None:
            return k
        if f.op == "and" and any(self.known.get(x.key()) is False for x in f.k):
            return False
        if f.op == "or" and any(self.known.get(x.key()) is True for x in f.k):
            return True
        n = len(self.trail)
        if n < len(self.prefix):
            r = self.prefix[n]
        else:
            st = f.s is not None and bool((self.mask & (f.s == 1)).any())
            sf = f.s is not None and bool((self.mask & (f.s == 0)).any())
            t = st or self.ex.feasible(self, f)
            if not t:
                r = False
                fa = False
            else:
                fa = sf or self.ex.feasible(self, f.neg())
                r = True
            if t and fa:
                self.ex.push(self.trail + [False])
            elif not t:
                # f is impossible: record as fact, no branching
                pass
        self.trail.append(r)
        self.learn(f if r else f.neg())
        return r

    def choose(self, label, n):
        """nondeterministic choice among n alternatives"""
        k = len(self.trail)
        if k < len(self.prefix):
            r = self.prefix[k]
        else:
            r = 0
            for j in range(n - 1, 0, -1):
                self.ex.push(self.trail + [j])
        self.trail.append(r)
        return r


def mkkey(p):
    e = mk("eq", p)
    return e.p if e.op == "eq" else p
