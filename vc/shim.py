"""numpy / math / builtins as seen by the code under verification in symbolic mode.

Arrays are real numpy arrays (dtype object, subclass SArr) whose elements are Sym, so indexing,
slicing, aliasing, broadcasting and in-place operations are numpy's own.  Functions that numpy
implements only for machine floats are given here by their mathematical definition.  Anything not
listed is passed to numpy when no symbolic value is involved and is Unsupported otherwise.
"""
import builtins
import math
import numbers
import types
from fractions import Fraction
import numpy as np
from . import sym as S
from .sym import Sym, SymBool, Undef, Unsupported, lift, const, NAN, UNDEF, wrapb, tof, f_and, f_or


NARROW = {np.dtype(x) for x in ("f2", "f4", "c8")}


def whole(dtype):
    """real numbers stand for machine numbers of double precision; a conversion to fewer digits is not modelled"""
    if dtype is None or dtype is float or isinstance(dtype, type) and dtype is SFloat:
        return
    try:
        d = np.dtype(dtype)
    except Exception:
        raise Unsupported("dtype %r" % (dtype,))
    if d in NARROW or d.kind in "iu" and d.itemsize < 8:
        raise Unsupported("numbers of reduced precision")


class SArr(np.ndarray):
    def astype(self, dtype, *a, **k):
        whole(dtype)
        if np.dtype(dtype).kind in "fcO" if not isinstance(dtype, type) or dtype is not SFloat else True:
            return self.copy()
        return np.asarray(self).astype(dtype, *a, **k)

    def copy(self, order="C"):
        return np.array(self, dtype=object).view(SArr)

    def dot(self, o, out=None):
        return dot(self, o)

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def max(self, axis=None, **k):
        return amax(self, axis)

    def min(self, axis=None, **k):
        return amin(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self)

    def argmax(self, axis=None, **k):
        return argmax(self)

    def item(self, *a):
        return np.ndarray.item(self, *a)

    def __array_wrap__(self, arr, context=None, return_scalar=False):
        if arr.shape == ():
            return arr.item()
        return np.ndarray.__array_wrap__(self, arr, context)

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    def __eq__(self, o):
        return _cmp(self, o, "eq")

    def __ne__(self, o):
        return _cmp(self, o, "ne")

    def __lt__(self, o):
        return _cmp(self, o, "lt")

    def __le__(self, o):
        return _cmp(self, o, "le")

    def __gt__(self, o):
        return _cmp(self, o, "gt")

    def __ge__(self, o):
        return _cmp(self, o, "ge")

    def all(self, axis=None, **k):
        return all_(self)

    def any(self, axis=None, **k):
        return any_(self)


import operator
_OPS = {"eq": operator.eq, "ne": operator.ne, "lt": operator.lt, "le": operator.le, "gt": operator.gt,
        "ge": operator.ge}


def _cmp(a, b, op):
    if b is None:
        return False if op == "eq" else True
    x = raw(a)
    try:
        y = raw(b)
    except Exception:
        return NotImplemented
    x, y = np.broadcast_arrays(x, y)
    r = np.empty(x.shape, object)
    for i in np.ndindex(*x.shape):
        r[i] = _OPS[op](x[i], y[i])
    return r.view(SArr) if r.shape else r.item()


def scal(x):
    """scalar as the code sees it"""
    r = lift(x)
    return x if r is None else r


def is_num(x):
    return isinstance(x, (int, float, Fraction, Sym, Undef, SymBool, np.floating, np.integer, np.bool_))


def raw(x):
    """plain object ndarray holding lifted numbers"""
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return np.asarray(x).view(np.ndarray)
        if x.dtype.kind in "fiu":
            r = np.empty(x.shape, object)
            for i in np.ndindex(*x.shape):
                r[i] = scal(x[i])
            return r
        return x
    if is_num(x):
        r = np.empty((), object)
        r[()] = scal(x)
        return r
    if isinstance(x, (list, tuple, range, map, filter, zip)) or hasattr(x, "__iter__"):
        x = list(x)
        if any(isinstance(e, S.Sym) or is_num(e) for e in x) and all(is_num(e) or (isinstance(e, np.ndarray) and e.shape == ()) for e in x):
            r = np.empty(len(x), object)
            for i, e in enumerate(x):
                r[i] = scal(e.item() if isinstance(e, np.ndarray) else e)
            return r
        if x and all(isinstance(e, (list, tuple, np.ndarray)) for e in x):
            parts = [raw(e) for e in x]
            if len({p.shape for p in parts}) == 1:
                r = np.empty((len(parts),) + parts[0].shape, object)
                for i, p in enumerate(parts):
                    r[i] = p
                return r
        if not x:
            return np.empty(0, object)
        raise Unsupported("array of %s" % sorted({type(e).__name__ for e in x}))
    r = np.empty((), object)
    r[()] = x
    return r


def arr(x):
    r = raw(x)
    if r.dtype == object:
        return r.view(SArr)
    return r


def symbolic(x):
    if isinstance(x, (Sym, Undef, SymBool, SArr)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(symbolic(e) for e in x)
    if isinstance(x, dict):
        return any(symbolic(e) for e in x.values())
    return False


def out(x):
    """array or scalar result"""
    if isinstance(x, np.ndarray):
        if x.shape == ():
            return x.item()
        return x.view(SArr) if x.dtype == object else x
    return x


# ---------------------------------------------------------------- creation
_INT = (int, np.int64, np.int32, np.intp, np.int_, np.integer)


def array(x, dtype=None, copy=True, ndmin=0, **k):
    whole(dtype)
    if hasattr(x, "vc_array"):
        return x.vc_array(lambda e: array(e))
    if isinstance(x, np.matrix) and x.dtype == object:
        return np.array(x).view(SArr)
    if isinstance(x, list) and x and type(x[0]).__name__ == "Each":
        from .loops import each_array
        return each_array(x, lambda e: array(e))
    if dtype is not None and (dtype in _INT or dtype is bool or dtype is np.bool_ or dtype is str):
        return np.array(x, dtype=dtype)
    if isinstance(x, np.ndarray) and x.dtype.kind in "bUS":
        return np.array(x)
    try:
        return arr(x).copy()
    except Unsupported:
        if symbolic(x):
            raise
        return np.array(x, dtype=dtype) if dtype is not None else np.array(x)


def asarray(x, dtype=None, **k):
    if isinstance(x, np.matrix):
        return np.asarray(x).view(SArr) if x.dtype == object else np.asarray(x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return x
    return array(x, dtype)


def full(shape, v, dtype=None, **k):
    whole(dtype)
    n = shape[0] if isinstance(shape, (tuple, list)) and len(shape) == 1 else shape
    if hasattr(n, "vc_constant"):
        return n.vc_constant(scal(v))
    r = np.empty(shape, object)
    for i in np.ndindex(*r.shape):
        r[i] = scal(v)
    return r.view(SArr)


def zeros(shape, dtype=None, **k):
    whole(dtype)
    if dtype in _INT or dtype is bool:
        return np.zeros(shape, dtype)
    return full(shape, 0)


def ones(shape, dtype=None, **k):
    whole(dtype)
    n = shape[0] if isinstance(shape, (tuple, list)) and len(shape) == 1 else shape
    if hasattr(n, "vc_constant"):
        return n.vc_constant(const(1))
    if dtype in _INT or dtype is bool:
        return np.ones(shape, dtype)
    return full(shape, 1)


def eye(n, m=None, dtype=None, **k):
    whole(dtype)
    n = int(n)
    r = full((n, n if m is None else int(m)), 0)
    for i in range(min(r.shape)):
        r[i, i] = const(1)
    return r


def zeros_like(x, dtype=None, **k):
    whole(dtype)
    return zeros(np.shape(raw(x)))


def ones_like(x, dtype=None, **k):
    whole(dtype)
    return ones(np.shape(raw(x)))


def diag(x):
    x = raw(x)
    if x.ndim == 1:
        r = full((len(x), len(x)), 0)
        for i in range(len(x)):
            r[i, i] = x[i]
        return r
    return out(np.diag(x))


class AbstractCount(int):
    """not used as a number"""


def linspace(a, b, num=50, endpoint=True, **k):
    if S.CTX is not None and hasattr(num, "vc_count"):
        return num.vc_linspace(a, b, endpoint)
    if isinstance(num, Sym) and not num.is_const():
        h = getattr(S.CTX, "abstract_linspace", None)
        if h is not None and endpoint:
            return h(lift(a), lift(b), num)
        raise Unsupported("symbolic number of samples")
    n = int(num)
    if not symbolic([a, b]) and False:
        return np.linspace(a, b, n)
    a, b = lift(a), lift(b)
    d = (n - 1) if endpoint else n
    r = np.empty(n, object)
    for i in range(n):
        r[i] = a if d <= 0 else (b if endpoint and i == n - 1 else a + (b - a) * Fraction(i, d))
    return r.view(SArr)


def arange(*a, **k):
    if symbolic(list(a)):
        a = [int(x) for x in a]
    return arr(np.arange(*a, **k))


# ---------------------------------------------------------------- elementwise
def ew(fn):
    def g(x, *a, out=None, where=True, dtype=None, **k):
        whole(dtype)
        if hasattr(x, "vc_map1"):
            return x.vc_map1(fn)
        if isinstance(x, (list, tuple, np.ndarray)):
            x = raw(x)
            r = np.empty(x.shape, object)
            for i in np.ndindex(*x.shape):
                r[i] = fn(x[i])
            if out is not None:
                out[...] = r
                return out
            return r.view(SArr) if r.shape else r.item()
        return fn(x)
    return g


def ew2(fn):
    def g(x, y, out=None, **k):
        if isinstance(x, (list, tuple, np.ndarray)) or isinstance(y, (list, tuple, np.ndarray)):
            x, y = np.broadcast_arrays(raw(x), raw(y))
            r = np.empty(x.shape, object)
            for i in np.ndindex(*x.shape):
                r[i] = fn(x[i], y[i])
            if out is not None:
                out[...] = r
                return out
            return r.view(SArr) if r.shape else r.item()
        return fn(scal(x), scal(y))
    return g


def _l(x):
    r = lift(x)
    if r is None:
        raise Unsupported("infinite operand")
    return r


sqrt = ew(lambda x: S.sym_sqrt(x))
cos = ew(lambda x: S.sym_trig(_l(x))[0])
sin = ew(lambda x: S.sym_trig(_l(x))[1])


def _tan(x):
    c, s = S.sym_trig(_l(x))
    return s / c


tan = ew(_tan)
arcsin = ew(lambda x: S.sym_asin(_l(x), "asin"))
arccos = ew(lambda x: S.sym_asin(_l(x), "acos"))
arctan = ew(lambda x: S.sym_atan2(_l(x), const(1)))
arctan2 = ew2(lambda y, x: S.sym_atan2(_l(y), _l(x)))
absolute = ew(lambda x: abs(x) if not isinstance(x, (int, float)) else scal(abs(x)))
square = ew(lambda x: _l(x) * _l(x))
power = ew2(lambda x, y: S.sym_pow(x, y))
hypot = ew2(lambda x, y: norm([x, y]))
negative = ew(lambda x: -_l(x))
reciprocal = ew(lambda x: 1 / _l(x))


def _whole(f):
    def g(x):
        x = _l(x)
        if isinstance(x, Undef):
            return x
        return _l(f(x))
    return g


def _round(x, k=0):
    x = _l(x)
    if isinstance(x, Undef):
        return x
    return S.sym_round(x, k)


floor = ew(_whole(S.sym_floor))
ceil = ew(_whole(lambda x: -S.sym_floor(-x)))
fix = ew(_whole(S.sym_trunc))


def around(x, decimals=0, out=None):
    return ew(lambda e: _round(e, decimals))(x) if out is None else _delegate(np.round, "round")(x, decimals, out)


deg2rad = ew(lambda x: _l(x) * S.ctx().pi() * const(Fraction(1, 180)))
rad2deg = ew(lambda x: _l(x) * 180 / S.ctx().pi())


def _sign(x):
    x = _l(x)
    if isinstance(x, Undef):
        return x
    if S.ctx().decide(tof(x > 0)):
        return const(1)
    if S.ctx().decide(tof(x < 0)):
        return const(-1)
    return const(0)


sign = ew(_sign)
add = ew2(lambda x, y: x + y)
subtract = ew2(lambda x, y: x - y)
multiply = ew2(lambda x, y: x * y)
divide = ew2(lambda x, y: x / y)


def _mod(x, y):
    if hasattr(x, "vc_mod"):
        return x.vc_mod(y)
    return x % y


mod = ew2(_mod)


def _max2(x, y):
    return x if bool(x >= y) else y


def _min2(x, y):
    return x if bool(x <= y) else y


maximum = ew2(_max2)
minimum = ew2(_min2)
isnan = ew(lambda x: isinstance(x, Undef) or (isinstance(x, float) and x != x))
isfinite = ew(lambda x: not isinstance(x, Undef) and not (isinstance(x, float) and not math.isfinite(x)))
isinf = ew(lambda x: isinstance(x, float) and math.isinf(x))
logical_not = ew(lambda x: wrapb(tof(x).neg()))
logical_and = ew2(lambda x, y: wrapb(f_and([tof(x), tof(y)])))
logical_or = ew2(lambda x, y: wrapb(f_or([tof(x), tof(y)])))
less = ew2(lambda x, y: x < y)
less_equal = ew2(lambda x, y: x <= y)
greater = ew2(lambda x, y: x > y)
greater_equal = ew2(lambda x, y: x >= y)
equal = ew2(lambda x, y: x == y)
not_equal = ew2(lambda x, y: x != y)


def _isclose(a, b, rtol, atol):
    a, b = lift(a), lift(b)
    if a is None or b is None:
        return False
    if isinstance(a, Undef) or isinstance(b, Undef):
        return (UNDEF < 0) if UNDEF in (a, b) else False
    d = a - b
    if b.is_const() and lift(rtol).is_const() and lift(atol).is_const():
        lim = const(Fraction(lift(atol).cval()) + Fraction(lift(rtol).cval()) * abs(Fraction(b.cval())))
        return wrapb(f_and([tof(d <= lim), tof(-d <= lim)]))
    # |a-b| <= atol + rtol*|b|
    l1 = lift(atol) + lift(rtol) * b
    l2 = lift(atol) - lift(rtol) * b
    return wrapb(f_and([f_or([tof(d <= l1), tof(d <= l2)]), f_or([tof(-d <= l1), tof(-d <= l2)])]))


def isclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    return ew2(lambda x, y: _isclose(x, y, rtol, atol))(a, b)


def allclose(a, b, rtol=1e-05, atol=1e-08, equal_nan=False):
    c = all_(isclose(a, b, rtol, atol))
    if isinstance(c, SymBool):
        x, y = raw(a), raw(b)
        if x.shape == (3,) and y.shape in ((3,), ()):
            if y.shape == ():
                y = np.array([y.item()] * 3, dtype=object)
            # implied by the componentwise conditions, and invariant under rotations:
            # |a-b|^2 <= sum (atol + rtol |b_i|)^2 <= 2 * 3 atol^2 + 2 rtol^2 |b|^2
            d = [lift(p) - lift(q) for p, q in zip(x, y)]
            n2 = d[0] * d[0] + d[1] * d[1] + d[2] * d[2]
            b2 = lift(y[0]) * y[0] + lift(y[1]) * y[1] + lift(y[2]) * y[2]
            at, rt = lift(atol), lift(rtol)
            imp = tof(n2 <= 6 * at * at + 2 * rt * rt * b2)
            return wrapb(f_and([tof(c), imp]))
    return c


def all_(x, axis=None, **k):
    if not isinstance(x, (list, tuple, np.ndarray)):
        return x
    return wrapb(f_and([tof(e) for e in raw(x).ravel()]))


def any_(x, axis=None, **k):
    if not isinstance(x, (list, tuple, np.ndarray)):
        return x
    return wrapb(f_or([tof(e) for e in raw(x).ravel()]))


def array_equal(a, b, **k):
    a, b = raw(a), raw(b)
    if a.shape != b.shape:
        return False
    return wrapb(f_and([tof(x == y) for x, y in zip(a.ravel(), b.ravel())]))


def clip(x, lo=None, hi=None, **k):
    lo = k.get("a_min", lo)
    hi = k.get("a_max", hi)
    if lo is not None:
        x = maximum(x, lo)
    if hi is not None:
        x = minimum(x, hi)
    return x


def where(c, *a):
    if not a:
        r = np.array([bool(e) for e in np.ravel(c)])
        return np.where(r.reshape(np.shape(c)))
    x, y = a
    c, x, y = np.broadcast_arrays(np.asarray(c, object), raw(x), raw(y))
    r = np.empty(c.shape, object)
    for i in np.ndindex(*c.shape):
        r[i] = x[i] if bool(c[i]) else y[i]
    return out(r)


# ---------------------------------------------------------------- linear algebra
def dot(a, b, out_=None, **k):
    if not isinstance(a, (list, tuple, np.ndarray)) or not isinstance(b, (list, tuple, np.ndarray)):
        return a * b
    a, b = raw(a), raw(b)
    return out(np.dot(a, b)) if a.dtype == object else np.dot(a, b)


def matmul(a, b, **k):
    return out(np.matmul(raw(a), raw(b)))


def vdot(a, b):
    return dot(raw(a).ravel(), raw(b).ravel())


def cross(a, b, *aa, **k):
    a, b = raw(a), raw(b)
    if a.shape == (3,) and b.shape == (3,):
        return arr([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    return out(np.cross(a, b, *aa, **k))


def outer(a, b, **k):
    a, b = raw(a).ravel(), raw(b).ravel()
    r = np.empty((len(a), len(b)), object)
    for i in range(len(a)):
        for j in range(len(b)):
            r[i, j] = a[i] * b[j]
    return r.view(SArr)


def norm(x, ord=None, axis=None, keepdims=False):
    if ord not in (None, 2):
        raise Unsupported("norm of unusual order")
    x = raw(x)
    if axis is not None:
        if x.ndim == 1:
            return norm(x)
        if x.ndim == 2:
            ax = axis if axis >= 0 else 2 + axis
            v = [norm(x[i] if ax == 1 else x[:, i]) for i in range(x.shape[1 - ax])]
            r = arr(v)
            return r if not keepdims else r.reshape((-1, 1) if ax == 1 else (1, -1))
        raise Unsupported("norm over an axis")
    return vnorm(list(x.ravel()))


def vnorm(v):
    v = [lift(e) for e in v]
    for e in v:
        if isinstance(e, Undef):
            return e
        if e is None:
            return math.inf
    c = S.ctx()
    n2 = const(0)
    for e in v:
        n2 = n2 + e * e
    if n2.is_const():
        return S.sym_sqrt(n2, nonneg=True)
    k = ("sqrt", n2.key())
    if k in c.cache:
        return c.cache[k]
    if len(v) == 3:
        for u in c.units:
            t = v[0] * u[0] + v[1] * u[1] + v[2] * u[2]
            if all((a - t * b).num.is_zero() for a, b in zip(v, u)):
                r = abs(t)
                c.cache[k] = r
                return r
    return S.sym_sqrt(n2, nonneg=True)


def det(m):
    m = raw(m)
    n = m.shape[0]
    if n == 1:
        return m[0, 0]
    t = const(0)
    for j in range(n):
        sub = np.delete(np.delete(m, 0, 0), j, 1)
        t = t + m[0, j] * det(sub) * (-1) ** j
    return t


def inv(m):
    m = raw(m)
    n = m.shape[0]
    d = det(m)
    r = np.empty((n, n), object)
    for i in range(n):
        for j in range(n):
            r[j, i] = det(np.delete(np.delete(m, i, 0), j, 1)) * (-1) ** (i + j) / d if n > 1 else 1 / d
    return r.view(SArr)


def trace(m):
    m = raw(m)
    t = const(0)
    for i in range(min(m.shape)):
        t = t + m[i, i]
    return t


# ---------------------------------------------------------------- reductions / shaping
def sum_(x, axis=None, **k):
    x = raw(x)
    if axis is None:
        t = const(0)
        for e in x.ravel():
            t = t + e
        return t
    return out(np.sum(x, axis=axis))


def mean(x, axis=None, **k):
    x = raw(x)
    if axis is None:
        return sum_(x) / x.size
    return out(np.sum(x, axis=axis) / x.shape[axis])


def prod(x, axis=None, **k):
    t = const(1)
    for e in raw(x).ravel():
        t = t * e
    return t


def amax(x, axis=None, **k):
    if axis is not None:
        raise Unsupported("max over an axis")
    r = None
    for e in raw(x).ravel():
        r = e if r is None or bool(e > r) else r
    return r


def amin(x, axis=None, **k):
    if axis is not None:
        raise Unsupported("min over an axis")
    r = None
    for e in raw(x).ravel():
        r = e if r is None or bool(e < r) else r
    return r


def argmin(x, axis=None, **k):
    if hasattr(x, "vc_map1"):
        return x.argmin()
    r, bi = None, 0
    for i, e in enumerate(raw(x).ravel()):
        if r is None or bool(e < r):
            r, bi = e, i
    return bi


def argmax(x, axis=None, **k):
    r, bi = None, 0
    for i, e in enumerate(raw(x).ravel()):
        if r is None or bool(e > r):
            r, bi = e, i
    return bi


def structural(name):
    f = getattr(np, name)

    def g(x, *a, **k):
        if isinstance(x, (list, tuple)) and name in ("concatenate", "hstack") and any(hasattr(e, "vc_join") for e in x):
            if a or k:
                raise Unsupported("numpy.%s with parameters" % name)
            return next(e for e in x if hasattr(e, "vc_join")).vc_join(x)
        if isinstance(x, (list, tuple)) and name in ("concatenate", "vstack", "hstack", "stack", "column_stack"):
            return out(f([raw(e) for e in x], *a, **k))
        if name == "append":
            return out(f(raw(x), raw(a[0]), *a[1:], **k))
        return out(f(raw(x), *a, **k))
    return g


def copy(x, **k):
    return array(x)


def argsort(x, *a, **k):
    x = list(raw(x).ravel())
    idx = sorted(range(len(x)), key=lambda i: _Key(x[i]))
    return np.array(idx)


class _Key:
    def __init__(self, v):
        self.v = v

    def __lt__(self, o):
        return bool(self.v < o.v)


def sort_(x, *a, **k):
    return arr([e for e in sorted(list(raw(x).ravel()), key=_Key)])


def einsum(*a, **k):
    return out(np.einsum(*[raw(e) if not isinstance(e, str) else e for e in a], **k))


def roll(x, shift, axis=None):
    return out(np.roll(raw(x), shift, axis))


def convolve(a, v, mode="full"):
    if hasattr(a, "vc_convolve"):
        return a.vc_convolve(v, mode)
    if hasattr(v, "vc_convolve"):
        return v.vc_convolve(a, mode)
    if np.ndim(raw(a)) > 1 or np.ndim(raw(v)) > 1:
        raise ValueError("object too deep for desired array")
    a, v = list(raw(a).ravel()), list(raw(v).ravel())
    if not a or not v:
        raise Unsupported("convolution of nothing")
    if len(v) > len(a):
        a, v = v, a
    n, m = len(a), len(v)
    full_ = []
    for k in range(n + m - 1):
        t = const(0)
        for j in range(m):
            if 0 <= k - j < n:
                t = t + lift(a[k - j]) * lift(v[j])
        full_.append(t)
    if mode == "full":
        return arr(full_)
    if mode == "valid":
        return arr(full_[m - 1:n])
    if mode == "same":
        s = (m - 1) // 2
        return arr(full_[s:s + n])
    raise Unsupported("convolution mode")


def pinv(m, *a, **k):
    """the exact pseudo-inverse of a constant matrix with independent columns"""
    if type(m).__name__ == "MapSeq":
        h = getattr(S.CTX, "abstract_pinv", None)
        if h is None or a or k:
            raise Unsupported("numpy.linalg.pinv")
        return h(m)
    if a or k or symbolic([m]) and any(isinstance(e, Sym) and not e.is_const() for e in raw(m).ravel()):
        raise Unsupported("numpy.linalg.pinv")
    q = [[e.cval() if isinstance(e, Sym) else Fraction(e) for e in r] for r in np.asarray(raw(m) if symbolic([m]) else m).tolist()]
    q = [[Fraction(e) for e in r] for r in q]
    n, c = len(q), len(q[0])
    g = [[sum(q[r][i] * q[r][j] for r in range(n)) for j in range(c)] + [q[r][i] for r in range(n)] for i in range(c)]
    for i in range(c):
        piv = next((r for r in range(i, c) if g[r][i] != 0), None)
        if piv is None:
            raise Unsupported("numpy.linalg.pinv of dependent columns")
        g[i], g[piv] = g[piv], g[i]
        g[i] = [e / g[i][i] for e in g[i]]
        for r in range(c):
            if r != i and g[r][i]:
                f = g[r][i]
                g[r] = [x - f * y for x, y in zip(g[r], g[i])]
    o = np.empty((c, n), object)
    for i in range(c):
        for j in range(n):
            o[i, j] = const(g[i][c + j])
    return np.matrix(o) if isinstance(m, np.matrix) else o.view(SArr)


def mat(x, *a, **k):
    if type(x).__name__ == "MapSeq" or isinstance(x, list) and x and type(x[0]).__name__ == "Each":
        return array(x)
    return _delegate(np.asmatrix, "mat")(x, *a, **k)


def factorial(n):
    return n.vc_factorial() if hasattr(n, "vc_factorial") else math.factorial(n)


# ---------------------------------------------------------------- module objects
def _delegate(f, name):
    if not callable(f) or isinstance(f, type):
        return f

    def g(*a, **k):
        if symbolic(a) or symbolic(k):
            raise Unsupported("numpy.%s on symbolic values" % name)
        return f(*a, **k)
    return g


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        d.update(array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfarray=asarray,
                 zeros=zeros, ones=ones, full=full, empty=zeros, eye=eye, identity=eye, zeros_like=zeros_like,
                 ones_like=ones_like, empty_like=zeros_like, full_like=lambda x, v, **k: full(np.shape(raw(x)), v),
                 diag=diag, linspace=linspace, arange=arange,
                 sqrt=sqrt, cos=cos, sin=sin, tan=tan, arcsin=arcsin, arccos=arccos, arctan=arctan,
                 arctan2=arctan2, asin=arcsin, acos=arccos, atan=arctan, atan2=arctan2,
                 abs=absolute, absolute=absolute, fabs=absolute, square=square, power=power,
                 hypot=hypot, negative=negative, reciprocal=reciprocal, deg2rad=deg2rad, radians=deg2rad,
                 rad2deg=rad2deg, degrees=rad2deg, sign=sign, add=add, subtract=subtract, multiply=multiply,
                 divide=divide, true_divide=divide, mod=mod, remainder=mod, maximum=maximum, minimum=minimum,
                 fmax=maximum, fmin=minimum, floor=floor, ceil=ceil, fix=fix, trunc=fix, rint=around,
                 log10=ew(S.log10), log=ew(S.ln), exp=ew(S.exp),
                 round=around, around=around, round_=around, isnan=isnan, isfinite=isfinite, isinf=isinf, logical_not=logical_not,
                 logical_and=logical_and, logical_or=logical_or, less=less, less_equal=less_equal, greater=greater,
                 greater_equal=greater_equal, equal=equal, not_equal=not_equal, isclose=isclose, allclose=allclose,
                 all=all_, any=any_, array_equal=array_equal, clip=clip, where=where, dot=dot, matmul=matmul,
                 vdot=vdot, inner=dot, cross=cross, outer=outer, trace=trace, sum=sum_, mean=mean, average=mean,
                 prod=prod, max=amax, amax=amax, min=amin, amin=amin, argmin=argmin, argmax=argmax, copy=copy,
                 argsort=argsort, sort=sort_, einsum=einsum, roll=roll, convolve=convolve, mat=mat, asmatrix=mat, pi=math.pi, inf=math.inf, nan=math.nan,
                 float64=SFloat, float32=np.float32, float16=np.float16, float_=SFloat, ndarray=np.ndarray, newaxis=None,
                 errstate=np.errstate, seterr=lambda **k: {}, printoptions=np.printoptions)
        for n in ("append", "concatenate", "vstack", "hstack", "stack", "column_stack", "transpose", "reshape",
                  "ravel", "squeeze", "atleast_1d", "atleast_2d", "delete", "tile", "repeat", "flip", "expand_dims",
                  "shape", "ndim", "size", "triu", "tril", "cumsum", "broadcast_to"):
            d[n] = structural(n)
        d["shape"] = lambda x: raw(x).shape
        d["size"] = lambda x, *a: raw(x).size
        d["ndim"] = lambda x: raw(x).ndim
        la = types.ModuleType("numpy.linalg")
        la.norm, la.inv, la.det, la.pinv = norm, inv, det, pinv
        la.LinAlgError = np.linalg.LinAlgError
        la.__getattr__ = lambda n: _delegate(getattr(np.linalg, n), "linalg." + n)
        d["linalg"] = la
        rnd = types.ModuleType("numpy.random")

        def normal(*a, **k):
            c = S.ctx()
            v = c.rng.normal(size=S.NS)
            if a or k:
                raise Unsupported("random draw with parameters")
            return c.sym(c.new_var("random", "scalar", v))
        rnd.normal = normal
        rnd.randn = lambda *a: normal() if not a else arr([normal() for _ in range(int(a[0]))])
        rnd.standard_normal = lambda size=None: normal() if size is None else arr([normal() for _ in range(int(size))])

        def nr(n):
            if n.startswith("__"):
                raise AttributeError(n)
            def g(*a, **k):
                raise Unsupported("numpy.random." + n)
            return g
        rnd.__getattr__ = nr
        d["random"] = rnd

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _delegate(getattr(np, n), n)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        d = self.__dict__
        d.update(sqrt=lambda x: sqrt(x), cos=cos, sin=sin, tan=tan, asin=arcsin, acos=arccos, atan=arctan,
                 atan2=arctan2, hypot=lambda *a: norm(list(a)), pi=math.pi, inf=math.inf, nan=math.nan,
                 fabs=lambda x: abs(scal(x)), pow=lambda x, y: S.sym_pow(x, y), isnan=isnan, isfinite=isfinite,
                 isinf=isinf, radians=deg2rad, degrees=rad2deg, e=math.e,
                 floor=lambda x: math.floor(x), ceil=lambda x: math.ceil(x), copysign=self._copysign,
                 log10=S.log10, factorial=factorial, comb=math.comb, trunc=lambda x: S.sym_trunc(x) if isinstance(x, Sym) else math.trunc(x),
                 isclose=lambda a, b, rel_tol=1e-9, abs_tol=0.0: self._isclose(a, b, rel_tol, abs_tol),
                 dist=lambda p, q_: norm([a - b for a, b in zip(p, q_)]), fsum=lambda x: sum_(list(x)))

    @staticmethod
    def _copysign(x, y):
        x = abs(scal(x))
        return x if bool(y >= 0) else -x

    @staticmethod
    def _isclose(a, b, r, t):
        a, b = lift(a), lift(b)
        if a is None or b is None:
            return False
        m = _max2(abs(a), abs(b)) * lift(r)
        m = _max2(m, lift(t))
        return abs(a - b) <= m

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return _delegate(getattr(math, n), "math." + n)


class _SF(type):
    def __instancecheck__(cls, o):
        return isinstance(o, (builtins.float, Sym, Undef, Fraction))

    def __subclasscheck__(cls, o):
        return issubclass(o, builtins.float)

    def __call__(cls, x=0.0):
        if isinstance(x, (Sym, Undef)):
            return x
        if isinstance(x, np.ndarray) and x.size == 1:
            return scal(x.ravel()[0])
        if isinstance(x, SymBool):
            return const(int(bool(x)))
        return builtins.float(x)


class SFloat(metaclass=_SF):
    pass


def s_isinstance(o, c):
    if isinstance(o, (Sym, Undef)):
        cs = c if isinstance(c, tuple) else (c,)
        for k in cs:
            if k is SFloat or k is builtins.float or k in (np.floating, np.number, np.float64, numbers.Real,
                                                           numbers.Number, object, Sym):
                return True
        return False
    if isinstance(o, SymBool):
        cs = c if isinstance(c, tuple) else (c,)
        return any(k in (bool, np.bool_, object, SymBool) for k in cs)
    if hasattr(o, "vc_isinstance"):
        cs = c if isinstance(c, tuple) else (c,)
        return any(o.vc_isinstance(k) for k in cs)
    return builtins.isinstance(o, c)


def s_type(*a):
    if len(a) == 1:
        if isinstance(a[0], Sym):
            return SFloat
        if isinstance(a[0], SArr):
            return np.ndarray
        if isinstance(a[0], SymBool):
            return bool
    return type(*a)


class _ST(type):
    pass


def s_round(x, n=None):
    if isinstance(x, Sym):
        return x.__round__(n)
    return round(x, n) if n is not None else round(x)


NP = NumpyShim()
MATH = MathShim()
