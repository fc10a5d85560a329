"""C33: small data helpers (general.find_nearest, movingAverageFast, log_interp1d)."""
import numpy as np
from vc import sym as S
from vc.engine import harness, Unsupported
from .c32 import g_sample
from .common import *


class Column:
    """a 1-D array of any length: the elements are functions of those of the array given; two of them are looked at: a generic
    one and the one which the least element is found at"""

    def __init__(self, cx, pair, where):
        self.cx, self.pair, self.where = cx, pair, where

    def vc_map1(self, f):
        return Column(self.cx, [f(e) for e in self.pair], self.where)

    def vc_array(self, f):
        return self

    def _op(op):
        def g(self, o):
            if isinstance(o, Column):
                return Column(self.cx, [op(a, b) for a, b in zip(self.pair, o.pair)], self.where)
            if not self.cx.isnum(o):
                raise Unsupported("arithmetic of the array with something else than a number")
            return self.vc_map1(lambda e: op(e, o))
        return g
    __add__ = __radd__ = _op(lambda a, b: a + b)
    __sub__, __rsub__ = _op(lambda a, b: a - b), _op(lambda a, b: b - a)
    __mul__ = __rmul__ = _op(lambda a, b: a * b)
    __pow__ = _op(lambda a, b: a ** b)

    def __abs__(self):
        return self.vc_map1(abs)
    __neg__ = _neg = lambda self: self.vc_map1(lambda e: -e)
    __array_ufunc__ = None

    def argmin(self, *a, **k):
        if a or k:
            raise Unsupported("argmin with parameters")
        self.cx.assume(self.cx.le(self.pair[1], self.pair[0]))
        return self.where

    def __getitem__(self, i):
        if i is not self.where:
            raise Unsupported("another element of the array")
        return self.pair[1]


class Index:
    def vc_fixed(self):
        return self


@harness("C33", assumes=["numpy: a.argmin() is the position of a least element of a"], con=0)
def nearest_any_length(cx):
    """find_nearest, any number of elements"""
    if not cx.symbolic:
        return
    other, found, v = cx.real("other"), cx.real("found"), cx.real("value")
    col = Column(cx, [other, found], Index())
    r = cx.call(cx.gen.find_nearest, col, v)
    cx.ensure("nearest: index and element", isinstance(r, tuple) and len(r) == 2)
    cx.ensure("nearest: the element at that index", r[0] is col.where and cx.isnum(r[1]))
    cx.ensure("nearest: the element at that index", cx.eq(r[1], found))
    cx.ensure("nearest: no element is nearer", cx.le(cx.abs(r[1] - v), cx.abs(other - v)))


class Size:
    """the window: any whole number"""

    def __init__(self, cx, n):
        self.cx, self.n = cx, n

    def vc_constant(self, v):
        return Weights(self, v)

    def __rtruediv__(self, o):
        return o / self.n


class Weights:
    """an array of as many equal numbers as the window has samples"""

    def __init__(self, size, v):
        self.size, self.v = size, v

    def _n(self, o):
        o = o.n if isinstance(o, Size) else o
        if not self.size.cx.isnum(o):
            raise Unsupported("arithmetic of the weights with something else than a number")
        return o

    def __truediv__(self, o):
        return Weights(self.size, self.v / self._n(o))

    def __mul__(self, o):
        return Weights(self.size, self.v * self._n(o))
    __rmul__ = __mul__
    __array_ufunc__ = None

    def vc_array(self, f):
        return self


class Averaged:
    """numpy's convolution of the data with equal weights, mode 'same': element k is the sum of v x[j] over
    k - N//2 <= j <= k + (N-1)//2, as full[m] is the sum of x[j] w[m-j] over 0 <= m-j < N and 'same' starts at (N-1)//2"""

    def __init__(self, data, w):
        self.data, self.size, self.v = data, w.size, w.v

    def _op(op):
        return lambda self, o: Averaged(self.data, op(Weights(self.size, self.v), o))
    __truediv__, __mul__ = _op(lambda w, o: w / o), _op(lambda w, o: w * o)
    __rmul__ = __mul__
    __array_ufunc__ = None

    def vc_array(self, f):
        return self


class Data:
    """any number of samples, not fewer than the window"""

    def vc_convolve(self, w, mode):
        if not isinstance(w, Weights) or mode != "same":
            raise Unsupported("another convolution")
        return Averaged(self, w)

    def vc_array(self, f):
        return self


@harness("C33", assumes=["numpy: convolve(x, w, 'same') is the middle part of the sums of x[j] w[k-j], as long as x"], con=0)
def average_any_length(cx):
    """movingAverageFast, any number of samples, any window"""
    if not cx.symbolic:
        return
    n = cx.real("N", pos=True)
    cx.assume(cx.le(1, n))
    size, x = Size(cx, n), Data()
    r = cx.call(cx.gen.movingAverageFast, x, size)
    if not isinstance(r, Averaged):
        raise Unsupported("not a convolution with the window")
    cx.ensure("average: one value per sample", r.data is x and r.size is size)
    cx.ensure("average: the mean of the window", cx.eq(r.v * n, 1))


class Scipy:
    def __init__(self, cx, X, Y):
        self.cx = cx
        self.interpolate = self

    def InterpolatedUnivariateSpline(self, x, y, w=None, bbox=(None, None), k=3, ext=0, check_finite=False):
        if k != 1 or w is not None or ext != 0 or not isinstance(x, Column) or not isinstance(y, Column):
            raise Unsupported("another spline")
        cx, (x0, x1), (y0, y1) = self.cx, x.pair, y.pair
        cx.ensure("log interpolation: increasing points", cx.lt(x0, x1))

        def value(q):
            if not cx.isnum(q):
                raise Unsupported("the spline at something else than a number")
            return y0 + (q - x0) * (y1 - y0) / (x1 - x0)
        return value


@harness("C33", assumes=["scipy: InterpolatedUnivariateSpline(x, y, k=1), x increasing, is the polygon through its points, prolonged "
                         "straight beyond the ends"], con=0)
def loglog_any_length(cx):
    """log_interp1d, any number of points: between two of them that follow each other (beyond the ends: the last two)"""
    if not cx.symbolic:
        return
    cx.c.logs = {}
    a, b, t = [cx.real("log x%d" % k) for k in (0, 1)], [cx.real("log y%d" % k) for k in (0, 1)], cx.real("log z")
    cx.assume(cx.lt(a[0], a[1]))
    ten = lambda e: cx.np.power(10, e)
    x, y = Column(cx, [ten(e) for e in a], None), Column(cx, [ten(e) for e in b], None)
    px, py = list(x.pair), list(y.pair)
    cx.world.instead["scipy"] = Scipy(cx, x, y)
    try:
        f = cx.call(cx.gen.log_interp1d, x, y)
        got = cx.call(f, ten(t))
    finally:
        del cx.world.instead["scipy"]
    cx.ensure("log interpolation: the data are not modified", all(p is q for p, q in zip(px + py, x.pair + y.pair)))
    cx.ensure("log interpolation: a number", cx.isnum(got))
    cx.ensure("log interpolation: straight in log-log", cx.eq(got, ten(b[0] + (t - a[0]) * (b[1] - b[0]) / (a[1] - a[0]))))


@harness("C33", cases=[1, 2, 3], con=100)
def nearest(cx, n):
    if not cx.symbolic:
        n = int(cx.int_("n", 1, 60))
    y = cx.arr([cx.real("y%d" % k, gen=g_sample) for k in range(n)])
    v = cx.real("value", gen=lambda rng, env: float(env["y%d" % rng.integers(n)]) if rng.integers(2) else g_sample(rng, env))
    before = cx.heap([y])
    r = cx.call(cx.gen.find_nearest, y, v)
    cx.unchanged("nearest: the array is not modified", before, [y])
    cx.ensure("nearest: index and element", isinstance(r, tuple) and len(r) == 2)
    i = int(r[0])
    cx.ensure("nearest: the element at that index", 0 <= i < n and bool(cx.eq(r[1], y[i]) is not False))
    cx.ensure("nearest: the element at that index", cx.eq(r[1], y[i]))
    for k in range(n):
        cx.ensure("nearest: no element is nearer", cx.le(cx.abs(y[i] - v), cx.abs(y[k] - v)))


@harness("C33", cases=[(n, w) for n in (1, 2, 3, 5, 7) for w in (1, 2, 3, 4, 5) if w <= n], con=40,
         bounded="this length and window; all data")
def average(cx, case):
    """movingAverageFast: the mean of the window around each sample, zero beyond the ends"""
    n, w = case
    if not cx.symbolic:
        n = w + int(cx.int_("more", 0, 30))
        w = min(n, w + int(cx.int_("wider", 0, 9)))
    x = cx.arr([cx.real("x%d" % k, gen=g_sample) for k in range(n)])
    before = cx.heap([x])
    r = cx.call(cx.gen.movingAverageFast, x, w)
    cx.unchanged("average: the data are not modified", before, [x])
    cx.ensure("average: one value per sample", cx.np.shape(r) == (n,))
    for k in range(n):
        t, size = 0, 0
        for j in range(k + (w - 1) // 2 - w + 1, k + (w - 1) // 2 + 1):
            if 0 <= j < n:
                t, size = t + x[j], size + cx.abs(x[j])
        cx.ensure("average: the mean of the window", cx.le(cx.abs(r[k] * w - t), size * 1e-9))   # room for weights rounded as 1/w


@harness("C33", sym=False, bounded="2 to 12 points, positive data, 0.2 to 1 decade apart", con=300)
def loglog(cx):
    """log_interp1d: through the points, straight in log-log between and beyond them"""
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    n = int(rng.integers(2, 13))
    x = 10.0 ** np.cumsum(rng.uniform(0.2, 1, n)) * 10.0 ** rng.integers(-6, 3)
    y = 10.0 ** rng.uniform(-4, 4, n)
    kx, ky = x.copy(), y.copy()
    f = cx.call(cx.gen.log_interp1d, x, y)
    cx.ensure("log interpolation: the data are not modified", np.array_equal(x, kx) and np.array_equal(y, ky))
    z = np.concatenate([x, 10.0 ** rng.uniform(np.log10(x[0]) - 0.5, np.log10(x[-1]) + 0.5, 8)])
    got = np.array([float(f(v)) for v in z]) if rng.integers(2) else np.asarray(f(z))
    lx, ly = np.log10(kx), np.log10(ky)
    for v, g in zip(z, got):
        i = min(max(int(np.searchsorted(kx, v)) - 1, 0), n - 2)
        slope = abs((ly[i + 1] - ly[i]) / (lx[i + 1] - lx[i]))
        want = ly[i] + (np.log10(v) - lx[i]) * (ly[i + 1] - ly[i]) / (lx[i + 1] - lx[i])
        cx.ensure("log interpolation: straight in log-log", g > 0 and abs(np.log10(g) - want) <= 1e-8 * (1 + abs(want) + slope))
