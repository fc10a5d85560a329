"""C32: Savitzky-Golay smoothing (general.savitzky_golay)."""
import math
from fractions import Fraction
import numpy as np
from vc.engine import harness, Unsupported
from .c21 import rejected
from .common import *
from .whole import *

CASES = [(w, o, d) for w in (3, 5, 7, 9) for o in range(w - 1) for d in range(o + 1) if w < 7 or d < 3 and (w < 9 or o in (0, 3, 4, 7))]


def weights(w, order, deriv):
    """exact least-squares weights: those of the value (or derivative) at the centre"""
    h = w // 2
    ks = range(-h, h + 1)
    c = order + 1
    g = [[sum(Fraction(k) ** (i + j) for k in ks) for j in range(c)] + [Fraction(int(i == deriv))] for i in range(c)]
    for i in range(c):
        p = next(r for r in range(i, c) if g[r][i])
        g[i], g[p] = g[p], g[i]
        g[i] = [e / g[i][i] for e in g[i]]
        for r in range(c):
            if r != i:
                f = g[r][i]
                g[r] = [x - f * y for x, y in zip(g[r], g[i])]
    a = [g[i][-1] for i in range(c)]
    return [math.factorial(deriv) * sum(a[i] * Fraction(k) ** i for i in range(c)) for k in ks]


def g_sample(rng, env):
    return float(rng.choice([0, 1, -1, 2, 10])) if rng.integers(3) == 0 else float(rng.normal() * 10.0 ** rng.integers(-2, 3))


def run(cx, y, w, order, deriv, rate):
    args = [y, w, order]
    how = cx.choice("how", ["all"] + (["no rate"] if rate is None else []) + (["short"] if rate is None and not deriv else []))
    before = cx.heap([y])
    if how == "short":
        r = cx.call(cx.gen.savitzky_golay, *args)
    elif how == "no rate":
        r = cx.call(cx.gen.savitzky_golay, *args, deriv)
    else:
        r = cx.call(cx.gen.savitzky_golay, *args, deriv=deriv, rate=1 if rate is None else rate)
    cx.unchanged("smoothing: the data are not modified", before, [y])
    return r


LSQ = ["numpy: row d of pinv(B), B the matrix of k**i (k = -h..h, i = 0..order, order <= 2h, so independent columns), applied to samples is "
       "coefficient d of the least-squares polynomial through them at -h..h; applied to equal samples, row 0 gives that value",
       "numpy: convolve(w, x, 'valid')[k] is the sum of w[len(w)-1-i] x[k+i], when x is not shorter than w"]


def setting(cx):
    """any window 2h+1, any order, any number of samples not smaller than the window, any derivative"""
    ints = lambda lo, hi: lambda rng, env: float(rng.integers(lo, hi))
    hs = cx.real("half", gen=ints(1, 9))
    os_ = cx.real("order", gen=lambda rng, env: float(rng.integers(0, 2 * int(env["half"]))))
    ds = cx.real("derivative", gen=lambda rng, env: float(rng.integers(0, int(env["order"]) + 1)))
    ns = cx.real("number", gen=lambda rng, env: float(2 * env["half"] + 1 + rng.integers(0, 20)))
    h, o, d, n = Whole.unknowns(cx, half=hs, order=os_, derivative=ds, number=ns)
    for x in (h >= 1, o >= 0, o <= 2 * h - 1, d >= 0, d <= o, n >= 2 * h + 1):
        cx.assume(x)
    cx.c.abstract_pinv = Inverse
    return h, o, d, n


def least_squares(cx, out, h, o, d):
    """out's element k, h <= k < n - h, is the least-squares derivative at sample k of samples k-h..k+h"""
    cx.ensure("smoothing: the data are filtered", True)
    if not isinstance(out, Filtered):
        raise Unsupported("not a convolution with the weights")
    m, w = out.w.inv, out.w
    cx.ensure("smoothing: one weight per sample of the window", cx.And(m.hi - m.lo == 2 * h + 1, m.lo == -h))
    cx.ensure("smoothing: a polynomial of the order", m.columns == o + 1)
    cx.ensure("smoothing: the weights in the order of the samples", w.flipped)
    cx.ensure("smoothing: as many samples as before", out.data.before.n + out.data.after.n == 2 * h)
    cx.ensure("smoothing: the window is centred", out.data.before.n == h)
    cx.ensure("smoothing: the coefficient of the derivative", w.d - d == 0)


@harness("C32", cases=["plain", "derivative", "rate"], assumes=LSQ, con=0)
def any_window(cx, how):
    """any window, order, derivative and rate, any data not shorter than the window"""
    if not cx.symbolic:
        return
    h, o, d, n = setting(cx)
    first, last = cx.real("first"), cx.real("last")
    y = Samples(cx, n, first, last, lambda: cx.real("sample"))
    d = 0 if how == "plain" else d
    out = cx.call(cx.gen.savitzky_golay, y, 2 * h + 1, o, *([] if how == "plain" else [d] if how == "derivative" else [d, Rate()]))
    least_squares(cx, out, h, o, d)
    f = out.w.f if isinstance(out.w.f, Factor) else Factor({}, out.w.f)
    facts = {k: e for k, e in f.parts.items() if k[0] == "!"}
    powers = h * 0
    for (what, (form, c)), e in f.parts.items():
        if what == "rate":
            powers = powers + Whole(cx, h.table, dict(form), c) * e
    cx.ensure("smoothing: times the factorial", facts == ({} if how == "plain" else {("!", key(d)): 1}) and cx.eq(f.v, 1))
    cx.ensure("smoothing: times the power of the rate", powers == (d if how == "rate" else 0))


@harness("C32", assumes=LSQ, con=0)
def any_constant(cx):
    """any window and order, any number of equal samples not smaller than the window"""
    if not cx.symbolic:
        return
    h, o, d, n = setting(cx)
    c = cx.real("c")
    out = cx.call(cx.gen.savitzky_golay, Samples(cx, n, c, c, lambda: c), 2 * h + 1, o)
    least_squares(cx, out, h, o, 0)
    for part in (out.data.before, out.data.after):
        cx.ensure("smoothing: constant data stay constant", cx.eq(part.e, c))


@harness("C32", cases=["even", "too small"], con=0)
def any_refused(cx, how):
    """every even window, and every window smaller than order + 2"""
    if not cx.symbolic:
        return
    h, o, d, n = setting(cx)
    if how == "even":
        rejected(cx, "smoothing: an even or too small window", cx.gen.savitzky_golay, Samples(cx, n, 0, 0, lambda: cx.real("sample")),
                 2 * h, o)
    else:
        rejected(cx, "smoothing: an even or too small window", cx.gen.savitzky_golay, Samples(cx, n, 0, 0, lambda: cx.real("sample")),
                 2 * h + 1, o + 2 * h)


@harness("C32", cases=CASES, con=12, bounded="this window and order, two lengths of the data; all data and rates")
def smooth(cx, case):
    """any data: least-squares polynomial through the window, at its centre"""
    w, order, deriv = case
    n = w + cx.choice("more", [0, 2]) if cx.symbolic else w + int(cx.int_("more", 0, 20))
    y = cx.arr([cx.real("y%d" % k, gen=g_sample) for k in range(n)])
    rate = cx.real("rate", pos=True) if cx.flag("with rate") else None
    if cx.symbolic:
        cx.c.loose_abs = True         # absolute values only occur beyond the ends of the data, where nothing is claimed
    out = run(cx, y, w, order, deriv, rate)
    cx.ensure("smoothing: as many samples as before", cx.np.shape(out) == (n,))
    wt = weights(w, order, deriv)
    for k in range(w // 2, n - w // 2):
        want = 0
        for i in range(w):
            want = want + (wt[i] if cx.symbolic else float(wt[i])) * y[k - w // 2 + i]
        if rate is not None:
            want = want * rate ** deriv
        cx.ensure("smoothing: the least-squares polynomial at the centre of the window", cx.eq(out[k], want))


@harness("C32", cases=[(3, 0), (3, 1), (5, 2), (5, 3), (7, 4)], con=20, bounded="this window and order")
def constant(cx, case):
    """constant data stay as they are, up to the ends"""
    w, order = case
    n = w + 1
    c = cx.real("c", gen=g_sample)
    out = run(cx, cx.arr([c] * n), w, order, 0, None)
    cx.ensure("smoothing: as many samples as before", cx.np.shape(out) == (n,))
    for k in range(n):
        cx.ensure("smoothing: constant data stay constant", cx.eq(out[k], c))


@harness("C32", cases=[(2, 0), (4, 1), (6, 3), (10, 2), (3, 2), (3, 3), (5, 4), (5, 7), (7, 6), (1, 0), (0, 0), (20, 30)], con=2, bounded="this window and order")
def refused(cx, case):
    w, order = case
    y = cx.arr([cx.real("y%d" % k, gen=g_sample) for k in range(12)])
    rejected(cx, "smoothing: an even or too small window", cx.gen.savitzky_golay, y, w, order)


@harness("C32", sym=False, bounded="windows up to 51, orders up to 6, data up to 200 samples", con=300)
def longer(cx):
    """polynomials of at most the order are reproduced"""
    w = 2 * int(cx.int_("half", 1, 25, big=500)) + 1
    order = min(w - 2, int(cx.int_("order", 0, 6)))
    deriv = int(cx.int_("deriv", 0, order))
    n = w + int(cx.int_("more", 0, 150))
    deg = int(cx.int_("degree", 0, order))
    from numpy.polynomial import Polynomial
    P = Polynomial([cx.real("a%d" % k, gen=g_real(-2, 2)) / (n / 2.0) ** k for k in range(deg + 1)])
    t = np.arange(n) - n / 2.0
    y = P(t)
    if cx.flag("integers") and deg < 2:
        y = np.round(y[0]) + np.arange(n) * deg
        P = Polynomial([y[0] + deg * n / 2.0, deg])
        y = y.astype(int)
    rate = [1, 2, 0.5, 10.0][cx.choice("rate", range(4))]
    want = (P.deriv(deriv) if deriv else P)(t) * rate ** deriv
    keep = np.array(y)
    out = cx.call(cx.gen.savitzky_golay, y, w, order, deriv, rate)
    cx.ensure("smoothing: the data are not modified", np.array_equal(keep, y))
    cx.ensure("smoothing: as many samples as before", np.shape(out) == (n,))
    h = w // 2
    tol = 1e-7 * (1 + np.max(np.abs(y))) * max(1, rate) ** deriv
    cx.ensure("smoothing: polynomials up to the order are reproduced", np.max(np.abs(out[h:n - h] - want[h:n - h])) <= tol)
