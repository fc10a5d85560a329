"""C28: 3-D views with the same scale on all axes (general.set_axes_equal, set_axes_radius)."""
import numpy as np
from vc.engine import harness, Unsupported
from .common import *

XYZ = "xyz"


class Axes:
    """a 3-D plot, of which only the ranges are known"""

    def __init__(self, cx, lims):
        self._cx, self._lims = cx, dict(zip(XYZ, lims))

    def _range(self, k):
        return self._cx.arr(list(self._lims[k]))

    def _set(self, k, a, kw):
        if kw.keys() - {"left", "right", "bottom", "top", k + "min", k + "max", "auto", "emit"}:
            raise Unsupported("set_%slim with %s" % (k, sorted(kw)))
        lo, hi = (list(a) + [None, None])[:2]
        if hi is None and lo is not None and not self._cx.isnum(lo):
            lo, hi = lo
        for n in ("left", "bottom", k + "min"):
            lo = kw.get(n, lo)
        for n in ("right", "top", k + "max"):
            hi = kw.get(n, hi)
        old = self._lims[k]
        self._lims[k] = (old[0] if lo is None else lo, old[1] if hi is None else hi)
        return self._range(k)

    def __getattr__(self, n):
        for k in XYZ:
            if n in ("get_%slim3d" % k, "get_%slim" % k):
                return lambda: self._range(k)
            if n in ("set_%slim3d" % k, "set_%slim" % k):
                return lambda *a, **kw: self._set(k, a, kw)
        raise Unsupported("another method of the plot: %s" % n)


_ax = None


def plot(cx, lims):
    if cx.symbolic:
        return Axes(cx, lims)
    global _ax
    if _ax is None:
        from matplotlib.figure import Figure
        import mpl_toolkits.mplot3d
        _ax = Figure().add_subplot(projection="3d")
    for k, (lo, hi) in zip(XYZ, lims):
        getattr(_ax, "set_%slim3d" % k)(lo, hi)
    return _ax


def ranges(cx, ax):
    out = []
    for k in XYZ:
        r = getattr(ax, "get_%slim3d" % k)()
        cx.ensure("view: a range has two ends", len(r) == 2 and cx.isnum(r[0]) and cx.isnum(r[1]))
        out.append((r[0], r[1]))
    return out


def g_span(rng, env):
    k = rng.integers(6)
    s = float(np.exp(rng.uniform(-4, 6)))
    if k == 0:
        s = float(rng.choice([1, 2, 100]))
    return s * float(rng.choice([1, 1, 1, -1]))


g_span.free = (-1e5, 1e5)


@harness("C28", assumes=["matplotlib: set_xlim3d (y, z) sets exactly the given range and get_xlim3d reports it"])
def equal(cx):
    """set_axes_equal: any three ranges, upright or inverted"""
    lims = []
    for k in XYZ:
        lo = cx.real("lo " + k)
        s = cx.real("span " + k, gen=g_span)
        cx.assume(cx.Or(cx.gt(s, 0), cx.lt(s, 0)) if cx.symbolic else abs(s) > 1e-4)
        lims.append((lo, lo + s))
    ax = plot(cx, lims)
    lims = ranges(cx, ax)
    cx.call(cx.gen.set_axes_equal, ax)
    now = ranges(cx, ax)
    L = now[0][1] - now[0][0]
    spans = [cx.abs(h - l) for l, h in lims]
    for k, (l, h), (a, b) in zip(XYZ, lims, now):
        cx.ensure("view: every axis has the same length", cx.eq(b - a, L))
        cx.ensure("view: every axis keeps its centre", cx.eq(a + b, l + h))
    for s in spans:
        cx.ensure("view: nothing that was in view is cut off", cx.le(s, L) if cx.symbolic else s <= L * (1 + 1e-9))
    cx.ensure("view: as large as the longest axis was", cx.Or(*[cx.eq(L, s) for s in spans]))


@harness("C28")
def radius(cx):
    """set_axes_radius: the origin plus and minus the radius, whatever was in view"""
    ax = plot(cx, [(cx.real("old %s%d" % (k, 0)), 30 + cx.real("old %s%d" % (k, 1))) for k in XYZ])
    o, r = cx.point("o"), cx.real("r", pos=True)
    seq = cx.choice("given as", [0, 1, 2])
    cx.call(cx.gen.set_axes_radius, ax, (o, list(o), tuple(o))[seq], r)
    for k in range(3):
        a, b = ranges(cx, ax)[k]
        cx.ensure("view: from the origin minus the radius to the origin plus the radius",
                  cx.And(cx.eq(a, o[k] - r), cx.eq(b, o[k] + r)))
