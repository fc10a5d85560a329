"""C13: the recorded trajectory is the path flown."""
import numpy as np
from vc.engine import Unsupported
from . import trace, c02, c03, c10, c15, c16, c17
from .interact import *


@harness("C13")
def start(cx):
    """Ray(position, direction): the trajectory is [position]; rays do not share trajectories"""
    p, u = cx.point("p"), cx.vec("u")
    cx.assume(cx.gt(cx.dot(u, u), 0))
    kw = [{}, {"type": "faerie_fire"}, {"wavelength": 400.0, "order": 1}][cx.choice("kw", [0, 1, 2])]
    a = ray_at(cx, p, u, **kw, plain=True)
    b = ray_at(cx, p, u, plain=True)
    for r in (a, b):
        cx.ensure("Ray: starts at its position", cx.And(cx.isvec(r.position), cx.veq(r.position, p)))
        cx.ensure("Ray: the trajectory starts with one point", len(r.point_history) == 1)
        cx.ensure("Ray: the trajectory starts at the position",
                  cx.And(cx.isvec(r.point_history[0]), cx.veq(r.point_history[0], p)))
    cx.ensure("Ray: rays have their own trajectories", a.point_history is not b.point_history)
    cx.call(a.fly, cx.real("s"))
    cx.ensure("Ray: a flight of one ray leaves the other alone",
              len(b.point_history) == 1 and cx.isvec(b.position))
    cx.ensure("Ray: a flight of one ray does not move the other",
              cx.And(cx.veq(b.position, p), cx.veq(b.point_history[0], p)))


@harness("C13", cases=["keyword", "positional"])
def fly(cx, how):
    """Ray.fly(s): one more point, position + s * direction; what was there stays (any earlier trajectory)"""
    d = cx.unit("d")
    p = cx.point("p")
    ray = ray_at(cx, p, d)
    past(cx, ray)
    old, vals = ray.point_history.copy(), None if cx.symbolic else [cx.arr(x) for x in ray.point_history]
    last = ray.position
    s = cx.real("s")
    cx.call(ray.fly, distance=s) if how == "keyword" else cx.call(ray.fly, s)
    now = ray.point_history
    new = cx.grown(now, old)
    cx.ensure("fly: earlier points stay", new is not None)
    if not cx.symbolic:
        cx.ensure("fly: earlier points stay", all(cx.veq(x, y, tol=1e-15) for x, y in zip(vals, now)))
    cx.ensure("fly: exactly one more point", len(new) == 1)
    cx.ensure("fly: the last earlier point is unchanged", cx.And(cx.veq(last, p), cx.veq(now[-2], p)))
    cx.ensure("fly: moves along the direction", cx.And(cx.isvec(ray.position), cx.veq(ray.position, p + s * d)))
    cx.ensure("fly: the last point is the position", cx.And(cx.isvec(now[-1]), cx.veq(now[-1], p + s * d)))
    cx.ensure("fly: the direction is unchanged", cx.And(cx.isvec(ray.direction), cx.veq(ray.direction, d)))


def past(cx, ray):
    """an arbitrary earlier trajectory that ends at the ray's position"""
    if cx.symbolic:
        from vc.loops import Tail
        ray.point_history = Tail([ray.position])
    else:
        k = [0, 1, 2, 50, 3000][cx.choice("earlier", [0, 1, 2, 3, 4], [.2, .2, .2, .39, .01])]
        ray.point_history[:] = list(cx.rng.normal(size=(k, 3))) + [ray.position]


@harness("C13")
def history(cx):
    """flights and interactions in turn; every point recorded stays what it was"""
    d = cx.unit("d")
    p = cx.point("p")
    ray = ray_at(cx, p, d)
    want, seen = [p], [cx.arr(ray.point_history[0])]
    dr, pos = d, p
    for k in range(3):
        s = cx.real("s%d" % k)
        cx.call(ray.fly, s)
        pos = pos + s * dr
        want.append(pos)
        cx.ensure("history: one point per flight", len(ray.point_history) == k + 2)
        if k < 2:
            n = cx.unit("n%d" % k)
            cx.call(ray.reflect, reflect_type="specular_flat", normal=n, intersection_pt=ray.position)
            dr = spec_reflect(cx, dr, n)
    for x, y in zip(want, ray.point_history):
        cx.ensure("history: the points flown through, in order", cx.And(cx.isvec(y), cx.veq(y, x)))
    pl = cx.call(ray.get_plot_repr)
    cx.ensure("plot data: one row per point", getattr(pl, "shape", None) == (4, 3))
    for k, x in enumerate(want):
        cx.ensure("plot data: the points in order", cx.veq(pl[k], x))
    cx.ensure("plot data: reading them leaves the trajectory alone", len(ray.point_history) == 4)


@harness("C13", con=60)
def plot_any_length(cx):
    """get_plot_repr: every point of a trajectory of any length, in order"""
    ray = ray_at(cx, cx.point("p"), cx.unit("d"))
    if cx.symbolic:
        from vc.loops import MapSeq
        x = cx.point("x")

        class Points(MapSeq):
            def __getitem__(self, i):
                if isinstance(i, slice) and i.start in (None, 0) and i.stop is None and i.step in (None, 1):
                    return self
                raise Unsupported("a part of the trajectory")
        seq = Points(cx, "trajectory", [x])
        ray.point_history = seq
        pl = cx.call(ray.get_plot_repr)
        if isinstance(pl, list) and len(pl) == 1 and hasattr(pl[0], "seq"):
            pl = cx.np.array(pl)
        if not isinstance(pl, MapSeq):
            raise Unsupported("the plot data are not an array of the trajectory")
        cx.ensure("plot data: one row per point", pl.origin is seq and len(pl.reps) == 1 and cx.isvec(pl.reps[0]))
        cx.ensure("plot data: the points in order", cx.veq(pl.reps[0], x))
        cx.ensure("plot data: reading them leaves the trajectory alone", ray.point_history is seq and seq.reps[0] is x)
        cx.ensure("plot data: reading them leaves the trajectory alone", len(seq.reps) == 1)
        return
    k = [0, 1, 2, 50, 3000][cx.choice("earlier", [0, 1, 2, 3, 4], [.2, .2, .2, .39, .01])]
    k = cx.int_("more", k, k, big=100000)
    ray.point_history[:] = list(cx.rng.normal(size=(k, 3))) + [ray.position]
    want = np.array(ray.point_history)
    pl = np.asarray(cx.call(ray.get_plot_repr), float)
    cx.ensure("plot data: one row per point", pl.shape == (k + 1, 3))
    cx.ensure("plot data: the points in order", cx.veq(pl, want, tol=1e-15))
    cx.ensure("plot data: reading them leaves the trajectory alone", len(ray.point_history) == k + 1)


@harness("C13", sym=False, bounded="real elements, up to 60 flights")
def long_history(cx):
    """points recorded early in a long trace through real elements never change"""
    p, d = cx.point("p"), cx.unit("d")
    O, c = cx.optics, cx.np.array
    R = 3.0
    els = [O.Mirror(c([0., 0, R]), normal=c([0., 0, -1]), D=50), O.Mirror(c([0., 0, -R]), normal=c([0., 0, 1]), D=50),
           O.Lens(c([0.5, 0, 0]), shape="spherical", D=1.0, index=1.5),
           O.Mirror(c([-0.8, 0, 0.5]), shape="circular_convex_spherical", D=0.7)]
    ray = ray_at(cx, p * 0.3, d)
    snap = [cx.np.array(x, float) for x in ray.point_history]
    for k in range(12):
        cx.call(ray.run, 8.0, els, max_interactions=5)
        now = ray.point_history
        cx.ensure("trace: the trajectory only grows", len(now) >= len(snap))
        for x, y in zip(snap, now):
            cx.ensure("trace: earlier points never change", cx.veq(x, y, tol=1e-15))
        cx.ensure("trace: the last point is the position", cx.veq(now[-1], ray.position))
        snap = [cx.np.array(x, float) for x in now]
        pl = cx.np.asarray(cx.call(ray.get_plot_repr), float)
        cx.ensure("plot data: the points in order", pl.shape == (len(now), 3) and cx.veq(pl, cx.np.array(snap)))
