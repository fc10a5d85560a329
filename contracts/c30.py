"""C30: elements are drawn where rays meet them (draw methods of Mirror, Lens, Grating, Detector)."""
import numpy as np
from vc.engine import harness, Unsupported
from vc.loops import MapSeq
from .c25 import FakeAxes, FakePatch, Polygon, fake_matplotlib, a_normal, KINDS
from .common import *


class Axes(FakeAxes):
    """a plot that keeps what is drawn into it"""

    def __init__(self):
        FakeAxes.__init__(self)
        self.surfaces, self.marks = [], []

    def plot_surface(self, x, y, z, **k):
        self.surfaces.append((x, y, z))

    def plot(self, *a, **k):
        self.marks.append((a, k))
        return ["mark %d" % len(self.marks)]

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("another way of drawing: " + n)


def corners(cx, poly):
    """the rings of a polygon collection"""
    if isinstance(poly, Polygon):
        return [list(ring) for ring in poly.verts]
    if cx.symbolic:
        raise Unsupported("another kind of polygon")
    f = getattr(poly, "_faces", None)
    if f is None:
        f = getattr(poly, "_vec", None)
        f = None if f is None else [f.T[:, :3]]
    if f is None:
        raise Unsupported("this matplotlib does not tell the corners")
    return [[np.array(v) for v in ring] for ring in f]


def ring_of(cx, patch, out):
    """the placed vertices of a flat patch that lie on its outline, in order"""
    seg = patch._segment3d
    if isinstance(seg, MapSeq):
        return list(seg.reps)
    if cx.symbolic:
        return [cx.arr(v) for v in seg]
    codes = patch._code3d
    vs, on, run = [], [], 0
    for k, v in enumerate(np.asarray(seg, float)):
        c = 2 if codes is None and k else 1 if codes is None else codes[k]
        if c == 4:
            run += 1
            if run % 3:
                continue
        elif c == 3:
            run += 1
            if run % 2:
                continue
        elif c in (1, 2):
            run = 0
        else:
            continue
        vs.append(v)
    return vs


def distinct(cx, ring):
    """without repeated vertices in a row (a closed ring repeats its first)"""
    out = []
    for v in ring:
        if not out or not cx.veq(cx.arr(v), cx.arr(out[-1])) is True:
            out.append(v)
    if len(out) > 1 and cx.veq(cx.arr(out[0]), cx.arr(out[-1])) is True:
        out.pop()
    return out


def rings(cx, ax):
    out = []
    for patch, o in zip(ax.patches, ax.outlines):
        if not hasattr(patch, "_segment3d"):
            cx.ensure("drawn: the outline is placed in space", False)
        out.append(ring_of(cx, patch, o))
    for poly in ax.polygons:
        out += corners(cx, poly)
    return out


ROUND = [("Mirror", "circular_flat"), ("Mirror", "circular_concave_spherical"), ("Lens", "spherical_biconvex")]
FLAT = [("Mirror", "rectangular_flat"), ("Grating", "rectangular_flat"), ("Detector", "rectangular_flat")]
BALLS = [("Mirror", "circular_convex_spherical"), ("Lens", "spherical")]


def shown(cx, el, view):
    ax = Axes()
    before = cx.heap([el])
    args = cx.choice("as", ["keyword", "positional"] + (["default"] if view == "3d" else []))
    if args == "keyword":
        r = cx.call(el.draw, ax, view=view)
    elif args == "positional":
        r = cx.call(el.draw, ax, view)
    else:
        r = cx.call(el.draw, ax)
    cx.unchanged("drawn: the element is not changed", before, [el])
    return ax, r


def more(cx, kind, kw):
    """parameters which this kind of element can be given and does not use"""
    if kind in ("Mirror", "Lens") and cx.flag("unused parameters"):
        for k in ("D", "w", "h", "f"):
            if k not in kw:
                kw[k] = cx.real("unused " + k, pos=True)
    return kw


@harness("C30", cases=ROUND, assumes=["matplotlib: Circle(xy, r) is the circle of radius r about xy"])
def discs(cx, case):
    """a circle of the element's diameter about its position, in its plane"""
    kind, shape = case
    if cx.symbolic:
        fake_matplotlib(cx)
    arg, n, t = a_normal(cx, "array")
    p, D = cx.point("p"), cx.real("D", pos=True)
    kw = {} if shape == "circular_flat" else {"f": cx.real("f", pos=True)}
    el = cx.call(getattr(cx.optics, kind), p.copy(), normal=arg, shape=shape, **more(cx, kind, dict(kw, D=D)))
    ax, _ = shown(cx, el, cx.choice("view", ["3d", "xyz"]))
    rs = rings(cx, ax)
    label = "drawn " + kind.lower()
    cx.ensure(label + ": one outline", len(rs) == 1)
    n = n if cx.symbolic else n / np.linalg.norm(n)
    for v in rs[0]:
        cx.ensure(label + ": the outline is a point list", cx.isvec(v))
        w = cx.arr(v) - p
        cx.ensure(label + ": at half the diameter from the position", cx.eq(cx.dot(w, w), D * D / 4))
        cx.ensure(label + ": in the element's plane", cx.eq(cx.dot(w, n), 0))
    if not cx.symbolic:
        u = np.cross(n, np.eye(3)[np.argmin(np.abs(n))])
        u /= np.linalg.norm(u)
        for d in (u, -u, np.cross(n, u), -np.cross(n, u)):
            cx.ensure(label + ": all the way around", max(np.dot(np.asarray(v) - p, d) for v in rs[0]) > 0.6 * D / 2)


@harness("C30", cases=FLAT)
def rectangles(cx, case):
    """exactly the four corners of the surface, in order around it"""
    kind, shape = case
    if cx.symbolic:
        fake_matplotlib(cx)
    arg, n, t = a_normal(cx, "array")
    p, h, w = cx.point("p"), cx.real("h", pos=True), cx.real("w", pos=True)
    kw = {"G": 1000} if kind == "Grating" else {}
    el = cx.call(getattr(cx.optics, kind), p.copy(), normal=arg, tangent=cx.arr(t).copy(), shape=shape, **more(cx, kind, dict(kw, h=h, w=w)))
    ax, _ = shown(cx, el, cx.choice("view", ["3d", "xyz"]))
    rs = rings(cx, ax)
    label = "drawn " + kind.lower()
    cx.ensure(label + ": one outline", len(rs) == 1)
    vs = rs[0]
    for v in vs:
        cx.ensure(label + ": the outline is a point list", cx.isvec(v))
    vs = distinct(cx, vs)
    cx.ensure(label + ": four corners", len(vs) == 4)
    n1 = n if cx.symbolic else n / np.linalg.norm(n)
    if cx.symbolic:
        n1 = cx.arr(n) / cx.norm(n)
    t2 = cx.cross(n1, t)
    loc = [[cx.dot(cx.arr(v) - p, e) for e in (t, t2, n1)] for v in vs]
    for a, b, c in loc:
        cx.ensure(label + ": in the element's plane", cx.eq(c, 0))
        cx.ensure(label + ": height along the tangent", cx.eq(a * a, h * h / 4))
        cx.ensure(label + ": width across the tangent", cx.eq(b * b, w * w / 4))
    for k in range(4):
        cx.ensure(label + ": opposite corners", cx.veq(cx.arr(vs[k]) - p, p - cx.arr(vs[k - 2])))
        (a, b, _), (a1, b1, _) = loc[k], loc[k - 1]
        cx.ensure(label + ": corners in order", cx.eq(a * a1 / (h * h) + b * b1 / (w * w), 0))


@harness("C30", cases=BALLS, con=60)
def balls(cx, case):
    """points of the sphere, all around"""
    kind, shape = case
    p, D = cx.point("p"), cx.real("D", pos=True)
    kw = {"type": "ball"} if kind == "Lens" and cx.flag("type given") else {}
    el = cx.call(getattr(cx.optics, kind), p.copy(), shape=shape, **more(cx, kind, dict(kw, D=D)))
    ax, _ = shown(cx, el, cx.choice("view", ["3d", "xyz"]))
    label = "drawn ball"
    cx.ensure(label + ": one surface", len(ax.surfaces) == 1 and not ax.patches and not ax.polygons)
    x, y, z = ax.surfaces[0]
    cx.ensure(label + ": as a grid", cx.np.shape(x) == cx.np.shape(y) == cx.np.shape(z) and len(cx.np.shape(x)) == 2)
    pts = [(x[i, j], y[i, j], z[i, j]) for i in range(x.shape[0]) for j in range(x.shape[1])]
    for a, b, c in pts:
        cx.ensure(label + ": on the sphere", cx.eq((a - p[0]) ** 2 + (b - p[1]) ** 2 + (c - p[2]) ** 2, D * D / 4))
    if not cx.symbolic:
        q = (np.array(pts, float) - p) / (D / 2)
        for d in np.vstack([np.eye(3), -np.eye(3), np.array(np.meshgrid([1, -1], [1, -1], [1, -1])).reshape(3, -1).T / np.sqrt(3)]):
            cx.ensure(label + ": all around", np.max(q @ d) > 0.9)


@harness("C30", cases=["xy", "tangential", "xz", "sagittal"])
def marks(cx, view):
    """the 2-D views mark a round flat mirror at its position"""
    arg, n, t = a_normal(cx, "array")
    p = cx.point("p")
    el = cx.call(cx.optics.Mirror, p.copy(), normal=arg, D=cx.real("D", pos=True))
    ax, r = shown(cx, el, view)
    cx.ensure("marked mirror: one mark", len(ax.marks) == 1 and len(ax.marks[0][0]) >= 2)
    cx.ensure("marked mirror: the mark is returned", r == "mark 1")
    x, y = ax.marks[0][0][:2]
    one = [v if cx.isnum(v) else v[0] for v in (x, y)]
    cx.ensure("marked mirror: at its position in that view", cx.And(cx.eq(one[0], p[0]), cx.eq(one[1], p[1 if view in ("xy", "tangential") else 2])))
