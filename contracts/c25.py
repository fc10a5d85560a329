"""C25: flat patches placed in space (general_optics.pathpatch_2d_to_3d, pathpatch_translate, draw methods)."""
import numpy as np
from vc import loader
from vc.engine import harness, Unsupported, deep_same
from vc.loops import MapSeq
from . import rot
from .common import *

AXES = {"x": (1, 0, 0), "y": (0, 1, 0), "z": (0, 0, 1)}


class FakePath:
    def __init__(self, vertices, codes):
        self.vertices, self.codes = vertices, codes


class FakeTrans:
    def __init__(self, patch):
        self.patch = patch

    def transform_path(self, path):
        if path is not self.patch.raw:
            raise Unsupported("a path other than the patch's own")
        return FakePath(self.patch.outline, self.patch.codes)


class FakePatch:
    """a 2-D patch: an untransformed path and a transform that makes the outline of it"""

    def __init__(self, outline, codes=None):
        self.outline, self.codes = outline, codes
        self.raw = FakePath("untransformed", codes)
        t = FakeTrans(self)
        self.get_path = lambda: self.raw
        self.get_patch_transform = lambda: t
        self.get_transform = self._no
        self.get_facecolor = lambda: "silver"

    def _no(self, *a, **k):
        raise Unsupported("another method of the patch")


def outline(cx, name="v"):
    """vertices in the plane: any number of them (two generic ones), or the real list"""
    if cx.symbolic:
        vs = [cx.arr([cx.real("%s%dx" % (name, k)), cx.real("%s%dy" % (name, k))]) for k in range(2)]
        return MapSeq(cx, name, vs)
    return np.array([[cx.real("%s%d%s" % (name, k, a)) for a in "xy"] for k in range(cx.int_(name + ".n", 2, 6))])


def points(cx, out, like, label):
    """the placed vertices, one for each vertex of the outline"""
    if isinstance(like, MapSeq):
        if not isinstance(out, MapSeq):
            raise Unsupported("the vertices are not mapped one by one")
        cx.ensure(label + ": one vertex each, in order", out.origin is like.origin and len(out.reps) == len(like.reps))
        return list(out.reps)
    out = cx.np.asarray(out)
    cx.ensure(label + ": one vertex each, in order", out.shape == (len(like), 3))
    return list(out)


def flat(like):
    return list(like.reps) if isinstance(like, MapSeq) else list(like)


def placed(cx, label, out, like, n, shift, rigid=True):
    """out is `like` rigidly placed in the plane perpendicular to n, moved by shift"""
    ws, vs = points(cx, out, like, label), flat(like)
    for w in ws:
        cx.ensure(label + ": vertices are points", cx.isvec(w))
    ws = [cx.arr(w) - shift for w in ws]
    nn = n if cx.symbolic else n / cx.norm(n)
    for w in ws:
        cx.ensure(label + ": in the plane perpendicular to the normal", cx.eq(cx.dot(w, nn), 0))
    if rigid:
        for i in range(len(vs)):
            for j in range(i + 1):
                cx.ensure(label + ": lengths and angles kept",
                          cx.eq(cx.dot(ws[i], ws[j]), vs[i][0] * vs[j][0] + vs[i][1] * vs[j][1]))
        # seen against the normal the outline is not mirrored
        l = cx.norm(n)
        for i in range(1, len(vs)):
            cx.ensure(label + ": not mirrored", cx.eq(cx.dot(cx.cross(ws[0], ws[i]), n),
                                                     (vs[0][0] * vs[i][1] - vs[0][1] * vs[i][0]) * l))


def a_normal(cx, kind):
    """(argument, vector, a tangent)"""
    if kind in AXES:
        return kind, cx.arr(AXES[kind]), None
    if cx.symbolic:
        f = cx.frame("f")
        n = cx.real("len", pos=True) * f[2]

        def ours(a):
            return deep_same(cx.arr(a), n) or deep_same(cx.arr(a), f[2])

        def contract(a, b):
            if ours(a) and deep_same(cx.arr(b), cx.arr([0, 0, 1])):
                # some proper rotation that carries the second direction onto the first
                return cx.arr([[f[0][i], f[1][i], f[2][i]] for i in range(3)]).copy()
            raise Unsupported("rotation_matrix of other directions")
        cx.stub("general_optics.rotation_matrix", contract)
        if hasattr(cx.go, "rotation_matrix2"):
            def contract2(a, b):
                if ours(b) and deep_same(cx.arr(a), cx.arr([0, 0, 1])):
                    return contract(b, a)
                raise Unsupported("rotation_matrix2 of other directions")
            cx.stub("general_optics.rotation_matrix2", contract2)
        t = f[0]
    else:
        n = cx.vec("n", gen=g_normal)
        t = np.cross(n, np.eye(3)[np.argmin(np.abs(n))])
        t = t / np.linalg.norm(t)
    n = cx.arr(n) if cx.symbolic else n
    return {"array": n, "list": list(n), "tuple": tuple(n)}[kind], n.copy(), t


def g_normal(rng, env):
    k = rng.integers(8)
    if k < 3:
        v = np.array([0, 0, rng.choice([-1., 1.])])
        v = v + rng.normal(size=3) * [1, 1, 0] * float(10.0 ** -rng.integers(1, 9)) * (k > 0)
    else:
        v = g_dir(rng, env)
    return v * float(10.0 ** rng.integers(-3, 4)) if rng.integers(2) else v


KINDS = ["array", "list", "tuple", "x", "y", "z"]


@harness("C25", cases=KINDS, assumes=["matplotlib: a patch's outline is get_patch_transform().transform_path(get_path())"])
def place(cx, kind):
    """pathpatch_2d_to_3d: any outline, any normal, any offset"""
    out = outline(cx)
    arg, n, _ = a_normal(cx, kind)
    z = cx.real("z")
    patch = FakePatch(out)
    how = cx.choice("how", ["keyword", "positional", "defaults"])
    keep = out.map(lambda v: v.copy()) if cx.symbolic else out.copy()
    if cx.symbolic:
        keep.origin = out.origin
    before = cx.heap([arg])
    if how == "keyword":
        cx.call(cx.go.pathpatch_2d_to_3d, patch, z=z, normal=arg)
    elif how == "positional":
        cx.call(cx.go.pathpatch_2d_to_3d, patch, z, arg)
    else:
        z = 0
        cx.call(cx.go.pathpatch_2d_to_3d, patch, normal=arg)
    cx.unchanged("placed patch: the normal passed in is not modified", before, [arg])
    placed(cx, "placed patch", patch._segment3d, keep, n, cx.arr([0, 0, z]))


@harness("C25", cases=["array", "list", "tuple"])
def translate(cx, kind):
    """pathpatch_translate: every vertex moves by the same vector"""
    delta = cx.point("delta")
    arg = {"array": delta.copy(), "list": list(delta), "tuple": tuple(delta)}[kind]
    patch = FakePatch(None)
    if cx.symbolic:
        old = [cx.point("p0"), cx.point("p1")]
        seq = MapSeq(cx, "segment", [p.copy() for p in old])
    else:
        old = [cx.point("p%d" % k) for k in range(cx.int_("n", 2, 6))]
        seq = np.array(old, float)
        old = [p.copy() for p in seq]
    patch._segment3d = seq
    before = cx.heap([arg])
    cx.call(cx.go.pathpatch_translate, patch, arg)
    cx.unchanged("moved patch: the shift passed in is not modified", before, [arg])
    ws = points(cx, patch._segment3d, seq, "moved patch")
    for w, p in zip(ws, old):
        cx.ensure("moved patch: every vertex moves by the shift", cx.isvec(w) and cx.veq(cx.arr(w) - p, delta))


# ---------------------------------------------------------------- drawings of the flat elements
class FakeAxes:
    def __init__(self):
        self.patches, self.outlines, self.polygons = [], [], []

    def add_patch(self, p):
        self.patches.append(p)
        if isinstance(p, FakePatch):
            self.outlines.append(p.outline)
        elif hasattr(p, "_segment3d"):
            self.outlines.append(None)
        else:
            self.outlines.append(np.array(p.get_patch_transform().transform_path(p.get_path()).vertices))
        return p

    add_artist = add_patch

    def add_collection3d(self, col, zs=0, zdir="z", **k):
        self.polygons.append(col)
        return col


def fake_matplotlib(cx):
    def circle(xy, radius=5, **k):
        if tuple(xy) != (0, 0):
            raise Unsupported("a circle off the origin")
        seq = MapSeq(cx, "circle", [radius * cx.arr(cx.circle("u%d" % j)) for j in range(2)])
        return FakePatch(seq)

    def rectangle(xy, width, height, **k):
        x, y = xy
        return FakePatch([cx.arr([x + a * width, y + b * height]) for a, b in ((0, 0), (1, 0), (1, 1), (0, 1))])

    def poly(verts, *a, **k):
        return Polygon(verts)
    mods = cx.world.mods
    for mn, cn, f in (("matplotlib.patches", "Circle", circle), ("matplotlib.patches", "Rectangle", rectangle),
                      ("mpl_toolkits.mplot3d.art3d", "Poly3DCollection", poly)):
        if mn not in mods:
            continue
        old = getattr(mods[mn], cn)
        for m in mods.values():
            for k, v in list(m.__dict__.items()):
                if v is old:
                    setattr(m, k, f)


class Polygon:
    def __init__(self, verts):
        self.verts = verts


FLAT = [("Mirror", "circular_flat"), ("Mirror", "rectangular_flat"), ("Mirror", "circular_concave_spherical"),
        ("Lens", "spherical_biconvex"), ("Grating", "rectangular_flat"), ("Detector", "rectangular_flat")]


@harness("C25", cases=FLAT)
def drawing(cx, case):
    """draw(): the flat patch of an element sits in the plane through its position perpendicular to its normal"""
    kind, shape = case
    arg, n, t = a_normal(cx, "array")
    p = cx.point("p")
    kw = {}
    if shape.startswith("circ") or kind == "Lens":
        kw["D"] = cx.real("D", pos=True)
    else:
        kw["w"], kw["h"] = cx.real("w", pos=True), cx.real("h", pos=True)
        kw["tangent"] = t
    if shape == "circular_concave_spherical" or kind == "Lens":
        kw["f"] = cx.real("f", pos=True)
    if kind == "Grating":
        kw["G"] = 1000
    if cx.symbolic:
        fake_matplotlib(cx)
    el = cx.call(getattr(cx.optics, kind), p, normal=arg, shape=shape, **kw)
    ax = FakeAxes()
    view = cx.choice("view", ["3d", "xyz"])
    before = cx.heap([el])
    cx.call(el.draw, ax, view=view)
    cx.unchanged("drawing: the element is not changed", before, [el])
    label = "drawn " + kind.lower()
    for patch, out in zip(ax.patches, ax.outlines):
        if out is None:
            if cx.symbolic:
                raise Unsupported("a patch drawn after placing it")
            out = np.zeros((len(patch._segment3d), 2))
            placed(cx, label, patch._segment3d, out, n, p, rigid=False)
            continue
        placed(cx, label, patch._segment3d, out, n, p)
    nn = n if cx.symbolic else n / np.linalg.norm(n)
    for poly in ax.polygons:
        if cx.symbolic:
            if not isinstance(poly, Polygon):
                raise Unsupported("another kind of polygon")
            vs = [v for ring in poly.verts for v in ring]
        else:
            vs = [v[:3] for v in poly._vec.T] if getattr(poly, "_vec", None) is not None else []
        for v in vs:
            cx.ensure(label + ": corners in the element's plane", cx.isvec(v) and cx.eq(cx.dot(cx.arr(v) - p, nn), 0))



@harness("C25")
def twice(cx):
    """two placements one after the other do not influence each other"""
    fs = [cx.frame("f%d" % k) for k in range(2)] if cx.symbolic else None
    ns = [cx.real("len%d" % k, pos=True) * fs[k][2] for k in range(2)] if cx.symbolic else \
        [cx.vec("n%d" % k, gen=g_normal) for k in range(2)]
    if cx.symbolic:
        def contract(a, b):
            for f, n in zip(fs, ns):
                if deep_same(cx.arr(a), n) and deep_same(cx.arr(b), cx.arr([0, 0, 1])):
                    return cx.arr([[f[0][i], f[1][i], f[2][i]] for i in range(3)]).copy()
            raise Unsupported("rotation_matrix of other directions")
        cx.stub("general_optics.rotation_matrix", contract)
    reuse = cx.flag("reuse the array")
    arg = cx.arr(ns[0]).copy()
    for k in range(2):
        out = outline(cx, "v%d" % k)
        keep = out.map(lambda v: v.copy()) if cx.symbolic else out.copy()
        if cx.symbolic:
            keep.origin = out.origin
        patch = FakePatch(out)
        z = cx.real("z%d" % k)
        if k:
            if reuse:
                for i in range(3):
                    arg[i] = ns[1][i]
            else:
                arg = cx.arr(ns[1]).copy()
        cx.call(cx.go.pathpatch_2d_to_3d, patch, z=z, normal=arg)
        placed(cx, "placed patch", patch._segment3d, keep, ns[k], cx.arr([0, 0, z]))


@harness("C25", sym=False, bounded="matplotlib circles, ellipses, polygons and turned rectangles")
def real_patch(cx):
    """matplotlib's own patches, placed and moved"""
    from matplotlib import patches as mp
    kind = cx.choice("kind", ["circle", "rectangle", "ellipse", "polygon", "wedge"])
    x, y, a = cx.real("x"), cx.real("y"), cx.real("a", gen=g_real(-180, 180))
    w, h = cx.real("w", pos=True), cx.real("h", pos=True)
    p = {"circle": lambda: mp.Circle((x, y), w), "rectangle": lambda: mp.Rectangle((x, y), w, h, angle=a),
         "ellipse": lambda: mp.Ellipse((x, y), w, h, angle=a), "wedge": lambda: mp.Wedge((x, y), w, 0, abs(a)),
         "polygon": lambda: mp.Polygon(np.array([[x, y], [w, 0], [0, h], [-w, a]]), closed=True)}[kind]()
    arg, n, _ = a_normal(cx, cx.choice("as", KINDS))
    like = np.array(p.get_patch_transform().transform_path(p.get_path()).vertices)
    z, delta = cx.real("z"), cx.point("delta")
    before = cx.heap([arg, delta])
    cx.call(cx.go.pathpatch_2d_to_3d, p, z=z, normal=arg)
    placed(cx, "placed patch", p._segment3d, like, n, cx.arr([0, 0, z]))
    old = np.array(p._segment3d)
    cx.call(cx.go.pathpatch_translate, p, delta)
    cx.unchanged("placed patch: arguments are not modified", before, [arg, delta])
    cx.ensure("moved patch: every vertex moves by the shift", np.allclose(p._segment3d - old, delta, atol=1e-9 * (1 + np.abs(old).max())))
