"""C21: construction accepts valid and rejects invalid specifications."""
import numpy as np
from vc.engine import harness
from .common import *

ROUND = ["Circle", "Sphere", "InfiniteCylinder", "Cylinder"]


class AnyName(str):
    """a name which is none of the names it is compared with"""
    __slots__ = ()

    def __eq__(self, o):
        return self is o

    def __ne__(self, o):
        return self is not o

    __hash__ = str.__hash__


def g_r(rng, env):
    k = rng.integers(10)
    if k == 0:
        return 0.0
    if k < 3:
        return float(10.0 ** rng.uniform(-4, 6))
    return g_pos()(rng, env)


g_r.free = (0, 1e6)


def g_delta(lo, hi):
    """a disagreement of size lo..hi (either sign)"""
    def g(rng, env):
        if lo == 0 and rng.integers(3) == 0:
            return 0.0
        return float(rng.choice([-1, 1]) * np.exp(rng.uniform(np.log(max(lo, 1e-12)), np.log(hi))))
    return g


def rejected(cx, label, fn, *a, **k):
    _, e = cx.attempt(fn, *a, **k)
    cx.ensure(label + ": rejected", isinstance(e, Exception))


def mk_round(cx, kind, **kw):
    """-> (constructor, positional arguments)"""
    c = cx.point("c")
    f = getattr(cx.shapes, kind)
    if kind == "Circle" and cx.flag("with normal"):
        return f, (c, cx.real("nl", pos=True) * cx.unit("n"))
    if kind == "InfiniteCylinder":
        return f, (c, cx.real("nl", pos=True) * cx.unit("n"))
    return f, (c,)


@harness("C21", cases=[(k, h) for k in ROUND for h in ("R", "D", "neither", "agree", "conflict")])
def round_shape(cx, case):
    """check_R_and_D through the constructor of every round shape"""
    kind, how = case
    fn, args = mk_round(cx, kind)
    if how == "neither":
        rejected(cx, kind + " with neither radius nor diameter", fn, *args)
        return
    R = cx.real("R", nonneg=True, gen=g_r)
    if how in "RD":
        sh = cx.call(fn, *args, **({"R": R} if how == "R" else {"D": 2 * R}))
        cx.ensure(kind + ": stores the radius", cx.isnum(sh.R) and cx.eq(sh.R, R))
        cx.ensure(kind + ": stores the diameter, twice the radius", cx.isnum(sh.D) and cx.eq(sh.D, 2 * R))
        return
    if how == "agree":
        t = cx.real("delta", gen=g_delta(0, 4.9e-9))
        cx.assume(cx.And(cx.le(t, 5e-9, margin=0), cx.le(-5e-9, t, margin=0)))
        if not cx.symbolic:
            cx.assume(abs((2 * R + t) - 2 * R) < 6e-9)
        sh = cx.call(fn, *args, R=R, D=2 * R + t)
        cx.ensure(kind + ": agreeing radius and diameter are stored",
                  cx.And(cx.isnum(sh.R), cx.isnum(sh.D)) if not (cx.isnum(sh.R) and cx.isnum(sh.D)) else
                  cx.And(cx.le(sh.R - R, 1e-8, margin=0), cx.le(R - sh.R, 1e-8, margin=0),
                         cx.le(sh.D - 2 * R, 1e-8, margin=0), cx.le(2 * R - sh.D, 1e-8, margin=0)))
        return
    # clearly in conflict: by more than 4e-8 (1 + R)
    s = cx.real("excess", pos=True, gen=lambda rng, env: float(10.0 ** rng.uniform(-8, 2)))
    sg = cx.choice("sign", [1, -1])
    D = 2 * R + sg * (4e-8 * (1 + R) + s)
    rejected(cx, kind + " with conflicting radius and diameter", fn, *args, R=R, D=D)


# ---------------------------------------------------------------- rectangles
def rect_users(cx):
    """the kinds that are built on a rectangle: name -> constructor taking (centre, normal, tangent, **sides)"""
    o = cx.optics
    return {"Rectangle": lambda c, n, t, **k: cx.shapes.Rectangle(c, n, t, **k),
            "Mirror": lambda c, n, t, **k: o.Mirror(c, shape="rectangular_flat", normal=n, tangent=t, **k),
            "Grating": lambda c, n, t, **k: o.Grating(c, n, t, **k),
            "Detector": lambda c, n, t, **k: o.Detector(c, n, t, **k)}


RECT = ["Rectangle", "Mirror", "Grating", "Detector"]


def lengths(cx):
    g = lambda rng, env: float(rng.choice([1, 2, 0.5, 1e-3, 1e4, 3.7]))
    return cx.real("ln", pos=True, gen=g), cx.real("lt", pos=True, gen=g)


def g_side(rng, env):
    return 0.0 if rng.integers(5) == 0 else g_pos()(rng, env)


g_side.free = (0, 1e6)


@harness("C21", cases=[(k, h) for k in RECT for h in ("no h", "no w", "neither", "h < 0", "w < 0")])
def rectangle_sides(cx, case):
    kind, how = case
    f = rect_users(cx)[kind]
    t, t2, n = cx.frame("f")
    a = dict(h=cx.real("h", nonneg=True, gen=g_side), w=cx.real("w", nonneg=True, gen=g_side))
    neg = -cx.real("neg", pos=True, gen=lambda rng, env: float(10.0 ** rng.uniform(-9, 3)))
    if how == "no h":
        a.pop("h")
    elif how == "no w":
        a.pop("w")
    elif how == "neither":
        a = {}
    else:
        a[how[0]] = neg
    rejected(cx, "%s with %s" % (kind, how), f, cx.point("c"), n, t, **a)


@harness("C21", cases=RECT)
def rectangle_tangent(cx, kind):
    """a tangent that is not perpendicular to the normal is rejected; one that is (to 5e-9) is accepted"""
    f = rect_users(cx)[kind]
    t, t2, n = cx.frame("f")
    ln, lt = lengths(cx)
    h, w = cx.real("h", nonneg=True, gen=g_side), cx.real("w", nonneg=True, gen=g_side)
    x, y = cx.circle("m", gen=g_skew)        # the tangent is x n + y t
    c = cx.point("c")
    tangent_ = lt * (x * n + y * t)
    big = cx.Or(cx.gt(x, 4e-8, margin=0), cx.lt(x, -4e-8, margin=0))
    small = cx.And(cx.lt(x, 5e-9, margin=0), cx.gt(x, -5e-9, margin=0))
    if cx.test(big):
        cx.cover("not perpendicular")
        rejected(cx, kind + " with a tangent that is not perpendicular to the normal", f, c, ln * n, tangent_, h=h, w=w)
    elif cx.test(small):
        cx.cover("perpendicular to rounding")
        el = cx.call(f, c, ln * n, tangent_, h=h, w=w)
        cx.ensure(kind + " with a tangent perpendicular to rounding: accepted", el is not None)


def g_skew(rng, env):
    k = rng.integers(8)
    if k < 3:
        x = float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-12, -8.4))
    elif k < 6:
        x = float(rng.choice([-1, 1]) * 10.0 ** rng.uniform(-7.3, 0))
    else:
        x = float(rng.choice([-1, 1, 0.5, 0.01]))
    return np.array([x, rng.choice([-1, 1]) * np.sqrt(1 - x * x)])


@harness("C21", cases=RECT)
def rectangle_corners(cx, kind):
    """accepted for every centre, orientation and pair of side lengths; where its corners are"""
    f = rect_users(cx)[kind]
    t, t2, n = cx.frame("f")
    ln, lt = lengths(cx)
    h, w = cx.real("h", nonneg=True, gen=g_side), cx.real("w", nonneg=True, gen=g_side)
    c = cx.point("c")
    el = cx.call(f, c, ln * n, lt * t, h=h, w=w)
    sh = el if kind == "Rectangle" else el.surfaces[0]
    cx.ensure(kind + ": four corners", getattr(sh.bounds, "shape", None) == (4, 3))
    rows = [sh.bounds[i] for i in range(4)]
    for a in (1, -1):
        for b in (1, -1):
            p = c + a * (h / 2) * t + b * (w / 2) * t2
            eqs = [cx.veq(r, p) for r in rows]
            ok = True if any(e is True for e in eqs) else cx.Or(*eqs)
            cx.ensure(kind + ": corner at %+d h/2, %+d w/2" % (a, b), ok)
    cx.ensure(kind + ": unit normal", cx.And(cx.isvec(sh.normal), cx.veq(sh.normal, n)))
    cx.ensure(kind + ": unit tangent", cx.And(cx.isvec(sh.tangent), cx.veq(sh.tangent, t)))
    cx.ensure(kind + ": side lengths", cx.And(cx.eq(sh.h, h), cx.eq(sh.w, w)))
    if kind != "Rectangle":
        cx.ensure(kind + ": unit normal of the element", cx.And(cx.isvec(el.normal), cx.veq(el.normal, n)))
        if kind != "Mirror":
            cx.ensure(kind + ": unit tangent of the element", cx.And(cx.isvec(el.tangent), cx.veq(el.tangent, t)))


# ---------------------------------------------------------------- shape names
SHAPES = {"Mirror": ["circular_flat", "rectangular_flat", "circular_concave_spherical", "circular_convex_spherical"],
          "Lens": ["spherical_biconvex", "spherical"], "Grating": ["rectangular_flat"], "Detector": ["rectangular_flat"]}
NAMES = sorted({n for v in SHAPES.values() for n in v} |
               {"", "flat", "circular", "rectangular", "Circular_flat", "rectangular_flat ", "circular_concave",
                "spherical_biconcave", "sphere", "circular_convex", "parabolic", "none", "elliptical_flat"})


@harness("C21", cases=sorted(SHAPES))
def unknown_shape(cx, kind):
    """every other name (the symbolic run stands for all names), with everything any shape could need given"""
    t, t2, n = cx.frame("f")
    c, D, f = cx.point("c"), cx.real("D", pos=True), cx.real("f_", pos=True)
    h, w = cx.real("h", pos=True), cx.real("w", pos=True)
    bad = [AnyName("no such shape")] + [x for x in NAMES if x not in SHAPES[kind]]
    name = cx.choice("name", bad)
    o = getattr(cx.optics, kind)
    label = "%s of an unknown shape" % kind
    if kind == "Mirror":
        if cx.flag("dmd"):
            rejected(cx, label, o, c, shape=name, normal=n, D=D, w=w, h=h, f=f, tangent=t, type="dmd", dmd_normal=t2)
        else:
            rejected(cx, label, o, c, shape=name, normal=n, D=D, w=w, h=h, f=f, tangent=t)
    elif kind == "Lens":
        ty = cx.choice("type", ["normal", "ideal", "ideal_collimate", "ideal_focus"])
        rejected(cx, label, o, c, normal=n, shape=name, D=D, w=w, h=h, f=f, tangent=t, type=ty)
    else:
        rejected(cx, label, o, c, n, t, shape=name, w=w, h=h)


# ---------------------------------------------------------------- optional parameters left out
def g_len(rng, env):
    return float(rng.choice([1, 2, 0.5, 1e-3, 1e4, 3.7]))


g_len.free = (1e-4, 1e5)


KINDS = ["Ray", "Compound", "Plane", "Circle without normal", "Circle", "InfiniteCylinder", "flat mirror", "dmd mirror",
         "concave mirror", "convex mirror", "ideal lens", "lens without normal", "ball lens", "ball lens with normal",
         "Optic", "Block", "Annotation", "Filter", "Window", "BinaryTree"]


@harness("C21", cases=KINDS)
def defaults(cx, kind):
    """every kind can be built with its optional parameters left out, and stores unit vectors"""
    o, s = cx.optics, cx.shapes
    n, l = cx.unit("n"), cx.real("nl", pos=True, gen=g_len)
    v = l * n
    if cx.flag("list"):
        v = [v[0], v[1], v[2]]
    c, R = cx.point("c"), cx.real("R", pos=True)
    unit = {"normal": n}
    if kind == "Ray":
        el, unit = cx.call(o.Ray, c, v), {"direction": n}
        cx.ensure("Ray: not blocked, at its position", cx.And(el.blocked is False, cx.veq(el.position, c)))
    elif kind == "Compound":
        el, unit = cx.call(o.Compound, cx.call(cx.go.BinaryTree, cx.call(s.Sphere, c, R=R))), {}
        cx.ensure("Compound: has an index", cx.isnum(el.index))
    elif kind == "BinaryTree":
        el, unit = cx.call(cx.go.BinaryTree, "union"), {}
    elif kind == "Plane":
        el = cx.call(s.Plane, c, v)
    elif kind == "Circle without normal":
        el, unit = cx.call(s.Circle, c, R=R), {}
    elif kind == "Circle":
        el = cx.call(s.Circle, c, v, R=R)
    elif kind == "InfiniteCylinder":
        el, unit = cx.call(s.InfiniteCylinder, c, v, R=R), {"direction": n}
    elif kind == "flat mirror":
        el = cx.call(o.Mirror, c, normal=v, D=R)
    elif kind == "dmd mirror":
        m, lm = cx.unit("m"), cx.real("ml", pos=True, gen=g_len)
        el = cx.call(o.Mirror, c, normal=v, D=R, type="dmd", dmd_normal=lm * m)
        unit = {"normal": n, "dmd_normal": m}
    elif kind == "concave mirror":
        el = cx.call(o.Mirror, c, shape="circular_concave_spherical", normal=v, D=R, f=R)
    elif kind == "convex mirror":
        el, unit = cx.call(o.Mirror, c, shape="circular_convex_spherical", D=R), {}
    elif kind == "ideal lens":
        el = cx.call(o.Lens, c, v, D=R, f=R, type="ideal")
    elif kind == "lens without normal":
        el, unit = cx.call(o.Lens, c, D=R), {}
    elif kind == "ball lens":
        el, unit = cx.call(o.Lens, c, shape="spherical", D=R), {}
    elif kind == "ball lens with normal":
        el = cx.call(o.Lens, c, normal=v, shape="spherical", D=R)
    else:
        el = cx.call(getattr(o, kind), c, v, "some shape")
    cx.ensure(kind + ": can be built without its optional parameters", el is not None)
    for k, u in unit.items():
        x = getattr(el, k, None)
        cx.ensure("%s: stores a unit %s" % (kind, k), cx.And(cx.isvec(x), cx.veq(x, u)) if cx.isvec(x) else False)


@harness("C21", cases=["flat mirror", "convex mirror", "ball lens", "disc lens"])
def missing_size(cx, kind):
    """an element with a round surface needs its diameter"""
    n, c = cx.unit("n"), cx.point("c")
    o = cx.optics
    fn, a, k = {"flat mirror": (o.Mirror, (c,), dict(normal=n)),
                "convex mirror": (o.Mirror, (c,), dict(shape="circular_convex_spherical")),
                "ball lens": (o.Lens, (c,), dict(shape="spherical")),
                "disc lens": (o.Lens, (c, n), dict(f=cx.real("f_", pos=True)))}[kind]
    rejected(cx, kind + " without a diameter", fn, *a, **k)
