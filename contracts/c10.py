"""C10: refracting balls and compounds use the indices of the media actually crossed."""
from . import c02
from .interact import *
from .c06 import aim_sphere


def crossed(cx, label, t, d, n, e1, e2):
    """t is the direction after meeting a surface of unit normal n from index e1 to e2"""
    cx.ensure(label + ": a direction", cx.isvec(t))
    if cx.test(tir(cx, d, n, e1, e2)):
        cx.ensure(label + ": total reflection beyond the critical angle", cx.veq(t, spec_reflect(cx, d, n)))
    else:
        spec_transmitted(cx, label, t, d, n, e1, e2)


@harness("C10")
def ball_surface(cx):
    """Lens(shape="spherical").test_intersect: nearest forward crossing and the side the ray comes from"""
    c, d, R = cx.point("c", g_dyadic_vec), cx.unit("d"), cx.real("R", pos=True, gen=g_dyadic_pos)
    p = cx.point("p", aim("c", "R"))
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    lens = cx.call(cx.optics.Lens, c, shape="spherical", D=2 * R, index=cx.real("index", pos=True, gen=g_index))
    nearest_on_sphere(cx, "ball", lens, ray, p, d, c, R, sides=True)


def nearest_on_sphere(cx, label, el, ray, p, d, c, R, sides=False):
    """the element is hit at the nearest forward point of the sphere (c, R)"""
    q = p - c
    b, cc = cx.dot(d, q), cx.dot(q, q) - R * R
    disc = b * b - cc
    res = cx.call(el.test_intersect, ray)
    cx.ensure(label + ": the result has four parts", isinstance(res, tuple) and len(res) == 4)
    hit, pt, n, outside = res
    e = 1e-12
    qe = e * e + 2 * b * e + cc
    cx.assume(cx.And(cx.ne(disc, 0), cx.ne(qe, 0)) if cx.symbolic else abs(disc) > 1e-7 and abs(qe) > 1e-7)
    if cx.test(cx.And(cx.gt(disc, 0), cx.Or(cx.lt(qe, 0), cx.lt(b, -e)))):
        cx.ensure(label + ": a forward crossing is met", cx.bool(hit))
        cx.ensure(label + ": the point is a point and the normal a vector", cx.And(cx.isvec(pt), cx.isvec(n)))
        cx.ensure(label + ": the point lies on the surface", cx.eq(cx.dot(pt - c, pt - c), R * R))
        cx.ensure(label + ": the point lies on the ray", cx.parallel(pt - p, d))
        t = cx.dot(pt - p, d)
        cx.ensure(label + ": the point is ahead", cx.gt(t, e))
        inside = cx.test(cx.lt(qe, 0))
        # the parameters of the two crossings add up to -2b, the nearest one is at most -b from outside
        if inside:
            cx.cover("from inside")
            if sides:
                cx.ensure(label + ": a ray inside comes from inside", cx.Not(cx.bool(outside)))
        else:
            cx.cover("from outside")
            if sides:
                cx.ensure(label + ": a ray outside comes from outside", cx.bool(outside))
            cx.ensure(label + ": the nearest crossing is met", cx.le_ok(t, -b))
        cx.ensure(label + ": normal line at the point", cx.And(cx.parallel(n, c - pt), cx.eq(cx.dot(n, n), 1)))
    else:
        cx.ensure(label + ": no forward crossing, no hit", cx.Not(cx.bool(hit)))


@harness(["C10", "C01", "C13", "C19"])
def ball(cx):
    """Lens(shape="spherical").do_intersect: ambient to glass from outside, glass to ambient from inside"""
    d, n = cx.unit("d"), cx.unit("n", g_steep("d"))
    p = cx.point("p")
    index = cx.real("index", pos=True, gen=g_index)
    lens = cx.call(cx.optics.Lens, cx.point("c"), shape="spherical", D=cx.real("D", pos=True), index=index)
    ray = ray_at(cx, p, d)
    dn = cx.dot(d, n)
    cx.assume(cx.ne(dn, 0) if cx.symbolic else abs(dn) > 1e-6)
    outside = cx.flag("outside")
    before = cx.heap([ray, lens, n])
    cx.call(lens.do_intersect, ray, p, n, outside)
    unit_direction(cx, "ball", ray)
    ray_frame(cx, "ball: nothing but the direction changes", before, ray, (lens, n))
    if cx.on("C10"):
        crossed(cx, "ball", ray.direction, d, n, *((1, index) if outside else (index, 1)))


class Leaf:
    """a solid with a surface through pt: past it (along d, for the next 1e-5) it is inside or not"""

    def __init__(self, cx, pt, d, past):
        self.cx, self.pt, self.d, self.past = cx, pt, d, past

    def test_point(self, x):
        s = self.cx.dot(self.cx.arr(x) - self.pt, self.d)
        near = self.cx.test(self.cx.And(self.cx.lt(0, s, margin=0), self.cx.lt(s, 1e-5, margin=0)))
        return self.past if near else not self.past


@harness(["C10", "C01", "C13", "C19"])
def compound_refract(cx):
    """Compound.do_intersect: the point just past the surface decides which index comes second"""
    d, n = cx.unit("d"), cx.unit("n", g_steep("d"))
    p = cx.point("p")
    index = cx.real("index", pos=True, gen=g_index)
    dn = cx.dot(d, n)
    cx.assume(cx.ne(dn, 0) if cx.symbolic else abs(dn) > 1e-4)
    entering = cx.flag("entering")
    leaf = Leaf(cx, p, d, entering)
    tree = cx.call(cx.go.BinaryTree, leaf)
    comp = cx.call(cx.optics.Compound, tree, surface_behavior="refract", index=index)
    ray = ray_at(cx, p, d)
    s = cx.choice("sign", [1, -1])
    side = cx.choice("side", [None, True, False])
    before = cx.heap([ray, comp, n])
    cx.call(comp.do_intersect, ray, p, s * n, side)
    unit_direction(cx, "compound", ray)
    ray_frame(cx, "compound: nothing but the direction changes", before, ray, (comp, n))
    if cx.on("C10"):
        crossed(cx, "compound", ray.direction, d, n, *((1, index) if entering else (index, 1)))


@harness("C10")
def compound_unknown(cx):
    d, n, p = cx.unit("d"), cx.unit("n"), cx.point("p")
    comp = c02.mk_compound(cx, cx.choice("behaviour", ["absorb", "", None, "Refract", "specular_flat"]),
                           cx.real("index", pos=True, gen=g_index))
    res, err = cx.attempt(comp.do_intersect, ray_at(cx, p, d), p, n, cx.choice("side", [None, True, False]))
    cx.ensure("compound: an unknown surface behaviour is rejected", err is not None)


@harness("C10", sym=False, bounded="balls and two-part solids on generated rays, two surfaces")
def through_solids(cx):
    """end to end: a ray traced into and out of a solid bends as its indices say"""
    c, R = cx.point("c"), cx.real("R", pos=True)
    d = cx.unit("d")
    p = cx.point("p", aim("c", "R"))
    index = cx.real("index", pos=True, gen=g_index)
    kind = cx.choice("kind", ["ball", "compound", "lens"])
    if kind == "compound" and cx.flag("single"):
        el = cx.optics.Compound(cx.go.BinaryTree(cx.shapes.Sphere(c, R=R)), surface_behavior="refract", index=index)
        inside = lambda x: cx.norm(x - c) < R
    elif kind == "ball":
        el = cx.call(cx.optics.Lens, c, shape="spherical", D=2 * R, index=index)
        tests = [lambda x: cx.norm(x - c) < R]
        inside = tests[0]
    else:
        T = cx.go.BinaryTree
        c2 = c + cx.vec("o") * R * 0.4
        R2 = R * cx.real("ratio", pos=True, gen=g_pos(0.5, 2))
        op = cx.choice("op", ["union", "intersect", "difference"])
        tree = T(op)
        tree.insertLeft(cx.shapes.Sphere(c, R=R))
        tree.insertRight(cx.shapes.Sphere(c2, R=R2))
        el = cx.call(cx.optics.Compound, tree, surface_behavior="refract", index=index)
        A, B = (lambda x: cx.norm(x - c) < R), (lambda x: cx.norm(x - c2) < R2)
        inside = {"union": lambda x: A(x) or B(x), "intersect": lambda x: A(x) and B(x),
                  "difference": lambda x: A(x) and not B(x)}[op]
    ray = ray_at(cx, p, d)
    for k in range(3):
        d0 = ray.direction.copy()
        res = cx.call(el.test_intersect, ray)
        if not res[0]:
            return
        pt, n = res[1], cx.np.asarray(res[2], float)
        n = n / cx.norm(n)
        if abs(cx.dot(d0, n)) < 1e-2 or cx.norm(pt - ray.position) < 1e-3:
            return
        a, b = inside(pt - 1e-6 * d0), inside(pt + 1e-6 * d0)
        if a == b:
            return
        cx.call(ray.fly, cx.norm(pt - ray.position))
        cx.call(el.do_intersect, ray, pt, res[2], res[3])
        e1, e2 = (index, 1.0) if a else (1.0, index)
        s = e1 * cx.norm(cx.cross(d0, n)) - e2
        if abs(s) < 1e-5:
            return
        crossed(cx, "solid", ray.direction, d0, n, e1, e2)
