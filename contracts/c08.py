"""C08: membership of points in solids, and the refractive index at a point."""
import numpy as np
from vc.engine import harness, Unsupported, deep_same, PathEnd
from vc.loops import Opaque, SelectSeq
from . import rot
from .common import *
from .c24 import subtree, random_tree, walk, Model

OPS = {"union": lambda a, b: a or b, "intersect": lambda a, b: a and b, "difference": lambda a, b: a and not b}


def truth(x):
    """the answer of a membership test, which has to be a plain truth value"""
    return isinstance(x, (bool, np.bool_))


def is_inside(cx, label, ans, inside):
    """inside: condition (symbolic) or truth value"""
    if cx.symbolic and not truth(ans):
        if ans is None:
            cx.ensure(label + ": inside exactly when it should be", cx.Not(inside))
            return
        raise Unsupported("membership test answers %r" % (ans,))
    if cx.symbolic:
        cx.ensure(label + ": inside exactly when it should be", inside if ans else cx.Not(inside))
    else:
        cx.ensure(label + ": inside exactly when it should be", bool(ans) == bool(inside))


def g_around(center, dist):
    """a point near the surface at distance R, inside, outside, or anywhere"""
    def g(rng, env):
        k = rng.integers(10)
        R = env["R"]
        if k < 1:
            return g_vec(rng, env)
        u = g_unit(rng, env) if k < 7 else np.eye(3)[rng.integers(3)] * rng.choice([-1., 1.])
        r = R * (float(rng.uniform(0, 2)) if k < 7 else float(rng.choice([0.5, 1, 1, 2])))
        return env[center] + u * r
    return g


@harness("C08")
def sphere_point(cx):
    c, R = cx.point("c", g_dyadic_vec), cx.real("R", pos=True, gen=g_dyadic_pos)
    p = cx.point("p", g_around("c", "R"))
    by = cx.choice("by", ["R", "D"])
    s = cx.call(cx.shapes.Sphere, c, **({"R": R} if by == "R" else {"D": 2 * R}))
    q = p - c
    dd = cx.dot(q, q)
    if not cx.symbolic:
        exact = axis_aligned(q / R) and dyadic(c, R, p)
        if not exact and abs(dd - R * R) < 1e-6 * (1 + R * R + np.dot(c, c)):
            return
    is_inside(cx, "sphere", cx.call(s.test_point, p), cx.lt(dd, R * R) if cx.symbolic else dd < R * R)


def g_around_axis(rng, env):
    a, R = env["f.e3"], env["R"]
    k = rng.integers(10)
    if k < 1:
        return g_vec(rng, env)
    if k < 7:
        u = np.cross(a, g_unit(rng, env))
        u = u / (np.linalg.norm(u) or 1)
        return env["c"] + a * rng.normal() * 5 + u * R * float(rng.uniform(0, 2))
    u = np.roll(np.eye(3)[np.argmax(np.abs(a))], 1)
    return env["c"] + a * float(rng.integers(-3, 4)) + u * R * float(rng.choice([.5, 1, 1, 2])) * rng.choice([-1, 1])


@harness("C08")
def cylinder_point(cx):
    f = axis_frame(cx)
    a = f[2]
    c, R = cx.point("c", g_dyadic_vec), cx.real("R", pos=True, gen=g_dyadic_pos)
    p, _ = cx.coords("p", f, origin=c, gen=g_around_axis)
    by = cx.choice("by", ["R", "D"])
    s = cx.call(cx.shapes.InfiniteCylinder, c, long(cx, "a", a), **({"R": R} if by == "R" else {"D": 2 * R}))
    q = p - c
    dd = cx.dot(q, q) - cx.dot(q, a) * cx.dot(q, a)
    if not cx.symbolic:
        exact = axis_aligned(a) and dyadic(c, R, p) and R in (.25, .5, 1, 2, 4) and sum(abs(cx.cross(q, a)) > 0) < 2
        if not exact and abs(dd - R * R) < 1e-6 * (1 + R * R + np.dot(p, p) + np.dot(c, c)):
            return
    is_inside(cx, "cylinder", cx.call(s.test_point, p), cx.lt(dd, R * R) if cx.symbolic else dd < R * R)


# ---------------------------------------------------------------- trees, by induction over their depth
class Part:
    """an abstract primitive"""

    def __init__(self, point, ans):
        self.point, self.ans = point, ans

    def test_point(self, p):
        if not deep_same(p, self.point):
            raise Unsupported("another point")
        return self.ans

    def test_intersect(self, ray):
        raise Unsupported("an intersection")


@harness("C08", cases=sorted(OPS), con=4)
def tree_node(cx, op):
    """an operator node over two arbitrary subtrees, whose membership is given by the contract of test_tree_point"""
    p = cx.point("p")
    la, ra = cx.flag("in left"), cx.flag("in right")
    t = cx.call(cx.go.BinaryTree, op)
    if cx.symbolic:
        l, r = subtree(cx, "left"), subtree(cx, "right")
        if not {"leftChild", "rightChild"} <= set(t.__dict__):
            raise Unsupported("a tree node does not keep its children as leftChild and rightChild")
        t.leftChild, t.rightChild = l, r
        f = cx.go.test_tree_point

        def contract(tree, point):
            if not deep_same(point, p):
                raise Unsupported("another point")
            if tree is l or tree is r:
                return la if tree is l else ra
            raise Unsupported("membership in something that is not a child")
        cx.stub("general_optics.test_tree_point", contract)
        ans = cx.call(f, t, p)
        if not truth(ans):
            raise Unsupported("tree membership answers %r" % (ans,))
    else:
        t.insertLeft(Part(p, la))
        t.insertRight(Part(p, ra))
        ans = cx.call(cx.go.test_tree_point, t, p)
    cx.ensure("tree: %s of the parts" % op, bool(ans) == OPS[op](la, ra))


@harness("C08", con=4)
def tree_leaf(cx):
    """a leaf: membership in its primitive"""
    p = cx.point("p")
    a = cx.flag("inside")
    t = cx.call(cx.go.BinaryTree, Part(p, a))
    ans = cx.call(cx.go.test_tree_point, t, p)
    if cx.symbolic and not truth(ans):
        raise Unsupported("tree membership answers %r" % (ans,))
    cx.ensure("tree: a leaf is its primitive", bool(ans) == a)


@harness("C08", con=10)
def compound_index(cx):
    """Compound.get_index_at_point_if_inside: the index inside, nothing outside"""
    p, index = cx.point("p"), cx.real("index", pos=True)
    inside = cx.flag("inside")
    if cx.symbolic:
        t = subtree(cx, "tree")

        def contract(tree, point):
            if tree is not t or not deep_same(point, p):
                raise Unsupported("membership of another point or tree")
            return inside
        if cx.stub("general_optics.test_tree_point", contract) is False:
            raise Unsupported("no function test_tree_point")
    else:
        t = cx.go.BinaryTree(Part(p, inside))
    comp = cx.call(cx.optics.Compound, t, surface_behavior=cx.choice("behaviour", ["reflect", "refract"]), index=index)
    for k in range(2):
        ans = cx.call(comp.get_index_at_point_if_inside, p)
        if inside:
            cx.ensure("compound: its index at points inside", cx.isnum(ans) and cx.eq(ans, index))
        else:
            cx.ensure("compound: nothing at points outside", ans is None)


class Element:
    """an abstract element of the world: reports an index at the point, or nothing"""

    def __init__(self, point, index):
        self.point, self.index_ = point, index

    def get_index_at_point_if_inside(self, point):
        if not deep_same(point, self.point):
            raise Unsupported("another point")
        return self.index_


@harness("C08", con=50)
def world_index(cx):
    """get_index_at_point over a list of any length"""
    p = cx.point("p")
    if not cx.symbolic:
        els = [Element(p, cx.real("i%d" % k, pos=True) if cx.flag("c%d" % k) else None)
               for k in range(cx.int_("n", 0, 5, big=5000))]
        known = [e.index_ for e in els if e.index_ is not None]
        ans = cx.call(cx.optics.get_index_at_point, els, p)
        cx.ensure("world: the first element that contains the point decides",
                  cx.isnum(ans) and cx.eq(ans, known[0] if known else 1))
        return

    def make(kind, tag):
        if kind == "any":
            kind = cx.choice("kind of " + tag, ["yes", "no"])
        return Element(p, cx.real("index " + tag, pos=True) if kind == "yes" else None)
    seq = SelectSeq(cx, "first", make, roots=cx.globals_root)
    ans = cx.call(cx.optics.get_index_at_point, seq, p)
    if not seq.used:
        raise Unsupported("the list is not gone through")
    if seq.pending:
        raise Unsupported("the search ends at an element that does not contain the point") if seq_no(seq) else PathEnd()
    if seq.final is None:
        cx.ensure("world: ambient index 1 where nothing contains the point", cx.isnum(ans) and cx.eq(ans, 1))
    else:
        cx.ensure("world: the first element that contains the point decides",
                  cx.isnum(ans) and cx.eq(ans, seq.final.index_))


def seq_no(seq):
    """the loop was left at an element that is not to be selected"""
    return seq.loop.alt == 2


# ---------------------------------------------------------------- whole trees and worlds on the real code
def inside_leaf(s, p):
    q = p - s.center
    if hasattr(s, "direction"):
        a = s.direction / np.linalg.norm(s.direction)
        q = q - np.dot(q, a) * a
    return np.linalg.norm(q) - s.R


def depth_of(m, p):
    """truth value and distance to the nearest part boundary"""
    if m.l is None:
        x = inside_leaf(m.v, p)
        return x < 0, abs(x)
    a, b = depth_of(m.l, p), depth_of(m.r, p)
    return OPS[m.v](a[0], b[0]), min(a[1], b[1])


def chain(cx, rng, n, leaf):
    """a tree of depth n, in which every node has a leaf on one side"""
    v = leaf()
    m = Model(v)
    for _ in range(n):
        op = Model(["union", "union", "difference", "intersect"][rng.integers(4)])
        other = Model(leaf())
        op.l, op.r = (m, other) if rng.integers(2) else (other, m)
        m = op
    t = cx.call(cx.go.BinaryTree, m.v)
    x, y = t, m
    while y.l is not None:                       # without recursion
        for s, c in (("Left", y.l), ("Right", y.r)):
            cx.call(getattr(x, "insert" + s), c.v)
        s = "Left" if y.l.l is not None else "Right"
        x, y = cx.call(getattr(x, "get%sChild" % s)), y.l if s == "Left" else y.r
    return t, m


def random_leaf(cx, rng):
    S = cx.shapes

    def leaf():
        c = rng.normal(size=3) * 1.5
        R = float(rng.uniform(0.3, 2.5))
        if rng.integers(3) == 0:
            d = rng.normal(size=3) if rng.integers(2) else np.eye(3)[rng.integers(3)] * rng.choice([-1., 1.])
            return S.InfiniteCylinder(c, d, R=R)
        return S.Sphere(c, R=R)
    return leaf


@harness("C08", sym=False, bounded="trees of depth up to 5, and chains of up to 300 parts, of spheres and cylinders, 12 points each")
def whole_tree(cx):
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    n = [0, 12, 60, 250][cx.choice("long", [0, 1, 2, 3], [.75, .12, .1, .03])]
    n = cx.int_("more", n, n, big=300)
    t, m = chain(cx, rng, n, random_leaf(cx, rng)) if n else random_tree(cx, rng, int(rng.integers(0, 6)), random_leaf(cx, rng))
    index = float(rng.uniform(0.5, 3))
    comp = cx.call(cx.optics.Compound, t, surface_behavior="refract", index=index)
    p = np.zeros(3)
    for k in range(12):
        if k % 3 == 2:
            p[:] = rng.normal(size=3) * 2          # the same array with other numbers
        else:
            p = rng.normal(size=3) * 2
        ins, far = depth_of(m, p)
        if far < 1e-6:
            continue
        cx.ensure("tree: inside exactly when the parts say so", bool(cx.call(cx.go.test_tree_point, t, p)) == ins)
        ans = cx.call(comp.get_index_at_point_if_inside, p)
        cx.ensure("compound: its index inside, nothing elsewhere", ans == index if ins else ans is None)


@harness("C08", sym=False, bounded="worlds of up to 6 elements")
def whole_world(cx):
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    O = cx.optics
    els, models = [], []
    for _ in range(int(rng.integers(0, 7))):
        if rng.integers(4) == 0:
            els.append([lambda: O.Mirror(rng.normal(size=3), normal=rng.normal(size=3), D=3.0),
                        lambda: O.Detector(rng.normal(size=3), np.array([0, 0, 1.]), np.array([1., 0, 0]), w=2., h=2.),
                        lambda: O.Annotation(rng.normal(size=3), rng.normal(size=3), None)][rng.integers(3)]())
            continue
        t, m = random_tree(cx, rng, int(rng.integers(0, 3)), random_leaf(cx, rng))
        i = float(rng.uniform(0.5, 3))
        els.append(O.Compound(t, surface_behavior="refract", index=i))
        models.append((m, i))
    for _ in range(6):
        p = rng.normal(size=3) * 2
        want = 1.0
        near = False
        for m, i in models:
            ins, far = depth_of(m, p)
            near |= far < 1e-6
            if ins:
                want = i
                break
        if near:
            continue
        cx.ensure("world: the first element that contains the point decides, 1 elsewhere",
                  cx.call(O.get_index_at_point, els, p) == want)
