"""C09: a compound solid is hit at its first real surface.

Proof for two primitives: the primitives are abstract (the contract of Sphere / InfiniteCylinder.test_intersect, proved
for C06 and C07: along the ray a primitive is never met, left once, or entered and left; points may be listed in either
order), everything above them is executed.  Unions of any depth: induction, the recursive call replaced by its contract.
The real code runs with real spheres and cylinders that have the very same crossings."""
import numpy as np
from vc.engine import harness, Unsupported, deep_same
from . import c06, c07
from .common import *
from .c08 import OPS, random_leaf, inside_leaf
from .c24 import subtree, random_tree, Model, graft

FLOOR = 1e-12
KINDS = ["miss", "inside", "outside"]


class Count:
    """an arbitrary crossing count of known parity"""

    def __init__(self, par, positive):
        self.par, self.positive = par, positive

    def _num(self, o):
        if isinstance(o, Count):
            return o
        if type(o) is int and o >= 0:
            return Count(o % 2, o > 0)
        raise Unsupported("arithmetic on a crossing count")

    def __add__(self, o):
        o = self._num(o)
        return Count((self.par + o.par) % 2, self.positive or o.positive)
    __radd__ = __add__

    def __mod__(self, o):
        if o == 2:
            return self.par
        raise Unsupported("arithmetic on a crossing count")
    vc_mod = __mod__

    def __and__(self, o):
        if o == 1:
            return self.par
        raise Unsupported("arithmetic on a crossing count")

    def _zero(self, o):
        if type(o) is int and o == 0 and (self.positive or self.par):
            return True
        raise Unsupported("comparison of a crossing count")

    def __eq__(self, o):
        return not self._zero(o)

    def __ne__(self, o):
        return self._zero(o)

    def _least(self):
        return 1 if self.par else 2 if self.positive else 0

    def __ge__(self, o):
        if type(o) is int and o <= self._least():
            return True
        raise Unsupported("comparison of a crossing count")

    def __gt__(self, o):
        return self >= o + 1 if type(o) is int else NotImplemented

    def __lt__(self, o):
        return not self >= o

    def __le__(self, o):
        return not self > o

    def __bool__(self):
        return self._zero(0)

    __hash__ = None


class Solid:
    """an abstract convex primitive: what a ray from p along d meets of it"""

    def __init__(self, cx, name, p, d, kind, order):
        self.cx, self.p, self.d, self.kind = cx, p, d, kind
        self.s, self.pts, self.ns = [], [], []
        if kind == "miss":
            return
        self.s = [cx.real(name + ".s", pos=True)]
        cx.assume(cx.gt(self.s[0], FLOOR))
        if kind == "outside":
            self.s.append(self.s[0] + cx.real(name + ".gap", pos=True))
        self.pts = [p + s * d for s in self.s]
        self.ns = [cx.unit("%s.n%d" % (name, k)) for k in range(len(self.s))]
        self.slots = [0, 1] if order == "first" else [1, 0]

    def result(self):
        if self.kind == "miss":
            return False, None, None, None, None, 0
        k = len(self.s)
        pt, n = [None, None], [None, None]
        for i in range(k):
            pt[self.slots[i]] = self.pts[i].copy()
            n[self.slots[i]] = self.ns[i].copy()
        return True, pt[0], pt[1], n[0], n[1], k

    def test_intersect(self, ray):
        if not (deep_same(ray.position, self.p) and deep_same(ray.direction, self.d)):
            raise Unsupported("another ray")
        return self.result()

    def test_point(self, x):
        if deep_same(self.cx.arr(x), self.p):
            return self.kind == "inside"
        raise Unsupported("membership of another point")


def real_solid(cx, name, p, d, kind, order):
    """a real sphere or cylinder with the same crossings (order: which of the two lists which point first)"""
    s = []
    if kind == "miss":
        lo, hi = -cx.real(name + ".gap", pos=True) - .1, -.1
    else:
        s = [max(cx.real(name + ".s", pos=True), 1e-3)]
        g = cx.real(name + ".gap", pos=True)
        if kind == "outside":
            s.append(s[0] + g)
            lo, hi = s
        else:
            lo, hi = -g, s[0]
    off = cx.real(name + ".off", gen=g_real(-2, 2))
    u = np.cross(d, np.eye(3)[np.argmin(np.abs(d))])
    u = u / np.linalg.norm(u)
    th = cx.real(name + ".turn", gen=g_real(-3, 3))
    v = np.cross(d, u)
    w = off * (np.cos(th) * u + np.sin(th) * v)
    if kind == "miss" and cx.flag(name + ".beside"):
        w = (hi - lo) / 2 * (1.1 + abs(off)) * (np.cos(th) * u + np.sin(th) * v)
        lo, hi = lo + 1, hi + 1
        c, R = p + (lo + hi) / 2 * d + w, (hi - lo) / 2
    else:
        c, R = p + (lo + hi) / 2 * d + w, np.hypot((hi - lo) / 2, np.linalg.norm(w))
    if order == "first":
        a = np.cross(w, d) if np.linalg.norm(w) > 1e-3 else u
        r = cx.shapes.InfiniteCylinder(c + a * cx.real(name + ".along"), a, R=R)
    else:
        r = cx.shapes.Sphere(c, R=R)
    r.s, r.kind = s, kind
    r.pts = [p + t * d for t in s]
    r.ns = [true_normal(r, x) for x in r.pts]
    return r


def true_normal(s, x):
    q = s.center - x
    if hasattr(s, "direction"):
        a = s.direction / np.linalg.norm(s.direction)
        q = q - np.dot(q, a) * a
    return q / np.linalg.norm(q)


def solid(cx, *a):
    return Solid(cx, *a) if cx.symbolic else real_solid(cx, *a)


def first_event(cx, op, A, B):
    """(point, normal) where the ray first enters or leaves the combination, None if it never does"""
    ev = [(s, 0, k) for k, s in enumerate(A.s)] + [(s, 1, k) for k, s in enumerate(B.s)]
    for x in A.s:
        for y in B.s:
            cx.assume(cx.ne(x, y) if cx.symbolic else abs(x - y) > 1e-4)
    order = []
    while ev:
        m = ev[0]
        for e in ev[1:]:
            if e[1] != m[1] and cx.test(cx.lt(e[0], m[0])):
                m = e
        order.append(m)
        ev.remove(m)
    st = [A.kind == "inside", B.kind == "inside"]
    now = OPS[op](*st)
    for s, who, k in order:
        st[who] = not st[who]
        if OPS[op](*st) != now:
            x = (A, B)[who]
            return x.pts[k], x.ns[k]
    return None


def check_hit(cx, label, hit, pt, n, want):
    if want is None:
        cx.cover("nothing ahead")
        cx.ensure(label + ": no surface ahead, no hit", cx.Not(cx.bool(hit)))
        return
    cx.cover("surface ahead")
    cx.ensure(label + ": a surface ahead is hit", cx.bool(hit))
    cx.ensure(label + ": hit at the first real surface", cx.isvec(pt) and cx.veq(pt, want[0]))
    cx.ensure(label + ": the normal is a vector", cx.isvec(n))
    cx.ensure(label + ": normal line of the primitive that is hit",
              cx.And(cx.parallel(n, want[1]), cx.gt(cx.dot(n, n), 0)))


@harness("C09", cases=[(op, a, b) for op in sorted(OPS) for a in KINDS for b in KINDS])
def pair(cx, case):
    """two primitives, any start region, any order of the crossings"""
    op, ka, kb = case
    p, d = cx.point("p"), cx.unit("d")
    A = solid(cx, "A", p, d, ka, cx.choice("A.order", ["first", "second"]))
    B = solid(cx, "B", p, d, kb, cx.choice("B.order", ["first", "second"]))
    t = cx.call(cx.go.BinaryTree, op)
    cx.call(t.insertLeft, A)
    cx.call(t.insertRight, B)
    ray = mkray(cx, p=p, d=d)
    want = first_event(cx, op, A, B)
    if cx.choice("via", ["tree", "compound"]) == "tree":
        res = cx.call(cx.go.test_tree_intersect, t, ray)
        cx.ensure("tree: the result has six parts", isinstance(res, tuple) and len(res) == 6)
        check_hit(cx, "tree", res[0], res[1], res[3], want)
    else:
        comp = cx.call(cx.optics.Compound, t, surface_behavior="refract")
        res = cx.call(comp.test_intersect, ray)
        cx.ensure("compound: the result has four parts", isinstance(res, tuple) and len(res) == 4)
        check_hit(cx, "compound", res[0], res[1], res[2], want)


@harness("C09")
def single(cx):
    """a compound of one primitive is hit at its nearest crossing"""
    p, d = cx.point("p"), cx.unit("d")
    A = solid(cx, "A", p, d, cx.choice("A.kind", KINDS), cx.choice("A.order", ["first", "second"]))
    t = cx.call(cx.go.BinaryTree, A)
    ray = mkray(cx, p=p, d=d)
    res = cx.call(cx.go.test_tree_intersect, t, ray)
    cx.ensure("leaf: the result has six parts", isinstance(res, tuple) and len(res) == 6)
    cx.ensure("leaf: hit like its primitive", cx.Iff(cx.bool(res[0]), bool(A.s)))
    comp = cx.call(cx.optics.Compound, t, surface_behavior="refract")
    res = cx.call(comp.test_intersect, ray)
    cx.ensure("single: the result has four parts", isinstance(res, tuple) and len(res) == 4)
    check_hit(cx, "single", res[0], res[1], res[2], (A.pts[0], A.ns[0]) if A.s else None)


# ---------------------------------------------------------------- unions of any depth, from outside
class Part:
    """the contract of test_tree_intersect for a union (of any depth) or a primitive, ray outside every part of it"""

    def __init__(self, cx, name, p, d):
        self.kind = cx.choice(name + ".kind", ["miss", "union", "primitive first", "primitive second"])
        self.cx, self.p, self.d = cx, p, d
        if self.kind == "miss":
            self.res, self.s, self.kind = (False, None, None, None, None, 0), None, "miss"
            return
        self.s = cx.real(name + ".s", pos=True)
        cx.assume(cx.gt(self.s, FLOOR))
        self.pt, self.n = p + self.s * d, cx.unit(name + ".n")
        far = None
        if self.kind != "union":
            t = self.s + cx.real(name + ".gap", pos=True)
            far = (p + t * d, cx.unit(name + ".m"))
        if self.kind == "union":
            self.res = (True, self.pt.copy(), None, self.n.copy(), None, Count(0, True))
        elif self.kind == "primitive first":
            self.res = (True, self.pt.copy(), far[0], self.n.copy(), far[1], 2)
        else:
            self.res = (True, far[0], self.pt.copy(), far[1], self.n.copy(), 2)


@harness("C09", con=3)
def union_node(cx):
    """induction step: a union of two unions or primitives; its result has the same form again"""
    if not cx.symbolic:
        return
    p, d = cx.point("p"), cx.unit("d")
    A, B = Part(cx, "A", p, d), Part(cx, "B", p, d)
    if A.s is not None and B.s is not None:
        cx.assume(cx.ne(A.s, B.s))
    t = cx.call(cx.go.BinaryTree, "union")
    l, r = subtree(cx, "left"), subtree(cx, "right")
    if not {"leftChild", "rightChild"} <= set(t.__dict__):
        raise Unsupported("a tree node does not keep its children as leftChild and rightChild")
    t.leftChild, t.rightChild = l, r
    ray = mkray(cx, p=p, d=d)
    f = cx.go.test_tree_intersect

    def contract(tree, ray_):
        if ray_ is not ray:
            raise Unsupported("another ray")
        if tree is l or tree is r:
            return (A if tree is l else B).res
        raise Unsupported("intersection with something that is not a child")
    cx.stub("general_optics.test_tree_intersect", contract)
    res = cx.call(f, t, ray)
    if not (isinstance(res, tuple) and len(res) == 6):
        raise Unsupported("a result of another form")
    best = A if B.s is None else B if A.s is None else A if cx.test(cx.lt(A.s, B.s)) else B
    want = None if best.s is None else (best.pt, best.n)
    # a failure here is the step of the induction, of which the trees of the bounded part are instances
    cx.soft("union: hit exactly if a part is", cx.Iff(cx.bool(res[0]), want is not None))
    cx.soft("union: the result has the form the step starts from",
            (res[1] is not None) == (want is not None) and res[2] is None
            and even(res[5], want is not None))
    if want is not None:
        cx.soft("union: hit at the nearest part", cx.isvec(res[1]) and cx.veq(res[1], want[0]))
        cx.soft("union: normal line of the part that is hit",
                cx.isvec(res[3]) and cx.And(cx.parallel(res[3], want[1]), cx.gt(cx.dot(res[3], res[3]), 0)))


def even(x, positive):
    if isinstance(x, Count):
        return x.par == 0 and (x.positive or not positive)
    return isinstance(x, int) and x % 2 == 0 and (x > 0 or not positive)


# ---------------------------------------------------------------- real trees
def crossings(s, p, d):
    """parameters of all crossings of the line, None if not in general position"""
    q = p - s.center
    e = d
    if hasattr(s, "direction"):
        a = s.direction / np.linalg.norm(s.direction)
        q = q - np.dot(q, a) * a
        e = d - np.dot(d, a) * a
    A, B, C = np.dot(e, e), np.dot(q, e), np.dot(q, q) - s.R ** 2
    if A < 1e-4:
        return None
    D = B * B - A * C
    if abs(D) < 1e-3:
        return None
    if D < 0:
        return []
    return sorted([(-B - np.sqrt(D)) / A, (-B + np.sqrt(D)) / A])


def leaves(m):
    return [m.v] if m.l is None else leaves(m.l) + leaves(m.r)


def value(m, inside):
    return inside[id(m.v)] if m.l is None else OPS[m.v](value(m.l, inside), value(m.r, inside))


def oracle(m, p, d):
    """None: not in general position;  (): nothing ahead;  (t, leaf)"""
    ev = []
    ls = leaves(m)
    inside = {}
    for s in ls:
        c = crossings(s, p, d)
        if c is None:
            return None
        inside[id(s)] = sum(t > 0 for t in c) == 1
        ev += [(t, s) for t in c]
    ts = sorted([t for t, s in ev] + [0.0])
    if any(b - a < 1e-3 for a, b in zip(ts, ts[1:])):
        return None
    now = value(m, inside)
    for t, s in sorted([e for e in ev if e[0] > 0], key=lambda e: e[0]):
        inside[id(s)] = not inside[id(s)]
        if value(m, inside) != now:
            return t, s
    return ()


def check_real(cx, m, t, p, d, label):
    want = oracle(m, p, d)
    if want is None:
        return
    comp = cx.call(cx.optics.Compound, t, surface_behavior="reflect")
    ray = mkray(cx, p=p.copy(), d=d)
    for k in range(2):
        res = cx.call(comp.test_intersect, ray)
        w = None
        if want:
            x = p + want[0] * d
            w = (x, true_normal(want[1], x))
        check_hit(cx, label, res[0], res[1], res[2], w)


@harness("C09", sym=False, bounded="pairs of spheres and cylinders, rays from everywhere")
def real_pair(cx):
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    leaf = random_leaf(cx, rng)
    for _ in range(3):
        m = Model(["union", "intersect", "difference"][rng.integers(3)])
        m.l, m.r = Model(leaf()), Model(leaf())
        t = cx.go.BinaryTree(m.v)
        graft(cx, t, "Left", m.l)
        graft(cx, t, "Right", m.r)
        for _ in range(4):
            d = g_unit(rng, {})
            p = rng.normal(size=3) * 3 if rng.integers(2) else \
                leaves(m)[rng.integers(2)].center + rng.normal(size=3) * .7 - d * rng.uniform(0, 6)
            check_real(cx, m, t, p, d / np.linalg.norm(d), "pair")


@harness("C09", sym=False, bounded="unions of up to 9 parts")
def real_union(cx):
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    leaf = random_leaf(cx, rng)

    def grow(k):
        if k == 1:
            return Model(leaf())
        m = Model("union")
        j = int(rng.integers(1, k))
        m.l, m.r = grow(j), grow(k - j)
        return m
    m = grow(int(rng.integers(2, 10)))
    t = cx.go.BinaryTree(m.v)
    graft(cx, t, "Left", m.l)
    graft(cx, t, "Right", m.r)
    for _ in range(6):
        d = g_unit(rng, {})
        p = rng.normal(size=3) * 4 - d * rng.uniform(0, 6)
        if all(inside_leaf(s, p) > 1e-3 for s in leaves(m)):
            check_real(cx, m, t, p, d / np.linalg.norm(d), "union")
