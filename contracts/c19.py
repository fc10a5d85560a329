"""C19: queries have no side effects, and tracing one ray never affects another.

Queries are judged in two ways: nothing reachable from the ray, the element, the arguments or the modules is changed
(frame), and, since an element may keep private notes, the answer after any earlier query is the one which a new element,
built from the same numbers and never asked before, gives to a new ray (history independence)."""
import numpy as np
from vc.engine import harness, Unsupported, deep_same, g_vec, g_dir, g_unit, g_real, g_pos
from . import c02, c03, c10, c15, c16, c17
from .interact import *
from .c05 import aim_rect
from .c08 import OPS, random_leaf, g_around
from .c09 import Solid, Count, Part
from .c24 import subtree, random_tree, graft, Model


# ---------------------------------------------------------------- what is asked
def same_answer(cx, label, a, b, tol=1e-9):
    """two answers are equal, part by part"""
    if isinstance(a, (tuple, list)) or isinstance(b, (tuple, list)):
        cx.ensure(label, isinstance(a, (tuple, list)) and isinstance(b, (tuple, list)) and len(a) == len(b))
        for x, y in zip(a, b):
            same_answer(cx, label, x, y, tol)
    elif a is None or b is None:
        cx.ensure(label, a is b)
    elif isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
        ok = isinstance(a, np.ndarray) and isinstance(b, np.ndarray) and a.shape == b.shape
        cx.ensure(label, ok)
        if ok:
            cx.ensure(label, deep_same(a, b) or cx.And(cx.isvec(a), cx.isvec(b), cx.veq(a, b, tol=tol)))
    elif isinstance(a, (bool, np.bool_)) and isinstance(b, (bool, np.bool_)):
        cx.ensure(label, bool(a) == bool(b))
    else:
        cx.ensure(label, deep_same(a, b) or (cx.isnum(a) and cx.isnum(b) and cx.eq(a, b, tol=tol)))


INTERSECT = ["plane", "circle", "rectangle", "sphere", "cylinder", "mirror disc", "mirror rectangle", "mirror concave",
             "mirror convex", "ideal lens", "ball lens", "grating", "detector", "compound ball"]
ELEMENTS = [k for k in INTERSECT if k.split()[0] in ("mirror", "ideal", "ball", "grating", "detector")]
POINT = ["sphere", "cylinder", "compound ball"]


def builder(cx, kind):
    """() -> a new element of this kind; the numbers are chosen once"""
    S, O = cx.shapes, cx.optics
    c = cx.point("c")
    R = cx.real("R", pos=True)
    if kind == "cylinder":
        cx.env_frame = axis_frame(cx)
        a = cx.env_frame[2]
        return lambda: cx.call(S.InfiniteCylinder, cx.arr(c), cx.arr(a), R=R)
    if kind == "sphere":
        return lambda: cx.call(S.Sphere, cx.arr(c), R=R)
    if kind == "mirror convex":
        return lambda: cx.call(O.Mirror, cx.arr(c), shape="circular_convex_spherical", D=2 * R)
    if kind == "ball lens":
        return lambda: cx.call(O.Lens, cx.arr(c), shape="spherical", D=2 * R, type="normal", index=1.5)
    if kind == "compound ball":
        return lambda: cx.call(O.Compound, cx.call(cx.go.BinaryTree, cx.call(S.Sphere, cx.arr(c), R=R)),
                               surface_behavior="refract", index=1.5)
    if kind in ("rectangle", "mirror rectangle", "grating", "detector"):
        t, t2, n = cx.frame("f")
        w = cx.real("w", pos=True)
        F = {"rectangle": lambda *a: cx.call(S.Rectangle, *a, h=R, w=w),
             "mirror rectangle": lambda c_, n_, t_: cx.call(O.Mirror, c_, shape="rectangular_flat", normal=n_, tangent=t_,
                                                            h=R, w=w),
             "grating": lambda *a: cx.call(O.Grating, *a, h=R, w=w, G=600),
             "detector": lambda *a: cx.call(O.Detector, *a, h=R, w=w)}[kind]
        return lambda: F(cx.arr(c), cx.arr(n), cx.arr(t))
    n = cx.unit("n")
    if kind == "plane":
        return lambda: cx.call(S.Plane, cx.arr(c), cx.arr(n))
    if kind == "circle":
        return lambda: cx.call(S.Circle, cx.arr(c), cx.arr(n), R=R)
    if kind == "mirror disc":
        return lambda: cx.call(O.Mirror, cx.arr(c), shape="circular_flat", normal=cx.arr(n), D=2 * R)
    if kind == "ideal lens":
        return lambda: cx.call(O.Lens, cx.arr(c), normal=cx.arr(n), D=2 * R, f=2.0, type="ideal")
    f = cx.real("fl", pos=True)
    return lambda: cx.call(O.Mirror, cx.arr(c), shape="circular_concave_spherical", normal=cx.arr(n), D=2 * R, f=f)


def g_aim(dn):
    """a start from which the element at c, of size R, is often met"""
    def g(rng, env):
        d, R = env[dn], env["R"]
        c = env["c"] + rng.normal(size=3) * R * 0.4
        k = rng.integers(10)
        if k < 1:
            return g_vec(rng, env)
        return c - d * (rng.uniform(0, 6) if k < 7 else rng.uniform(-1, 1) * R)
    return g


HOW = ["another ray", "same ray", "in place", "moved element"]


def shapes_of(el):
    return [el] if not hasattr(el, "surfaces") else list(el.surfaces)


def rays(cx, kind, el):
    """two arbitrary rays (in the proof the second one perpendicular to a rectangle, which keeps the proof small)"""
    if kind == "cylinder":
        fr, c = cx.env_frame, el.center
        d, d2 = (cx.coords(x, fr, unit=True)[0] for x in ("d", "d2"))
        p, p2 = (cx.coords(x, fr, origin=c, gen=g_aim(y + ".w"))[0] for x, y in (("p", "d"), ("p2", "d2")))
        return p, d, p2, d2
    d = cx.unit("d")
    if cx.symbolic and kind == "rectangle":
        d2 = cx.arr(el.normal)
        return cx.point("p", g_aim("d")), d, cx.point("p2"), d2
    d2 = cx.unit("d2")
    return cx.point("p", g_aim("d")), d, cx.point("p2", g_aim("d2")), d2


def abstract_surfaces(cx, el, qs):
    """replace the surfaces of an element by abstract ones: to each of the known rays (position, direction) a surface
    gives some answer of the form its class gives, always the same one, and is not changed by it"""
    if not isinstance(getattr(el, "surfaces", None), list):
        raise Unsupported("an element that does not keep its surfaces in a list")
    for k, s in enumerate(el.surfaces):
        six = isinstance(s, cx.shapes.Sphere)
        answers = []
        for i, (p, d) in enumerate(qs):
            nm = "s%d.%d" % (k, i)
            kind = cx.choice(nm, ["miss", "one", "two"] if six else ["miss", "one"])
            m = ["miss", "one", "two"].index(kind)
            x = [p + cx.real("%s.t%d" % (nm, j), pos=True) * d if j < m else None for j in range(2)]
            n = [cx.unit("%s.n%d" % (nm, j)) if j < m else None for j in range(2)]
            answers.append((m > 0, x[0], x[1], n[0], n[1], m) if six else
                           (m > 0, x[0], cx.arr(s.normal) if m else None))

        class Abstract(type(s)):
            def test_intersect(self, ray):
                for (p, d), a in zip(qs, self.vc_answers):
                    if deep_same(ray.position, p) and deep_same(ray.direction, d):
                        return tuple(y.copy() if isinstance(y, np.ndarray) else y for y in a)
                raise Unsupported("another ray")
        t = Abstract.__new__(Abstract)
        t.__dict__.update(s.__dict__)
        t.__dict__["vc_answers"] = answers
        el.surfaces[k] = t


@harness("C19", cases=[(k, h) for k in INTERSECT for h in HOW
                        if h != "moved element" or k in ("plane", "circle", "rectangle", "sphere", "cylinder")], con=60, cost=2)
def intersect(cx, case):
    """test_intersect of every element: frame, repeatable, independent of what was asked before"""
    kind, how = case
    new = builder(cx, kind)
    el = new()
    p, d, p2, d2 = rays(cx, kind, el)
    if cx.symbolic and kind in ELEMENTS:
        abstract_surfaces(cx, el, [(p, d), (p2, d2)])
        surfaces = list(el.surfaces)
    arr_p = cx.arr(p)
    rt = cx.choice("type", RAYTYPES if not cx.symbolic or (how == "moved element" and kind != "cylinder") else RAYTYPES[:1])
    ray = ray_at(cx, arr_p, cx.arr(d), type=rt)
    ray.blocked = how == "another ray"
    roots = [ray, el, arr_p] + cx.globals_root()
    before = cx.heap(roots)
    a = cx.call(el.test_intersect, ray)
    cx.unchanged("query: nothing is changed", before, roots)
    if how == "another ray":
        same_answer(cx, "query: the same answer when asked again", a, cx.call(el.test_intersect, ray))
        cx.unchanged("query: nothing is changed", before, roots)
    kept = cx.heap([a])
    later = ray
    if how == "another ray":
        later = ray_at(cx, cx.arr(p2), cx.arr(d2), type=rt, plain=True)
    elif how == "same ray":
        ray.position, ray.direction = cx.arr(p2), cx.arr(d2)
    elif how == "in place":
        ray.position[:] = p2
        ray.direction[:] = d2
    fresh = new()
    if cx.symbolic and kind in ELEMENTS:
        fresh.surfaces[:] = surfaces
    if how == "moved element":
        c2 = cx.coords("c2", cx.env_frame, origin=el.center)[0] if kind == "cylinder" else cx.point("c2")
        R2 = cx.real("R2", pos=True) if kind in ("sphere", "cylinder")[:1 if cx.symbolic else 2] \
            and cx.flag("resized") else None
        for e in (el, fresh):
            for s in shapes_of(e):
                if "center" not in vars(s):
                    return
                s.center = cx.arr(c2)
                if R2 is not None:
                    if "R" not in vars(s):
                        return
                    s.R = R2
        p2, d2 = p, d
    ray2 = ray_at(cx, cx.arr(p2), cx.arr(d2), type=rt, plain=True)
    b = cx.call(el.test_intersect, later)
    same_answer(cx, "query: the answer does not depend on earlier queries", b, cx.call(fresh.test_intersect, ray2))
    cx.unchanged("query: earlier answers stay as they were", kept, [a])


@harness("C19", cases=[(k, h) for k in POINT for h in ("another point", "in place", "moved element", "after a ray")], con=60)
def point(cx, case):
    """test_point and get_index_at_point_if_inside"""
    kind, how = case
    new = builder(cx, kind)
    el = new()
    p = cx.point("p", g_around("c", "R"))
    if how in ("in place", "another point"):
        p2 = cx.point("p2", g_around("c", "R"))

    def ask(e, x):
        return cx.call(e.get_index_at_point_if_inside if kind == "compound ball" else e.test_point, x)
    x = cx.arr(p)
    roots = [x, el] + cx.globals_root()
    before = cx.heap(roots)
    if how == "after a ray":
        if kind == "cylinder":
            d = cx.coords("d", cx.env_frame, unit=True)[0]
            p2 = cx.coords("p2", cx.env_frame, origin=el.center, gen=g_aim("d.w"))[0]
        else:
            d, p2 = cx.unit("d"), cx.point("p2", g_around("c", "R"))
        cx.call(el.test_intersect, ray_at(cx, cx.arr(p2), d, plain=True))
        cx.unchanged("query: nothing is changed", before, roots)
        same_answer(cx, "query: the answer does not depend on earlier queries", ask(el, x), ask(new(), x))
        return
    a = ask(el, x)
    cx.unchanged("query: nothing is changed", before, roots)
    if how == "another point":
        same_answer(cx, "query: the same answer when asked again", a, ask(el, x))
        cx.unchanged("query: nothing is changed", before, roots)
    fresh = new()
    if how == "in place":
        x[:] = p2
    elif how == "another point":
        x = cx.arr(p2)
    else:
        if kind == "compound ball":
            return
        p2 = p
        c2 = cx.point("c2")
        for e in (el, fresh):
            if "center" not in vars(e):
                return
            e.center = cx.arr(c2)
    same_answer(cx, "query: the answer does not depend on earlier queries", ask(el, x), ask(fresh, cx.arr(p2)))


@harness("C19", cases=["sphere", "cylinder"])
def surface_normal(cx, kind):
    """Sphere.normal and InfiniteCylinder.normal"""
    new = builder(cx, kind)
    el = new()
    p, p2 = cx.point("p"), cx.point("p2")

    def off(q):
        q = q - cx.env_c
        return q if kind == "sphere" else cx.cross(q, cx.env_a)
    cx.env_c = el.center
    if kind == "cylinder":
        cx.env_a = el.direction
    for q in (p, p2):
        cx.assume(cx.gt(cx.dot(off(q), off(q)), 0) if cx.symbolic else cx.norm(off(q)) > 1e-3)
    x = cx.arr(p)
    roots = [x, el] + cx.globals_root()
    before = cx.heap(roots)
    a = cx.call(el.normal, x)
    kept = cx.heap([a])
    cx.unchanged("query: nothing is changed", before, roots)
    x[:] = p2
    same_answer(cx, "query: the answer does not depend on earlier queries", cx.call(el.normal, x),
                cx.call(new().normal, cx.arr(p2)))
    cx.unchanged("query: earlier answers stay as they were", kept, [a])


# ---------------------------------------------------------------- trees: any depth, the children by contract
class Known:
    """a primitive that answers for each of the known rays and points, and is not changed by it"""

    def __init__(self, rays, results, points=(), inside=()):
        self.t = (tuple(rays), tuple(results), tuple(points), tuple(inside))

    def test_intersect(self, ray):
        for r, res in zip(self.t[0], self.t[1]):
            if deep_same(r.position, ray.position) and deep_same(r.direction, ray.direction):
                return tuple(x.copy() if isinstance(x, np.ndarray) else x for x in res)
        raise Unsupported("another ray")

    def test_point(self, x):
        for p, b in zip(self.t[2], self.t[3]):
            if deep_same(p, x):
                return b
        raise Unsupported("another point")


@harness("C19", cases=[(op, a, b) for op in sorted(OPS) for a in ("miss", "inside", "outside")
                       for b in ("miss", "inside", "outside")], con=0)
def tree_intersect(cx, case):
    """test_tree_intersect of a node changes neither ray nor tree and answers the same again, after other questions"""
    if not cx.symbolic:
        return
    op, ka, kb = case
    p, d = cx.point("p"), cx.unit("d")
    p2, d2 = cx.point("p2"), cx.unit("d2")
    ray, other = ray_at(cx, p, d, plain=True), ray_at(cx, p2, d2, plain=True)
    A = Solid(cx, "A", p, d, ka, cx.choice("A.order", ["first", "second"]))
    B = Solid(cx, "B", p, d, kb, cx.choice("B.order", ["first", "second"]))
    for x in A.s:
        for y in B.s:
            cx.assume(cx.ne(x, y))
    A2 = Solid(cx, "A2", p2, d2, cx.choice("A2.kind", ["miss", "outside"]), "first")
    B2 = Solid(cx, "B2", p2, d2, "outside", "second")
    for x in A2.s:
        for y in B2.s:
            cx.assume(cx.ne(x, y))
    fixed = [ray_at(cx, p.copy(), d, plain=True), ray_at(cx, p2.copy(), d2, plain=True)]

    def new():
        t = cx.call(cx.go.BinaryTree, op)
        cx.call(t.insertLeft, Known(fixed, [A.result(), A2.result()]))
        cx.call(t.insertRight, Known(fixed, [B.result(), B2.result()]))
        return t
    t = new()
    f = cx.go.test_tree_intersect
    roots = [ray, other, t] + cx.globals_root()
    before = cx.heap(roots)
    a = cx.call(f, t, ray)
    cx.unchanged("tree query: nothing is changed", before, roots)
    kept = cx.heap([a])
    b = cx.call(f, t, other)
    same_answer(cx, "tree query: the answer does not depend on earlier queries", b, cx.call(f, new(), other))
    same_answer(cx, "tree query: the same answer when asked again", cx.call(f, t, ray), a)
    cx.unchanged("tree query: nothing is changed", before, roots)
    cx.unchanged("tree query: earlier answers stay as they were", kept, [a])


@harness("C19", cases=sorted(OPS), con=0)
def tree_point(cx, op):
    """test_tree_point of a node"""
    if not cx.symbolic:
        return
    p, p2 = cx.point("p"), cx.point("p2")
    x, y = cx.arr(p), cx.arr(p2)
    ins = [cx.flag("in %d" % k) for k in range(4)]

    def new():
        t = cx.call(cx.go.BinaryTree, op)
        cx.call(t.insertLeft, Known([], [], [p, p2], ins[:2]))
        cx.call(t.insertRight, Known([], [], [p, p2], ins[2:]))
        return t
    t = new()
    f = cx.go.test_tree_point
    roots = [x, y, t] + cx.globals_root()
    before = cx.heap(roots)
    a = cx.call(f, t, x)
    same_answer(cx, "tree query: the answer does not depend on earlier queries", cx.call(f, t, y), cx.call(f, new(), y))
    same_answer(cx, "tree query: the same answer when asked again", cx.call(f, t, x), a)
    cx.unchanged("tree query: nothing is changed", before, roots)
    comp = cx.call(cx.optics.Compound, t, surface_behavior="refract", index=1.5)
    roots.append(comp)
    before = cx.heap(roots)
    b = cx.call(comp.get_index_at_point_if_inside, x)
    cx.call(comp.get_index_at_point_if_inside, y)
    cx.call(cx.optics.get_index_at_point, [comp], y)
    same_answer(cx, "compound query: the same answer when asked again", cx.call(comp.get_index_at_point_if_inside, x), b)
    cx.unchanged("compound query: nothing is changed", before, roots)


# ---------------------------------------------------------------- interactions
@harness("C19")
def absorb(cx):
    """Detector.do_intersect and Block.do_intersect change the ray's absorbed flag and the detector's records only"""
    c, q, d = cx.point("c"), cx.point("q"), cx.unit("d")
    fr = t, t2, n = cx.frame("f")
    mk = lambda: cx.call(cx.optics.Detector, c, n, t, h=2, w=3)
    if cx.choice("element", ["detector", "block"]) == "detector":
        el = mk()
    else:
        el = cx.call(cx.optics.Block, c, n, "any")
    others = [mk(), cx.call(cx.optics.Block, c, n, "any")]
    pt = cx.arr(q)
    ray = ray_at(cx, pt, d, type=cx.choice("type", RAYTYPES), plain=True)
    twin = ray_at(cx, pt, d, plain=True)
    roots = [ray, twin, el, pt, c, n, t] + others + cx.globals_root()
    before = cx.heap(roots)
    hd = getattr(el, "hit_data", None)
    cx.call(el.do_intersect, ray, pt, n, cx.choice("side", [None, True]))
    ign = {(id(ray), "blocked"), (id(el), "hit_data")} | ({(id(hd), None)} if hd is not None else set())
    cx.unchanged("absorption: nothing else is changed", before, roots, ignore=ign)
    cx.ensure("absorption: no other ray is absorbed", twin.blocked is False)
    cx.ensure("absorption: no other detector records", len(others[0].hit_data) == 0)


@harness("C19")
def fly(cx):
    """Ray.fly changes its own ray only, also when rays were built from the same arrays"""
    p, d = cx.point("p"), cx.unit("d")
    pos, dr = cx.arr(p), cx.arr(d)
    ray, twin = ray_at(cx, pos, dr, plain=True), ray_at(cx, pos, dr, plain=True)
    roots = [twin, pos, dr] + cx.globals_root()
    before = cx.heap(roots)
    cx.call(ray.fly, cx.real("s"))
    cx.call(ray.fly, distance=cx.real("s2"))
    cx.unchanged("flight: nothing else is changed", before, roots)


@harness("C19", cases=["detector", "mirror", "nothing"])
def flight(cx, what):
    """Ray.run changes its own ray (and detector records) only: another ray built from the same arrays, the arrays,
    the elements and the list stay as they are"""
    d, c = cx.unit("d"), cx.point("c")
    fr = t, t2, n = cx.frame("f")
    h, w = cx.real("h", pos=True), cx.real("w", pos=True)
    p = cx.point("p", aim_rect)
    pos, dr = cx.arr(p), cx.arr(d)
    ray, twin = ray_at(cx, pos, dr, plain=True), ray_at(cx, pos, dr, plain=True)
    els = []
    if what == "detector":
        els = [cx.call(cx.optics.Detector, c, n, t, h=h, w=w)]
    elif what == "mirror":
        els = [cx.call(cx.optics.Mirror, c, shape="rectangular_flat", normal=n, tangent=t, h=h, w=w)]
    M = cx.real("M", pos=True)
    roots = [twin, pos, dr, els, c, n, t] + cx.globals_root()
    before = cx.heap(roots)
    ign = set()
    for e in els:
        if what == "detector":
            ign |= {(id(e), "hit_data"), (id(e.hit_data), None)}
    if what == "nothing":
        cx.call(ray.run, M) if cx.flag("default list") else cx.call(ray.run, M, els)
    else:
        cx.call(ray.run, M, els, max_interactions=2)
    cx.unchanged("trace: nothing but the ray is changed", before, roots, ignore=ign)


# ---------------------------------------------------------------- whole worlds on the real code
def random_world(cx, rng, n):
    """recipes, so that a world can be built again and again from the same numbers"""
    O, S = cx.optics, cx.shapes
    leaf = random_leaf(cx, np.random.default_rng(int(rng.integers(1 << 30))))

    def vec(k=1.5):
        return rng.normal(size=3) * k

    def perp(a):
        b = np.cross(a, vec())
        return b / np.linalg.norm(b)
    R = []
    for _ in range(n):
        k = int(rng.integers(13))
        c, a = vec(2), g_unit(rng, {})
        t, size, f = perp(a), float(rng.uniform(.5, 5)), float(rng.uniform(.3, 6))
        s1, s2, s3 = rng.integers(1 << 30, size=3)
        beh = ["reflect", "refract"][rng.integers(2)]
        A = np.array
        R.append([
            lambda c=c, a=a, s=size: O.Mirror(A(c), normal=A(a), D=s),
            lambda c=c, a=a, t=t, s=size: O.Mirror(A(c), shape="rectangular_flat", normal=A(a), tangent=A(t), h=s, w=s / 2),
            lambda c=c, a=a, s=size, f=f: O.Mirror(A(c), shape="circular_concave_spherical", normal=A(a), D=s, f=f),
            lambda c=c, s=size: O.Mirror(A(c), shape="circular_convex_spherical", D=s / 2),
            lambda c=c, a=a, s=size, t=t: O.Mirror(A(c), normal=A(a), D=s, type="dmd", dmd_normal=A(a) + .2 * A(t)),
            lambda c=c, a=a, s=size, f=f: O.Lens(A(c), normal=A(a), D=s, f=f, type="ideal"),
            lambda c=c, a=a, s=size, f=f: O.Lens(A(c), normal=A(a), D=s, f=f, type=["ideal_focus", "ideal_collimate"][f > 3]),
            lambda c=c, s=size: O.Lens(A(c), shape="spherical", D=s / 2, index=1.5),
            lambda c=c, a=a, t=t, s=size: O.Grating(A(c), A(a), A(t), h=s, w=s, G=100.0),
            lambda c=c, a=a, t=t, s=size: O.Detector(A(c), A(a), A(t), h=s / 2, w=s / 2),
            lambda c=c, a=a: O.Window(A(c), A(a), "any"),
            lambda s=s1, b=beh: O.Compound(tree(s), surface_behavior=b, index=1.4),
            lambda s=s1, b=beh: O.Compound(tree(s), surface_behavior=b, index=1.4),
        ][k])

    def tree(seed):
        r = np.random.default_rng(int(seed))
        return random_tree(cx, r, int(r.integers(0, 3)), random_leaf(cx, r))[0]
    return R


def ray_state(r):
    return (np.array(r.position), np.array(r.direction), bool(r.blocked), [np.array(x) for x in r.point_history],
            r.wavelength, r.order, r.type)


def same_state(a, b):
    return all(deep_same(x, y) for x, y in zip(a, b))


@harness("C19", sym=False, bounded="worlds of up to 7 real elements, 5 rays, traced whole or in turns", con=400)
def world(cx):
    """each ray alone in a world of its own = all rays in one world, one after the other or in turns"""
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    recipes = random_world(cx, rng, int(rng.integers(1, 8)))
    k = 5
    P = [rng.normal(size=3) * 2 for _ in range(k)]
    D = [g_unit(rng, {}) for _ in range(k)]
    L = [float(rng.choice([450., 532.])) for _ in range(k)]
    shared = bool(rng.integers(2))
    if shared:
        P[1] = P[0]
        D[2] = D[0]
    T = [RAYTYPES[int(rng.integers(6) == 0)] for _ in range(k)]
    turns = bool(rng.integers(2))
    M = float(rng.choice([3, 20]))

    def mkray_(i, own=True):
        p = np.array(P[i]) if own else P[i]
        d = np.array(D[i]) if own else D[i]
        return cx.optics.Ray(p, d, wavelength=L[i], order=i % 2, type=T[i])

    def mkworld():
        return [r() for r in recipes]

    def go(ray, els):
        cx.call(ray.run, M, els, max_interactions=1 if turns else 6)
    rounds = 4 if turns else 1
    want, records = [], None
    for i in range(k):
        els, ray = mkworld(), mkray_(i)
        for _ in range(rounds):
            go(ray, els)
        want.append((ray_state(ray), [[np.array(x) for x in e.hit_data] if hasattr(e, "hit_data") else None for e in els]))
    els = mkworld()
    rays = [mkray_(i, own=not shared) for i in range(k)]
    P0, D0 = [np.array(x) for x in P], [np.array(x) for x in D]
    roots = [els] + cx.globals_root()
    before = cx.heap(roots)
    state = np.random.get_state()
    ign = set()
    for e in els:
        if hasattr(e, "hit_data"):
            ign |= {(id(e), "hit_data"), (id(e.hit_data), None)}
    answers = []
    for r in range(rounds):
        for i in rng.permutation(k) if turns else range(k):
            if rng.integers(2):          # questions in between
                q = mkray_(int(rng.integers(k)))
                for e in els:
                    if hasattr(e, "test_intersect"):
                        a = cx.call(e.test_intersect, q)
                        answers.append((a, cx.heap([a])))
                cx.call(cx.optics.get_index_at_point, els, rng.normal(size=3))
            go(rays[i], els)
    for i in range(k):
        cx.ensure("world: a ray takes the same path whatever other rays did", same_state(ray_state(rays[i]), want[i][0]),
                  "ray %d" % i)
    cx.ensure("world: the arrays the rays were built from stay", deep_same(P, P0) and deep_same(D, D0))
    for j, e in enumerate(els):
        if hasattr(e, "hit_data"):
            one = [x for i in range(k) for x in want[i][1][j]]
            cx.ensure("world: a detector records what each ray alone leaves",
                      sorted(map(tuple, one)) == sorted(map(tuple, e.hit_data)))
    cx.unchanged("world: elements are changed by detector records only", before, roots, ignore=ign)
    for a, h in answers:
        cx.unchanged("world: earlier answers stay as they were", h, [a])
    now = np.random.get_state()
    cx.ensure("world: no random numbers are drawn", deep_same(list(state), list(now)))
