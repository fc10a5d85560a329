"""C01: unit directions."""
from . import c02, c03, c10, c15, c16, c17
from .interact import *


@harness("C01", cases=["array", "list", "ints"])
def ray_init(cx, kind):
    """Ray(position, direction): unit direction parallel to the given one (any nonzero vector)"""
    p = cx.point("p")
    if kind == "ints":
        d = cx.arr([0, 0, 0])
        v = cx.choice("d", [(1, 0, 0), (0, -2, 0), (3, 4, 0), (1, 1, 1), (-2, 3, 6), (0, 0, 7), (-1, -1, 0)])
        d = cx.np.array(list(v))
        l, u = 1, cx.arr(v)
    else:
        u = cx.unit("u")
        l = cx.real("len", pos=True, gen=g_len)
        d = l * u
        if kind == "list":
            d = [d[0], d[1], d[2]]
    ray = ray_at(cx, p, d, wavelength=cx.real("L", pos=True), order=cx.choice("order", [0, 1, -1]),
                 type=cx.choice("type", RAYTYPES))
    cx.ensure("Ray: the direction is a unit vector", cx.is_unit(ray.direction))
    cx.ensure("Ray: parallel to the given direction", cx.collinear_same(u, ray.direction))


def g_len(rng, env):
    k = rng.integers(4)
    return 1.0 if k == 0 else float(10.0 ** rng.uniform(-6, 6))


@harness("C01")
def fly(cx):
    """Ray.fly: the direction does not change"""
    d = cx.unit("d")
    ray = ray_at(cx, cx.point("p"), d)
    cx.call(ray.fly, cx.real("s"))
    cx.ensure("fly: the direction does not change", cx.And(cx.isvec(ray.direction), cx.veq(ray.direction, d)))


@harness("C01", cases=["fly first", "interaction first"])
def two_rays(cx, order):
    """what happens to one ray does not touch the direction of another one made from the same vectors"""
    d, p = cx.unit("d"), cx.point("p")
    a, b = ray_at(cx, p, d, plain=True), ray_at(cx, p, d, plain=True)
    n, u = any_normal(cx)
    if order == "fly first":
        cx.call(a.fly, cx.real("s"))
    cx.call(a.reflect, reflect_type="specular_flat", normal=n, intersection_pt=p)
    cx.ensure("the other ray keeps its unit direction", cx.And(cx.isvec(b.direction), cx.veq(b.direction, d)))
    cx.ensure("the ray has a unit direction", cx.is_unit(a.direction))
