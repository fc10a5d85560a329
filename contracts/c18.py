"""C18: mirrors are hit on their real surface."""
import numpy as np
from . import c02
from .interact import *
from .c05 import rect_inputs, rect_contract, disc_contract, aim_plane
from .c10 import nearest_on_sphere


@harness("C18")
def flat_disc(cx):
    c, n, d, R = cx.point("c"), cx.unit("n"), cx.unit("d"), cx.real("R", pos=True)
    p = cx.point("p", aim_plane)
    m = cx.call(cx.optics.Mirror, c, shape="circular_flat", normal=long(cx, "n", n), D=2 * R,
                **cx.choice("kw", [{}, {"type": "dmd", "dmd_normal": [0, 0, 1]}]))
    disc_contract(cx, "flat mirror", m, 4, ray_at(cx, p, d, type=cx.choice("type", RAYTYPES)), p, d, c, n, R)


@harness("C18")
def flat_rectangle(cx):
    c, d, fr, h, w, p = rect_inputs(cx)
    t, t2, n = fr
    m = cx.call(cx.optics.Mirror, c, shape="rectangular_flat", normal=long(cx, "n", n), tangent=long(cx, "t", t), h=h, w=w)
    rect_contract(cx, "rectangular mirror", m, 4, ray_at(cx, p, d), p, d, c, fr, h, w)


@harness("C18")
def convex(cx):
    """sphere mirror: the nearest forward point of its sphere, with the normal line there"""
    c, d, R = cx.point("c", g_dyadic_vec), cx.unit("d"), cx.real("R", pos=True, gen=g_dyadic_pos)
    p = cx.point("p", aim("c", "R"))
    m = cx.call(cx.optics.Mirror, c, shape="circular_convex_spherical", D=2 * R)
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    nearest_on_sphere(cx, "convex mirror", m, ray, p, d, c, R)


def g_b(rng, env):
    return float(rng.uniform(-1, 1)) * env["R"] * rng.choice([0.5, 1, 3])


def g_n(rng, env):
    """mirror normals for which the aperture is often crossed (d = f.e1, u = f.e2)"""
    d, u = env["f.e1"], env["f.e2"]
    x, y = env["m"]
    s = rng.choice([-1, 1])
    # the far or the near crossing point of the line, seen from the centre
    v = -(s * y * d - x * u) + 0.3 * rng.normal(size=3) * rng.choice([0.3, 1, 2])
    if rng.integers(8) == 0:
        v = rng.normal(size=3)
    return v / np.linalg.norm(v)


def g_ap(rng, env):
    return float(env["R"] * rng.choice([0.3, 0.8, 1.5, 2, 3]) * rng.uniform(0.7, 1.3))


@harness("C18", cases=["meets", "misses"], cost=3)
def concave(cx, line):
    """concave mirror: hit by rays that cross the aperture disc ahead and meet the sphere, at the forward sphere
    point nearest to that crossing.  Coordinates: the line passes the centre at distance |R mx|, on the side u"""
    fr = d, u, v = cx.frame("f")
    p = cx.point("p")
    R = cx.real("R", pos=True)
    b = cx.real("b", gen=g_b)
    if line == "meets":
        mx, my = cx.circle("m", upper=True)
        off = R * mx
        k = R * my
    else:
        off = cx.real("off", gen=lambda rng, env: float(env["R"] * rng.choice([-1, 1]) * (1 + rng.exponential())))
        cx.env_m = cx.circle("m", upper=True)
        cx.assume(cx.gt(off * off, R * R))
    c = p + b * d + off * u
    n, nc = cx.coords("n", fr, unit=True, gen=g_n)
    D = cx.real("D", pos=True, gen=g_ap)
    pos = c - R * n
    mir = cx.call(cx.optics.Mirror, pos, shape="circular_concave_spherical",
                  normal=long(cx, "n", n), D=D, f=R / 2)
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    res = cx.call(mir.test_intersect, ray)
    cx.ensure("concave mirror: the result has four parts", isinstance(res, tuple) and len(res) == 4)
    hit, pt, nr = res[:3]
    if line == "misses":
        cx.ensure("concave mirror: not hit when the sphere is not met", cx.Not(cx.bool(hit)))
        return
    dn = nc[0]
    num = cx.dot(pos - p, n)
    e, fl = 1e-12, 1e-9
    t1, t2 = b - k, b + k
    cx.assume(cx.And(cx.ne(t1, e), cx.ne(t2, e), cx.ne(num, fl * dn), cx.ne(dn, fl), cx.ne(dn, -fl)) if cx.symbolic
              else min(abs(t1), abs(t2)) > 1e-6 and abs(dn) > 1e-4 and abs(num) > 1e-6)
    ahead = cx.Or(cx.And(cx.gt(dn, fl), cx.gt(num, fl * dn)), cx.And(cx.lt(dn, -fl), cx.lt(num, fl * dn)))
    if not cx.test(cx.And(ahead, cx.gt(t2, e))):
        cx.cover("aperture or sphere not met ahead")
        cx.ensure("concave mirror: not hit when the aperture or the sphere is not met ahead", cx.Not(cx.bool(hit)))
        return
    tx = num / dn
    x = p + tx * d
    r2 = cx.dot(x - pos, x - pos) - D * D / 4
    if cx.test(cx.gt(r2, 0)):
        cx.cover("outside the aperture")
        cx.ensure("concave mirror: not hit outside its aperture", cx.Not(cx.bool(hit)))
        return
    cx.assume(cx.lt(r2, 0))
    cx.ensure("concave mirror: hit through its aperture", cx.bool(hit))
    if cx.test(cx.lt(t1, e)):
        cx.cover("from inside the sphere")
        t = t2
    else:
        cx.assume(cx.ne(tx, b) if cx.symbolic else abs(tx - b) > 1e-6)
        t = t1 if cx.test(cx.lt(tx, b)) else t2
        cx.cover("from outside the sphere")
    cx.ensure("concave mirror: the point is a point and the normal a vector", cx.And(cx.isvec(pt), cx.isvec(nr)))
    cx.ensure("concave mirror: the sphere point nearest to the aperture crossing", cx.veq(pt, p + t * d))
    cx.ensure("concave mirror: unit normal line of the sphere",
              cx.And(cx.parallel(nr, c - pt), cx.eq(cx.dot(nr, nr), 1)))
