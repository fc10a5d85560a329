"""C06: sphere intersection."""
import numpy as np
from vc.engine import harness, g_vec, g_pos, g_unit
from .common import *

FLOOR = 1e-12


def unpack(cx, res, label):
    cx.ensure(label + ": result has six parts", isinstance(res, tuple) and len(res) == 6)
    return res


def aim_sphere(rng, env):
    d = env["d"]
    if axis_aligned(d) and rng.integers(2):
        return tangent_start(rng, d, env["c"], env["R"], np.roll(d, rng.integers(1, 3)))
    return aim("c", "R")(rng, env)


def param(cx, pt, p, d):
    """ray parameter of a point on the ray (d is a unit vector)"""
    return cx.dot(pt - p, d)


@harness("C06")
def sphere(cx):
    c, d, R = cx.point("c", g_dyadic_vec), cx.unit("d"), cx.real("R", pos=True, gen=g_dyadic_pos)
    p = cx.point("p", aim_sphere)
    by = cx.choice("by", ["R", "D"])
    sh = cx.call(cx.shapes.Sphere, c, **({"R": R} if by == "R" else {"D": 2 * R}))
    ray = mkray(cx, p=p, d=d, type=cx.choice("type", RAYTYPES))
    sphere_contract(cx, sh, ray, p, d, c, R)


def sphere_contract(cx, sh, ray, p, d, c, R):
    label = "sphere"
    res = cx.call(sh.test_intersect, ray)
    cx.ensure(label + ": result has six parts", isinstance(res, tuple) and len(res) == 6)
    hit, p1, p2, n1, n2, count = res
    if p1 is None:                      # a single point may be listed first or second
        p1, p2, n1, n2 = p2, p1, n2, n1
    b = cx.dot(d, c - p)
    cc = cx.dot(c - p, c - p) - R * R
    disc = b * b - cc
    # t satisfies t^2 - 2 b t + cc = 0;  the larger root exceeds the floor iff b > e or q(e) < 0
    e = FLOOR
    qe = e * e - 2 * b * e + cc
    if tangent(cx, disc, [d], [c, p, R]):
        cx.cover("tangent")
        nfw = "tangent" if cx.test(cx.gt(b, e)) else 0
    elif cx.test(cx.lt(disc, 0)):
        cx.cover("line misses")
        nfw = 0
    elif cx.test(cx.lt(qe, 0)):
        cx.cover("from inside")
        nfw = 1
    elif cx.test(cx.And(cx.gt(qe, 0), cx.gt(b, e))):
        cx.cover("from outside")
        nfw = 2
    elif cx.test(cx.And(cx.gt(qe, 0), cx.lt(b, e))):
        cx.cover("behind")
        nfw = 0
    elif cx.test(cx.gt(b, e)):
        cx.cover("first crossing exactly at the floor")
        nfw = 1
    else:
        nfw = 0
    if nfw == 0:
        cx.ensure(label + ": no hit without a forward crossing", cx.Not(cx.bool(hit)))
        cx.ensure(label + ": a miss carries no points", p1 is None and p2 is None)
        cx.ensure(label + ": count is 0 on a miss", cx.eq(count, 0))
        return
    cx.ensure(label + ": a forward crossing is reported", cx.bool(hit))
    pts = [(p1, n1)] + ([(p2, n2)] if nfw == 2 else [])
    cx.ensure(label + ": crossing count", cx.eq(count, 1 if nfw == 1 else 2))
    if nfw != 2:
        cx.ensure(label + ": one point is reported once", p2 is None)
    for k, (pt, nn) in enumerate(pts):
        lb = "%s: point %d " % (label, k + 1)
        cx.ensure(lb + "is a point", cx.isvec(pt))
        cx.ensure(lb + "lies on the sphere", cx.eq(cx.dot(pt - c, pt - c), R * R))
        cx.ensure(lb + "lies on the ray", cx.parallel(pt - p, d))
        cx.ensure(lb + "is ahead of the ray", cx.gt(param(cx, pt, p, d), e))
        cx.ensure(lb + "has the unit normal to the centre", cx.And(cx.isvec(nn), cx.veq(nn * R, c - pt)))
    if nfw == 2:
        cx.ensure(label + ": the two points differ", cx.ne(param(cx, p1, p, d), param(cx, p2, p, d), tol=1e-12))
