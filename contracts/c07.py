"""C07: infinite cylinder intersection."""
import numpy as np
from vc.engine import harness, g_vec, g_pos, g_unit
from . import rot
from .common import *

FLOOR = 1e-12


def aim_cyl(rng, env):
    d, c, a, R = env["d.w"], env["c"], env["f.e3"], env["R"]
    if axis_aligned(d) and axis_aligned(a) and abs(np.dot(a, d)) < .5 and rng.integers(2):
        return tangent_start(rng, d, c, R, np.cross(a, d)) + a * rng.integers(-2, 3)
    k = rng.integers(10)
    if k < 1:
        return g_vec(rng, env)
    off = rng.normal(size=3) * R * 0.7
    t = rng.uniform(-2, 8) if k < 6 else rng.uniform(-1, 1) * R
    p = c + off - d * t + a * rng.normal() * 3
    return np.round(p) if k == 9 else p


@harness("C07")
def cylinder(cx):
    f = axis_frame(cx)
    a = f[2]
    c, R = cx.point("c", g_dyadic_vec), cx.real("R", pos=True, gen=g_dyadic_pos)
    d, _ = cx.coords("d", f, unit=True)
    p, _ = cx.coords("p", f, origin=c, gen=aim_cyl)
    by = cx.choice("by", ["R", "D"])
    sh = cx.call(cx.shapes.InfiniteCylinder, c, long(cx, "a", a), **({"R": R} if by == "R" else {"D": 2 * R}))
    ray = mkray(cx, p=p, d=d)
    cyl_contract(cx, sh, ray, p, d, c, a, R)


def cyl_contract(cx, sh, ray, p, d, c, a, R):
    label = "cylinder"
    res = cx.call(sh.test_intersect, ray)
    cx.ensure(label + ": result has six parts", isinstance(res, tuple) and len(res) == 6)
    hit, p1, p2, n1, n2, count = res
    if p1 is None:                      # a single point may be listed first or second
        p1, p2, n1, n2 = p2, p1, n2, n1
    q = p - c
    qa, da = cx.dot(q, a), cx.dot(d, a)
    A = 1 - da * da
    B = cx.dot(q, d) - qa * da              # half of the linear coefficient
    C = cx.dot(q, q) - qa * qa - R * R
    disc = B * B - A * C
    e = FLOOR
    qe = A * e * e + 2 * B * e + C
    if cx.test(cx.lt(A, 1e-18)) if cx.symbolic else A < 1e-12:
        cx.cover("parallel to the axis")
        if not cx.symbolic and not A < 1e-20:
            return
        nfw = 0
    elif (cx.symbolic or R in (0.25, 0.5, 1, 2, 4)) and tangent(cx, disc, [a, d], [c, p]):
        cx.cover("tangent")
        nfw = "tangent" if cx.test(cx.gt(-B, e * A)) else 0
    elif cx.test(cx.lt(disc, 0)):
        cx.cover("line misses")
        nfw = 0
    elif cx.test(cx.lt(qe, 0)):
        cx.cover("from inside")
        nfw = 1
    elif cx.test(cx.And(cx.gt(qe, 0), cx.gt(-B, e * A))):
        cx.cover("from outside")
        nfw = 2
    elif cx.test(cx.And(cx.gt(qe, 0), cx.lt(-B, e * A))):
        cx.cover("behind")
        nfw = 0
    elif cx.test(cx.gt(-B, e * A)):
        cx.cover("first crossing exactly at the floor")
        nfw = 1
    else:
        nfw = 0
    if nfw == 0:
        cx.ensure(label + ": no hit without a forward crossing", cx.Not(cx.bool(hit)))
        cx.ensure(label + ": a miss carries no points", p1 is None and p2 is None)
        cx.ensure(label + ": count is 0 on a miss", cx.eq(count, 0))
        return
    cx.ensure(label + ": a forward crossing is reported", cx.bool(hit))
    pts = [(p1, n1)] + ([(p2, n2)] if nfw == 2 else [])
    cx.ensure(label + ": crossing count", cx.eq(count, 1 if nfw == 1 else 2))
    if nfw != 2:
        cx.ensure(label + ": one point is reported once", p2 is None)
    for k, (pt, nn) in enumerate(pts):
        lb = "%s: point %d " % (label, k + 1)
        cx.ensure(lb + "is a point", cx.isvec(pt))
        m = c - pt
        m = m - cx.dot(m, a) * a
        cx.ensure(lb + "lies on the surface", cx.eq(cx.dot(m, m), R * R, tol=1e-5))
        cx.ensure(lb + "lies on the ray", cx.parallel(pt - p, d))
        cx.ensure(lb + "is ahead of the ray", cx.gt(cx.dot(pt - p, d), e))
        cx.ensure(lb + "has the unit normal to the axis", cx.And(cx.isvec(nn), cx.veq(nn * R, m, tol=1e-5)))
    if nfw == 2:
        cx.ensure(label + ": nearest first", cx.lt(cx.dot(p1 - p, d), cx.dot(p2 - p, d)))
