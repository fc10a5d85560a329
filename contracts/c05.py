"""C05: flat apertures."""
import numpy as np
from vc.engine import harness, g_vec, g_pos, g_unit
from .common import *


def aim_plane(rng, env):
    d = env["d"]
    k = rng.integers(10)
    if k < 1:
        return g_vec(rng, env)
    n = env.get("n")
    c = env["c"]
    s = env.get("R", 2.0)
    if "h" in env:
        s = 0.4 * (env["h"] + env["w"])
    off = rng.normal(size=3) * s * 0.6
    off = off - np.dot(off, n) * n
    t = rng.uniform(0.05, 6) if k < 7 else rng.uniform(-6, 0.5)
    p = c + off - d * t
    return np.round(p) if k == 9 else p


def flat_hit(cx, label, res, parts, p, d, c, n):
    """what every flat aperture reports: returns (hit, point, crosses forward, crossing point or None)"""
    cx.ensure(label + ": the result has %s parts" % ("three" if parts == 3 else "four"),
              isinstance(res, tuple) and len(res) == parts)
    hit, pt, nr = res[:3]
    cross = crossing(cx, p, d, c, n)
    dn, num = plane_spec(cx, p, d, c, n)
    if cx.test(cx.bool(hit)):
        cx.cover(label + ": hit")
        cx.ensure(label + ": a hit crosses the plane forward", cross)
        cx.ensure(label + ": hit point is a point", cx.isvec(pt))
        cx.ensure(label + ": hit point on the plane", cx.eq(cx.dot(pt - c, n), 0))
        cx.ensure(label + ": hit point on the ray", cx.parallel(pt - p, d))
        cx.ensure(label + ": hit point ahead", cx.gt(cx.dot(pt - p, d), 0))
        cx.ensure(label + ": unit normal of the element", cx.And(cx.isvec(nr), cx.veq(nr, n)))
        return True, pt
    cx.cover(label + ": miss")
    cx.ensure(label + ": a miss has no point", pt is None)
    # the crossing point, as a function of the inputs
    return False, p + (num / dn) * d if cx.test(cross) else None


def plane_contract(cx, label, el, parts, ray, p, d, c, n):
    hit, x = flat_hit(cx, label, cx.call(el.test_intersect, ray), parts, p, d, c, n)
    if not hit:
        cx.ensure(label + ": missed because there is no forward crossing", x is None)


def disc_contract(cx, label, el, parts, ray, p, d, c, n, R):
    hit, x = flat_hit(cx, label, cx.call(el.test_intersect, ray), parts, p, d, c, n)
    if hit:
        cx.ensure(label + ": hit point inside the disc", cx.Not(cx.lt(R * R, cx.dot(x - c, x - c))))
    elif x is not None:
        cx.ensure(label + ": a forward crossing strictly inside is not missed",
                  cx.Not(cx.lt(cx.dot(x - c, x - c), R * R)))


def rect_contract(cx, label, el, parts, ray, p, d, c, frame, h, w):
    t, t2, n = frame
    hit, x = flat_hit(cx, label, cx.call(el.test_intersect, ray), parts, p, d, c, n)
    if x is None:
        return None
    a, b = cx.dot(x - c, t), cx.dot(x - c, t2)
    if hit:
        cx.ensure(label + ": hit point inside along the tangent", cx.And(cx.le(a, h / 2), cx.le(-h / 2, a)))
        cx.ensure(label + ": hit point inside along the other axis", cx.And(cx.le(b, w / 2), cx.le(-w / 2, b)))
        return x
    cx.ensure(label + ": a forward crossing strictly inside is not missed",
              cx.Or(cx.ge(a, h / 2), cx.le(a, -h / 2), cx.ge(b, w / 2), cx.le(b, -w / 2)))


@harness("C05")
def plane(cx):
    c, n, d = cx.point("c"), cx.unit("n"), cx.unit("d")
    p = cx.point("p", aim_plane)
    ray = mkray(cx, p=p, d=d, type=cx.choice("type", RAYTYPES))
    l = cx.real("nl", pos=True)
    plane_contract(cx, "plane", cx.call(cx.shapes.Plane, c, l * n), 3, ray, p, d, c, n)


@harness("C05", cases=["disc", "ideal", "ideal_collimate", "ideal_focus", "normal"])
def disc(cx, kind):
    """Circle.test_intersect; Lens.test_intersect of a disc-shaped lens"""
    c, n, d, R = cx.point("c"), cx.unit("n"), cx.unit("d"), cx.real("R", pos=True)
    p = cx.point("p", aim_plane)
    ray = mkray(cx, p=p, d=d)
    l = cx.real("nl", pos=True)
    if kind == "disc":
        by = cx.choice("by", ["R", "D"])
        sh = cx.call(cx.shapes.Circle, c, l * n, **({"R": R} if by == "R" else {"D": 2 * R}))
        disc_contract(cx, "disc", sh, 3, ray, p, d, c, n, R)
    else:
        el = cx.call(cx.optics.Lens, c, l * n, D=2 * R, f=cx.real("f", pos=True), type=kind)
        disc_contract(cx, "disc lens", el, 4, ray, p, d, c, n, R)


def rect_inputs(cx):
    c, d = cx.point("c"), cx.unit("d")
    fr = cx.frame("f")
    h, w = cx.real("h", pos=True), cx.real("w", pos=True)
    p = cx.point("p", aim_rect)
    return c, d, fr, h, w, p


@harness("C05", cases=["rectangle", "grating"])
def rectangle(cx, kind):
    """Rectangle.test_intersect; Grating.test_intersect"""
    c, d, fr, h, w, p = rect_inputs(cx)
    t, t2, n = fr
    ray = mkray(cx, p=p, d=d)
    if kind == "rectangle":
        sh = cx.call(cx.shapes.Rectangle, c, long(cx, "n", n), long(cx, "t", t), h=h, w=w)
        rect_contract(cx, "rectangle", sh, 3, ray, p, d, c, fr, h, w)
    else:
        el = cx.call(cx.optics.Grating, c, long(cx, "n", n), long(cx, "t", t), h=h, w=w, G=cx.real("G", pos=True))
        rect_contract(cx, "grating", el, 4, ray, p, d, c, fr, h, w)


def aim_rect(rng, env):
    d, c = env["d"], env["c"]
    t, t2 = env["f.e1"], env["f.e2"]
    k = rng.integers(10)
    if k < 1:
        return g_vec(rng, env)
    off = t * rng.normal() * env["h"] * 0.5 + t2 * rng.normal() * env["w"] * 0.5
    if k < 4:      # one coordinate inside, the other just outside
        a, b = rng.uniform(-.5, .5), rng.choice([-1, 1]) * rng.uniform(.4, .7)
        if rng.integers(2):
            a, b = b, a
        off = t * a * env["h"] + t2 * b * env["w"]
    s = rng.uniform(0.05, 6) if k < 8 else rng.uniform(-6, 0.5)
    return c + off - d * s
