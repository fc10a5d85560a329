"""Elements and interactions used by several properties: each entry builds an element through its constructor and
lets a ray, which is at the surface, interact with it."""
import numpy as np
from vc.engine import harness, deep_same, g_vec, g_dir, g_unit, g_real, g_pos
from .common import *


def g_index(rng, env):
    return float(rng.choice([1.0, 1.5, 1.3333, 2.4])) if rng.integers(3) == 0 else float(rng.uniform(0.5, 3))


g_index.free = (0.2, 20)


def g_steep(dname):
    """unit normal: often seen at near-normal or near-grazing incidence"""
    def g(rng, env):
        d = env.get(dname + ".w", env[dname])
        k = rng.integers(10)
        if k < 2:
            v = d * rng.choice([-1, 1]) + rng.normal(size=3) * 0.05
        elif k < 4:
            v = np.cross(d, rng.normal(size=3)) + 0.05 * rng.normal(size=3)
        elif k < 5:
            v = d * rng.choice([-1, 1])
        else:
            return g_unit(rng, env)
        return v / np.linalg.norm(v) if np.linalg.norm(v) > 1e-6 else g_unit(rng, env)
    return g


def ray_at(cx, p, d, **kw):
    return mkray(cx, p=p, d=d, **kw)


def spec_reflect(cx, d, n):
    """d with its component along the unit vector n reversed"""
    return d - 2 * cx.dot(d, n) * n


def spec_transmitted(cx, label, t, d, n, e1, e2, tol=None):
    """t leaves on the far side, in the plane of incidence, with e1 sin(theta1) = e2 sin(theta2); n is a unit normal"""
    cx.ensure(label + ": transmitted direction is a vector", cx.isvec(t))
    dn, tn = cx.dot(d, n), cx.dot(t, n)
    cx.ensure(label + ": in-surface component scaled by n1/n2 (Snell, plane of incidence)",
              cx.veq(e2 * (t - tn * n), e1 * (d - dn * n), tol=tol))
    cx.ensure(label + ": leaves on the far side", cx.le_ok(0, tn * dn))
    cx.ensure(label + ": unit length", cx.eq(cx.dot(t, t), 1))


def tir(cx, d, n, e1, e2):
    dn = cx.dot(d, n)
    return cx.gt(e1 * e1 * (1 - dn * dn), e2 * e2)


def as_before(before, a, b):
    """b has the value which a had when the snapshot was taken"""
    if isinstance(a, np.ndarray):
        v = before[id(a)][2][2]
        return isinstance(b, np.ndarray) and a.shape == b.shape and all(deep_same(x, y) for x, y in zip(v, b.ravel()))
    if isinstance(a, (list, tuple)):
        v = before[id(a)][2][2]
        return isinstance(b, (list, tuple)) and len(v) == len(b) and all(as_before(before, x, y) for x, y in zip(v, b))
    return deep_same(a, b)


def ray_frame(cx, label, before, ray, extra=(), keys=("direction",), props=("C18", "C19")):
    """only the given attributes of the ray changed"""
    if cx.on("C13"):
        old = before[id(ray)][2][2]
        cx.ensure(label + ": the trajectory stays as it was",
                  as_before(before, old["point_history"], ray.point_history)
                  and as_before(before, old["position"], ray.position))
    if not cx.on(*props):
        return
    old = before[id(ray)][2][2].get("direction")
    others = cx.heap(list(extra))
    ign = {(id(ray), k) for k in keys}
    if "direction" in keys and id(old) not in others:
        ign.add((id(old), None))          # updated in place
    cx.unchanged(label, before, [ray] + list(extra), ignore=ign)


def position_stays(cx, label, ray, p, props=("C04", "C18")):
    if cx.on(*props):
        cx.ensure(label + ": the position is not moved", cx.And(cx.isvec(ray.position), cx.veq(ray.position, p)))


def unit_direction(cx, label, ray):
    if cx.on("C01"):
        cx.ensure(label + ": the new direction is a unit vector", cx.is_unit(ray.direction))


# ---------------------------------------------------------------- elements
def mk_mirror(cx, shape, **kw):
    """a mirror of any shape; returns it and its unit normal"""
    c = cx.point("mc")
    M = cx.optics.Mirror
    D = cx.real("mD", pos=True)
    if shape == "circular_flat":
        n = cx.unit("mn")
        return cx.call(M, c, shape=shape, normal=cx.real("mnl", pos=True) * n, D=D, **kw)
    if shape == "rectangular_flat":
        t, _, n = cx.frame("mf")
        return cx.call(M, c, shape=shape, normal=n, tangent=t, h=D, w=cx.real("mw", pos=True), **kw)
    if shape == "circular_concave_spherical":
        n = cx.unit("mn")
        return cx.call(M, c, shape=shape, normal=n, D=D, f=cx.real("mfl", pos=True), **kw)
    return cx.call(M, c, shape="circular_convex_spherical", D=D, **kw)


MIRRORS = ["circular_flat", "rectangular_flat", "circular_concave_spherical", "circular_convex_spherical"]


def any_normal(cx, name="n"):
    """a normal of any length and either sign: returns (normal, unit normal)"""
    u = cx.unit(name, g_steep("d"))
    l = cx.real(name + "l", gen=lambda rng, env: float(rng.choice([1, -1, 2, 0.3, -5])))
    cx.assume(cx.ne(l, 0) if cx.symbolic else l != 0)
    return l * u, u


LENS_IDEAL = ["ideal", "ideal_collimate", "ideal_focus"]


def mk_ideal(cx, type_):
    """an ideal lens at an arbitrary place, hit at a point of its plane by a ray that stands there.
    Frame: n (far side, the ray goes along it), in-plane axes; r = in-plane offset of the hit point."""
    e1, e2, n = cx.frame("f")
    c = cx.point("c")
    f = cx.real("f_", gen=lambda rng, env: float(rng.choice([-1, 1])) * g_pos(0.3, 9)(rng, env))
    cx.assume(cx.ne(f, 0) if cx.symbolic else abs(f) > 1e-3)
    r1 = cx.real("r1", gen=g_off)
    r2 = cx.real("r2", gen=g_off)
    side = cx.choice("side", [1, -1])
    lens = cx.call(cx.optics.Lens, c, normal=side * long(cx, "n", n), shape="spherical_biconvex", D=cx.real("D", pos=True), f=f, type=type_)
    r = r1 * e1 + r2 * e2
    return lens, (e1, e2, n), c, f, r, (r1, r2)


def g_off(rng, env):
    k = rng.integers(10)
    if k < 2:
        return 0.0
    return float(rng.normal() * 2)


def g_tilt(rng, env):
    """direction in lens coordinates: mostly forward (third component positive)"""
    k = rng.integers(10)
    if k < 1:
        v = np.array([0, 0, 1.0])
    elif k < 3:
        a = 10.0 ** -rng.uniform(1, 7)          # nearly parallel to the axis
        v = np.array([rng.normal() * a, rng.normal() * a, 1.0])
    elif k < 4:
        v = np.array([rng.normal() * .01, rng.normal() * .01, 1.0])
    elif k < 5:
        v = np.array([rng.normal(), 0, 0.3])
    else:
        v = rng.normal(size=3)
        v[2] = abs(v[2]) + 1e-3
    return v / np.linalg.norm(v)
