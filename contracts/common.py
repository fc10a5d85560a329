"""Shared generators and specification functions."""
import numpy as np
from vc.engine import g_real, g_pos, g_vec, g_dir, g_unit

RAYTYPES = ["normal", "faerie_fire"]


def aim(target, spread, back=None):
    """ray start so that a ray of direction env[dirname] passes near a target, often in front, sometimes behind"""
    def g(rng, env):
        d = env["d"]
        k = rng.integers(10)
        if k < 1:
            return g_vec(rng, env)
        c = env[target]
        s = env[spread] if isinstance(spread, str) else spread
        off = rng.normal(size=3) * s * 0.7
        t = rng.uniform(-2, 8) if k < 6 else rng.uniform(-1, 1) * s
        p = c + off - d * t
        if k == 9:
            p = np.round(p)
        return p
    return g


def g_wavelength(rng, env):
    return float(rng.choice([1, 254, 380, 532, 633, 1064, 10600])) if rng.integers(2) else float(rng.uniform(200, 2000))


g_wavelength.free = (1, 1e5)


def g_order(rng, env):
    return float(rng.integers(-2, 3))


g_order.free = (-9, 9)


def mkray(cx, name="", p=None, d=None, plain=False, **kw):
    """a ray as the constructor builds it, at an arbitrary position with an arbitrary unit direction; what is not asked for
    (unless plain) is arbitrary: wavelength, order, whether it reports its trajectory"""
    if plain:
        return cx.call(cx.optics.Ray, p, d, **kw)
    n = cx.__dict__["rays"] = cx.__dict__.get("rays", 0) + 1
    n = "" if n == 1 else str(n)
    if "wavelength" not in kw:
        kw["wavelength"] = cx.real("ray's wavelength" + n, pos=True, gen=g_wavelength)
    if "order" not in kw:
        m = cx.real("ray's order" + n, gen=g_order)
        kw["order"] = m if cx.symbolic else int(m)
    says = cx.real("ray reports" + n, gen=g_real(-3, 1)) > 0
    if cx.symbolic:
        ray = cx.call(cx.optics.Ray, p, d, **kw)
        if hasattr(ray, "print_trajectory"):
            ray.print_trajectory = says     # asked for where it matters
        return ray
    return cx.call(cx.optics.Ray, p, d, print_trajectory=bool(says), **kw)


def long(cx, name, v):
    """a vector of any length along the unit vector v (what a user gives as a normal, tangent or axis)"""
    return cx.real("len." + name, pos=True, gen=g_length) * v


def g_length(rng, env):
    k = rng.integers(4)
    return 1.0 if k == 0 else float(rng.choice([2, 3, 0.5, 10, 0.1])) if k == 1 else float(np.exp(rng.normal() * 1.5))


g_length.free = (1e-4, 1e5)


def plane_spec(cx, p, d, c, n):
    """(crosses, t): the forward ray meets the plane beyond the clipping floor"""
    dn = cx.dot(d, n)
    num = cx.dot(c - p, n)
    return dn, num


def crossing(cx, p, d, c, n, floor=1e-9):
    """condition: not within 1e-9 of parallel and the crossing parameter num/dn is > floor;
    returns (condition, strictly-excluded ties)"""
    dn, num = plane_spec(cx, p, d, c, n)
    ok = cx.Or(cx.And(cx.gt(dn, floor), cx.gt(num, floor * dn)),
               cx.And(cx.lt(dn, -floor), cx.lt(num, floor * dn)))
    return ok


def on_plane_ray(cx, pt, p, d, c, n):
    """pt on the plane and on the ray"""
    return cx.And(cx.eq(cx.dot(pt - c, n), 0), cx.parallel(pt - p, d), cx.gt(cx.dot(pt - p, d), 0))


def axis_frame(cx, name="f"):
    """an arbitrary cylinder axis a, with the contract of rotation_matrix2(a, z) in place of its body:
    some orthogonal matrix that carries a onto z, i.e. one with rows e1, e2, a for an arbitrary orthonormal
    triple (e1, e2, a) of either handedness.  (The body is proved against this contract by rot.align_axis.)"""
    e1, e2, a = cx.frame(name)
    if cx.symbolic:
        from vc.engine import Unsupported, deep_same
        from vc.shim import arr, raw

        hand = []

        def contract(x, y):
            x, y = arr(x), arr(y)
            if deep_same(x, a) and deep_same(y, arr([0, 0, 1])):
                if not hand:
                    hand.append(cx.choice("hand", [1, -1]))
                return arr([list(hand[0] * e1), list(e2), list(a)]).copy()
            raise Unsupported("rotation_matrix2 called with other arguments")
        cx.stub("general_optics.rotation_matrix2", contract)
    return e1, e2, a


# ---------------------------------------------------------------- exact tangency on the real code
def dyadic(*vals):
    for v in vals:
        v = np.atleast_1d(np.asarray(v, float)) * 64
        if not (np.all(v == np.round(v)) and np.all(np.abs(v) < 65536)):
            return False
    return True


def axis_aligned(v):
    v = np.asarray(v, float)
    return bool(np.all((v == 0) | (np.abs(v) == 1)) and np.sum(v != 0) == 1)


def tangent(cx, disc, dirs, vals):
    """disc = 0; on the real code only where floats represent the situation exactly"""
    if cx.symbolic:
        return cx.test(cx.eq(disc, 0))
    return bool(disc == 0 and all(axis_aligned(d) for d in dirs) and dyadic(*vals))


def g_dyadic_vec(rng, env):
    k = rng.integers(10)
    if k < 4:
        return rng.integers(-8, 9, 3) / 2.0
    return g_vec(rng, env)


def g_dyadic_pos(rng, env):
    k = rng.integers(10)
    if k < 4:
        return float(rng.choice([0.25, 0.5, 1, 2, 4]))
    return g_pos()(rng, env)


g_dyadic_vec.free, g_dyadic_pos.free = True, (0, 1e9)


def tangent_start(rng, d, c, R, side):
    """a start from which the ray touches, exactly; side is a unit vector perpendicular to d"""
    return c + rng.choice([-1, 1]) * R * side - d * float(rng.choice([-3, -1, 1, 2, 5]))
