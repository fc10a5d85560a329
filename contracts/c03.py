"""C03 / C04: Snell refraction and total internal reflection."""
import numpy as np
from .interact import *


def snell(cx, tirs):
    d, n = cx.unit("d"), cx.unit("n", g_steep("d"))
    p, q = cx.point("p"), cx.point("q")
    if cx.flag("same_index"):
        e1 = e2 = cx.real("e", pos=True, gen=g_index)
    else:
        e1, e2 = cx.real("e1", pos=True, gen=g_index), cx.real("e2", pos=True, gen=g_index)
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    dn = cx.dot(d, n)
    cx.assume(cx.ne(dn, 0) if cx.symbolic else abs(dn) > 1e-6)
    total = cx.test(tir(cx, d, n, e1, e2))
    before = cx.heap([ray, n, q])
    cx.call(ray.refract, refract_type="snells_law", normal=n, optic=None, intersection_pt=q, eta1=e1, eta2=e2)
    t = ray.direction
    cx.ensure("refract: a defined direction", cx.isvec(t))
    return ray, d, n, e1, e2, total, before, t, q, p


@harness(["C03", "C01", "C13", "C19"])
def transmitted(cx):
    ray, d, n, e1, e2, total, before, t, q, p = snell(cx, False)
    unit_direction(cx, "refract", ray)
    ray_frame(cx, "refract: nothing but the direction changes", before, ray, (n, q))
    if total or not cx.on("C03"):
        cx.cover("total reflection")
        return
    cx.cover("transmitted")
    spec_transmitted(cx, "refract", t, d, n, e1, e2)
    if e1 is e2:
        cx.ensure("refract: undeviated at equal indices", cx.veq(t, d))


@harness("C03")
def normal_direction(cx):
    """the result does not depend on the direction in which the normal is given"""
    d, n = cx.unit("d"), cx.unit("n", g_steep("d"))
    p = cx.point("p")
    e1, e2 = cx.real("e1", pos=True, gen=g_index), cx.real("e2", pos=True, gen=g_index)
    dn = cx.dot(d, n)
    cx.assume(cx.ne(dn, 0) if cx.symbolic else abs(dn) > 1e-6)
    res = []
    for m in (n, -1 * n):
        ray = ray_at(cx, p, d)
        cx.call(ray.refract, refract_type="snells_law", normal=m, optic=None, intersection_pt=p, eta1=e1, eta2=e2)
        res.append(ray.direction)
    if cx.test(tir(cx, d, n, e1, e2)):
        return
    cx.ensure("refract: independent of the direction of the normal", cx.veq(res[0], res[1]))


@harness("C04")
def total_reflection(cx):
    ray, d, n, e1, e2, total, before, t, q, p = snell(cx, True)
    r = spec_reflect(cx, d, n)
    if total:
        cx.cover("total reflection")
        cx.ensure("beyond the critical angle: specular reflection", cx.veq(t, r))
    else:
        cx.cover("transmitted")
        cx.ensure("up to the critical angle: transmitted to the far side", cx.le_ok(0, cx.dot(t, n) * cx.dot(d, n)))
    cx.ensure("refract: always a unit direction", cx.is_unit(t))
    position_stays(cx, "refract", ray, p)


def snap(a, b):
    """two perpendicular coordinate directions near a and b (exactly perpendicular in floating point)"""
    i = int(np.argmax(np.abs(a)))
    j = max((k for k in range(3) if k != i), key=lambda k: abs(b[k]))
    x, y = np.zeros(3), np.zeros(3)
    x[i], y[j] = np.sign(a[i]) or 1.0, np.sign(b[j]) or 1.0
    return x, y


@harness(["C04", "C01"])
def grazing(cx):
    """exactly along the interface: a defined unit direction; beyond the critical angle the ray goes on as it came"""
    d, n, _ = cx.frame("f")
    if not cx.symbolic:
        d, n = snap(d, n)
    p = cx.point("p")
    if cx.flag("same_index"):
        e1 = e2 = cx.real("e", pos=True, gen=g_index)
    else:
        e1, e2 = cx.real("e1", pos=True, gen=g_index), cx.real("e2", pos=True, gen=g_index)
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    cx.call(ray.refract, refract_type="snells_law", normal=n, optic=None, intersection_pt=p, eta1=e1, eta2=e2)
    t = ray.direction
    cx.ensure("grazing: a defined direction", cx.isvec(t))
    cx.ensure("grazing: a unit direction", cx.is_unit(t))
    if cx.test(cx.gt(e1, e2)):
        cx.cover("total reflection")
        cx.ensure("grazing: specular reflection goes on along the interface", cx.veq(t, d))
    else:
        cx.cover("transmitted")
        cx.ensure("grazing: transmitted with the tangential part of Snell's law", cx.veq((t - cx.dot(t, n) * n) * e2, d * e1))
    position_stays(cx, "grazing", ray, p)
