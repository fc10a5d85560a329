"""C02: specular reflection."""
from .interact import *


@harness(["C02", "C01", "C13", "C19"])
def reflect(cx):
    """Ray.reflect("specular_flat", n): new direction d - 2 (d.n^) n^, nothing else changes"""
    d = cx.unit("d")
    p = cx.point("p")
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    n, u = any_normal(cx)
    q = cx.point("q")
    before = cx.heap([ray, n, q])
    cx.call(ray.reflect, reflect_type="specular_flat", normal=n, intersection_pt=q)
    new = ray.direction
    unit_direction(cx, "reflect", ray)
    if not cx.on("C01", "C13", "C19"):
        cx.ensure("reflect: normal component reversed, in-surface component kept",
                  cx.And(cx.isvec(new), cx.veq(new, spec_reflect(cx, d, u))))
    ray_frame(cx, "reflect: nothing but the direction changes", before, ray, (n, q))


@harness(["C02", "C01", "C18", "C13", "C19"], cases=[(s, t) for s in MIRRORS for t in ("normal", "dmd")])
def mirror(cx, case):
    """Mirror.do_intersect: reflects about the reported normal; a DMD about its micro-mirror normal"""
    shape, type_ = case
    d = cx.unit("d")
    p = cx.point("p")
    ray = ray_at(cx, p, d)
    if type_ == "dmd":
        m = cx.unit("dmd")
        mir = mk_mirror(cx, shape, type="dmd", dmd_normal=cx.real("dmdl", pos=True) * m)
    else:
        mir = mk_mirror(cx, shape)
    n, u = any_normal(cx)
    side = cx.choice("side", [None, True, False])
    before = cx.heap([ray, mir, n])
    cx.call(mir.do_intersect, ray, p, n, side)
    new = ray.direction
    unit_direction(cx, "mirror", ray)
    if not cx.on("C01", "C13", "C19"):
        cx.ensure("mirror: specular about the right normal",
                  cx.And(cx.isvec(new), cx.veq(new, spec_reflect(cx, d, m if type_ == "dmd" else u))))
    position_stays(cx, "mirror", ray, p)
    ray_frame(cx, "mirror: nothing but the direction changes", before, ray, (mir, n))


@harness(["C02", "C01", "C17", "C13", "C19"])
def grating_zero(cx):
    """Grating.do_intersect with a zero-order ray: specular about the grating normal"""
    d = cx.unit("d")
    p = cx.point("p")
    ray = ray_at(cx, p, d, order=0, wavelength=cx.real("L", pos=True, gen=g_wave))
    t, t2, n = cx.frame("f")
    g = cx.call(cx.optics.Grating, p, long(cx, "n", n), long(cx, "t", t), h=2, w=3, G=cx.real("G", pos=True, gen=g_groove),
                order=cx.choice("gorder", [None, 0, 1]))
    s = cx.choice("sign", [1, -1])
    before = cx.heap([ray, g])
    cx.call(g.do_intersect, ray, p, s * n, None)
    new = ray.direction
    unit_direction(cx, "grating, order zero", ray)
    if not cx.on("C01", "C13", "C19"):
        cx.ensure("grating, order zero: specular about the grating normal",
                  cx.And(cx.isvec(new), cx.veq(new, spec_reflect(cx, d, n))))
    ray_frame(cx, "grating, order zero: nothing but the direction changes", before, ray, (g,))


def g_wave(rng, env):
    return float(rng.choice([400.0, 532.0, 680.0])) if rng.integers(3) == 0 else float(rng.uniform(200, 2000))


g_wave.free = (1, 1e5)


def g_groove(rng, env):
    k = rng.integers(6)
    if k == 0:
        return float(10 ** rng.uniform(-4, 3.5))
    return float(rng.choice([300.0, 600.0, 1200.0])) if k < 3 else float(rng.uniform(10, 2500))


g_groove.free = (1e-4, 1e5)


def mk_compound(cx, behavior, index):
    """a compound whose tree is never looked at (its index lookup is replaced by its contract)"""
    s = cx.call(cx.shapes.Sphere, cx.point("cc"), R=cx.real("cR", pos=True))
    return cx.call(cx.optics.Compound, cx.call(cx.go.BinaryTree, s), surface_behavior=behavior, index=index)


@harness(["C02", "C01", "C10", "C13", "C19"])
def compound_reflect(cx):
    d = cx.unit("d")
    p = cx.point("p")
    ray = ray_at(cx, p, d)
    comp = mk_compound(cx, "reflect", cx.real("index", pos=True, gen=g_index))
    n, u = any_normal(cx)
    before = cx.heap([ray, comp, n])
    cx.call(comp.do_intersect, ray, p, n, cx.choice("side", [None, True, False]))
    new = ray.direction
    unit_direction(cx, "reflecting compound", ray)
    if not cx.on("C01", "C13", "C19"):
        cx.ensure("reflecting compound: specular",
                  cx.And(cx.isvec(new), cx.veq(new, spec_reflect(cx, d, u))))
    ray_frame(cx, "reflecting compound: nothing but the direction changes", before, ray, (comp, n))
