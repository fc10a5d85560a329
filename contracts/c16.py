"""C16: ideal collimators and focusers."""
from .interact import *
from .c15 import along


def setup(cx, type_):
    lens, fr, c, f, r, rc = mk_ideal(cx, type_)
    n = fr[2]
    d, dc = cx.coords("d", fr, unit=True, gen=lambda rng, env: sum(x * env["f.e%d" % (i + 1)] for i, x in
                                                                   enumerate(g_tilt(rng, env))))
    cx.assume(cx.gt(dc[2], 0) if cx.symbolic else dc[2] > 1e-6)
    p = c + r
    ray = ray_at(cx, p, d)
    before = cx.heap([ray, lens, p])
    nn = cx.choice("reported", [1, -1])
    cx.call(lens.do_intersect, ray, p, nn * n, True)
    t = ray.direction
    unit_direction(cx, type_, ray)
    ray_frame(cx, type_ + ": nothing but the direction changes", before, ray, (lens, p))
    return t, n, f, r


@harness(["C16", "C01", "C13", "C19"])
def collimator(cx):
    t, n, f, r = setup(cx, "ideal_collimate")
    if cx.on("C16"):
        cx.ensure("collimator: along its axis to the far side", cx.And(cx.isvec(t), cx.veq(t, n)))


@harness(["C16", "C01", "C13", "C19"], cost=3)
def focuser(cx):
    t, n, f, r = setup(cx, "ideal_focus")
    if cx.on("C16"):
        cx.ensure("focuser: a direction", cx.isvec(t))
        G = f * n - r                       # from the hit point to the focal point (sign of f: forward)
        along(cx, "focuser", t, G, f, n)
