"""C15: the ideal imaging lens (C01 for ideal lenses as well)."""
from .interact import *


def along(cx, label, t, G, s, n):
    """t is a unit vector in the direction of s * G (s a number of known sign) and goes to the far side (t.n > 0)"""
    cx.ensure(label + ": in the line of the law", cx.parallel(t, G))
    cx.ensure(label + ": in the sense of the law", cx.gt(s * cx.dot(t, G), 0))
    cx.ensure(label + ": to the far side", cx.gt(cx.dot(t, n), 0))


@harness(["C15", "C01", "C13", "C19"], cost=5)
def ideal_lens(cx):
    """Lens(type="ideal").do_intersect: leaves along d/(d.n) - r/f"""
    lens, fr, c, f, r, rc = mk_ideal(cx, "ideal")
    n = fr[2]
    d, dc = cx.coords("d", fr, unit=True, gen=lambda rng, env: sum(x * env["f.e%d" % (i + 1)] for i, x in
                                                                   enumerate(g_tilt(rng, env))))
    dn = dc[2]
    cx.assume(cx.gt(dn, 1.1e-8) if cx.symbolic else dn > 1e-4)
    p = c + r
    ray = ray_at(cx, p, d)
    before = cx.heap([ray, lens, p])
    nn = cx.choice("reported", [1, -1])
    cx.call(lens.do_intersect, ray, p, nn * n, True)
    t = ray.direction
    unit_direction(cx, "ideal lens", ray)
    ray_frame(cx, "ideal lens: nothing but the direction changes", before, ray, (lens, p))
    if not cx.on("C15"):
        return
    cx.ensure("ideal lens: a direction", cx.isvec(t))
    dev = d - n
    if cx.symbolic:
        near = cx.test(cx.le(cx.dot(dev, dev), 7e-16))
        G = f * d - dn * r
        if not near:
            cx.cover("general ray")
            along(cx, "ideal lens", t, G, f, n)
        else:
            cx.cover("ray within 2.7e-8 of the normal")
            H = f * n - r
            ok1 = cx.And(cx.parallel(t, G), cx.gt(f * cx.dot(t, G), 0))
            ok2 = cx.And(cx.parallel(t, H), cx.gt(f * cx.dot(t, H), 0))
            cx.ensure("ideal lens: one of the two agreeing laws near the normal", cx.Or(ok1, ok2))
            cx.ensure("ideal lens: to the far side", cx.gt(cx.dot(t, n), 0))
    else:
        G = d / dn - r / f
        cx.ensure("ideal lens: direction d/(d.n) - r/f", cx.veq(t, G / cx.norm(G), tol=1e-7))
