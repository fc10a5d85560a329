"""C17: diffraction gratings."""
from . import c02
from .interact import *
from .c02 import g_wave, g_groove


def g_graze(rng, env):
    """direction in grating coordinates (grooves, dispersion, normal)"""
    k = rng.integers(10)
    if k < 2:
        v = np.array([rng.normal(), rng.normal(), rng.normal()])
    elif k < 4:
        v = np.array([0.0, rng.normal(), rng.choice([-1.0, 1.0])])
    elif k < 5:
        v = np.array([rng.normal(), 0.0, rng.choice([-1.0, 1.0])])
    elif k < 6:
        v = np.array([rng.normal() * .1, rng.normal() * 1e-3, rng.choice([-1.0, 1.0])])
    else:
        v = np.array([0.3 * rng.normal(), rng.normal() * .5, rng.choice([-1.0, 1.0])])
    return v / np.linalg.norm(v)


def in_frame(g, name="f"):
    return lambda rng, env: sum(x * env["%s.e%d" % (name, i + 1)] for i, x in enumerate(g(rng, env)))


def setup(cx):
    fr = t, t2, n = cx.frame("f")
    d, dc = cx.coords("d", fr, unit=True, gen=in_frame(g_graze))
    p = cx.point("p")
    m = cx.real("m", gen=lambda rng, env: float(rng.choice([-2, -1, 1, 2, 1, -1, 3])))
    lam = cx.real("L", pos=True, gen=g_wave)
    G = cx.real("G", pos=True, gen=g_groove)
    cx.assume(cx.ne(m, 0) if cx.symbolic else m != 0)
    cx.assume(cx.ne(dc[2], 0) if cx.symbolic else abs(dc[2]) > 1e-6)
    K = m * lam * G / 10 ** 6
    # the order propagates: |K - sin a| < 1
    L = cx.sqrt(1 - dc[0] * dc[0])
    sa = cx.abs(dc[1]) / L
    cx.assume(cx.And(cx.lt(K - sa, 1), cx.lt(-1, K - sa)) if cx.symbolic else abs(K - sa) < 1 - 1e-6)
    ray = ray_at(cx, p, d, order=m, wavelength=lam)
    s, go, side = cx.choice("setup", [(1, None, None), (-1, 0, True), (1, 1, None), (-1, None, False)])
    g = cx.call(cx.optics.Grating, p, long(cx, "n", n), long(cx, "t", t), h=2, w=3, G=G, order=go)
    before = cx.heap([ray, g, p])
    cx.call(g.do_intersect, ray, p, s * n, side)
    return fr, d, dc, K, L, ray, g, p, before


@harness(["C17", "C01", "C13", "C19"], cost=4)
def grating(cx):
    """Grating.do_intersect at a propagating order other than zero"""
    (t, t2, n), d, dc, K, L, ray, g, p, before = setup(cx)
    u = ray.direction
    unit_direction(cx, "grating", ray)
    ray_frame(cx, "grating: nothing but the direction changes", before, ray, (g, p))
    if not cx.on("C17"):
        return
    cx.ensure("grating: a direction", cx.isvec(u))
    u1, u2, u3 = cx.dot(u, t), cx.dot(u, t2), cx.dot(u, n)
    cx.ensure("grating: component along the grooves kept", cx.eq(u1, dc[0]))
    cx.ensure("grating: length of the projection kept", cx.eq(u2 * u2 + u3 * u3, L * L))
    cx.ensure("grating: leaves on the side it came from", cx.lt(u3 * dc[2], 0))
    if cx.test(cx.lt(dc[1], 0, margin=0) if cx.symbolic else dc[1] < -1e-7):
        cx.ensure("grating equation, incidence from one side of the normal", cx.eq(-dc[1] + u2, K * L))
    elif cx.test(cx.lt(0, dc[1], margin=0) if cx.symbolic else dc[1] > 1e-7):
        cx.ensure("grating equation, incidence from the other side of the normal", cx.eq(dc[1] - u2, K * L))
    else:
        cx.ensure("grating equation, normal incidence", cx.eq(u2 * u2, K * K * L * L, tol=1e-5))
