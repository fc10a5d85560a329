"""C22: ray sources (general_optics.image_rays, optics3d.add_faerie_fire_rays)."""
import numpy as np
from vc.engine import harness, Unsupported
from vc.loops import MapSeq, Each, CutWhile, Tail, Poison
from .common import *
from .c21 import rejected

GRID = ["x", "z", "angle"]


def g_size(rng, env):
    return float(rng.choice([1, 10, 0.5, 3, -2])) if rng.integers(3) == 0 else g_pos()(rng, env)


g_size.free = (-1e6, 1e6)


def grid_inputs(cx):
    y, size, ang = cx.real("y_center"), cx.real("size", gen=g_size), cx.real("angle", gen=g_real(-1.5, 1.5))
    d = cx.real("pattern_d", nonneg=True, gen=lambda rng, env: abs(env["size"]) * float(rng.choice([0, 0.3, 0.5, 1, 1.41, 2])))
    return y, size, ang, d


def check_ray(cx, label, o, d, w, x, y, z, a, pd):
    cx.ensure(label + ": origin on the grid", cx.And(cx.isvec(o), cx.veq(o, cx.arr([x, y, z]))) if cx.isvec(o) else False)
    cx.ensure(label + ": direction in the y-z plane at the angle",
              cx.veq(d, cx.arr([0, cx.cos(a), cx.sin(a)])) if cx.isvec(d) else False)
    r2, q = x * x + z * z, pd * pd / 4
    if not cx.isnum(w):
        cx.ensure(label + ": wavelength is a number", False)
    if cx.test(cx.lt(r2, q)):
        cx.ensure(label + ": 680 inside the pattern", cx.eq(w, 680))
    elif cx.test(cx.gt(r2, q)):
        cx.ensure(label + ": 450 outside the pattern", cx.eq(w, 450))
    else:
        cx.ensure(label + ": 680 or 450 on the rim", cx.Or(cx.eq(w, 680), cx.eq(w, 450)))


@harness("C22", cases=[(a, b, c) for a in (1, 2) for b in (1, 2) for c in (1, 2)], con=3,
         assumes=["numpy.linspace(a, b, n) has the n elements a + k (b - a)/(n - 1), k = 0 .. n-1, in order"])
def grid(cx, many):
    """any resolution: each axis has one sample, or any number n >= 2 of them"""
    if not cx.symbolic:
        return
    y, size, ang, pd = grid_inputs(cx)
    res, seqs, pos, ks = {}, {}, {}, {}
    for g, m in zip(GRID, many):
        if m == 1:
            res[g], pos[g] = 1, 0
        else:
            n = cx.real("n_" + g, pos=True, gen=lambda rng, env: float(rng.integers(2, 6)))
            k = cx.real("k_" + g, nonneg=True, gen=lambda rng, env: float(rng.integers(0, 2)))
            cx.assume(cx.And(cx.ge(n, 2), cx.le(k, n - 1)))
            res[g], ks[g] = n, k
            h = ang if g == "angle" else size / 2
            pos[g] = -h + k * (2 * h) / (n - 1)

    def abstract_linspace(a, b, num):
        for g in GRID:
            if g not in seqs and cx.eq(num, res[g]) is True:
                seqs[g] = MapSeq(cx, g, [a + ks[g] * (b - a) / (num - 1)], count=num)
                return seqs[g]
        raise Unsupported("samples that are not those of an axis")
    cx.c.abstract_linspace = abstract_linspace
    out = cx.call(cx.go.image_rays, y, size=size, angle=ang, x_res=res["x"], z_res=res["z"], angle_res=res["angle"],
                  pattern="circle", pattern_d=pd)
    cx.ensure("image rays: three lists", isinstance(out, tuple) and len(out) == 3)
    single = []
    for l in out:
        for g, m in zip(GRID, many):
            cx.ensure("image rays: one ray per combination, x outermost, angle innermost",
                      isinstance(l, list) and len(l) == 1 and (type(l[0]) is Each) == any(many[i] > 1 for i in range(GRID.index(g), 3)))
            if type(l[0]) is Each and m > 1:
                cx.ensure("image rays: one ray per combination, x outermost, angle innermost",
                          l[0].seq.origin is seqs.get(g) and len(l[0].items) == 1)
                l = l[0].items[0]
        cx.ensure("image rays: one ray per combination", len(l) == 1 and type(l[0]) is not Each)
        single.append(l[0])
    check_ray(cx, "image rays", *single, pos["x"], y, pos["z"], pos["angle"], pd)


def samples(cx, h, n):
    return [0] if n == 1 else [-h + k * (2 * h) / (n - 1) for k in range(n)]


def all_rays(cx, res, **kw):
    y, size, ang, pd = grid_inputs(cx)
    out = cx.call(cx.go.image_rays, y, size=size, angle=ang, pattern="circle", pattern_d=pd, **kw)
    xs, zs, as_ = samples(cx, size / 2, res[0]), samples(cx, size / 2, res[1]), samples(cx, ang, res[2])
    cx.ensure("image rays: three lists", isinstance(out, tuple) and len(out) == 3)
    n = len(xs) * len(zs) * len(as_)
    for l in out:
        cx.ensure("image rays: one ray per combination", len(l) == n)
    k = 0
    for x in xs:
        for z in zs:
            for a in as_:
                check_ray(cx, "image rays", out[0][k], out[1][k], out[2][k], x, y, z, a, pd)
                k += 1


@harness("C22", cases=[(1, 1, 1), (2, 1, 1), (1, 2, 1), (1, 1, 2), (2, 1, 2), (3, 1, 1), (1, 3, 1), (1, 1, 3)],
         bounded="up to three samples along each axis; harness grid has no bound")
def small_grid(cx, res):
    all_rays(cx, res, x_res=res[0], z_res=res[1], angle_res=res[2])


@harness("C22", sym=False, bounded="up to 12 samples along each axis")
def larger_grid(cx):
    res = [cx.int_("n%d" % i, 1, 12 if i == cx.int_("big", 0, 2) else 4) for i in range(3)]
    k = cx.int_("which", 0, 2)
    res[k] = cx.int_("more", res[k], res[k], big=3000)
    all_rays(cx, res, x_res=res[0], z_res=res[1], angle_res=res[2])


@harness("C22", cases=["x_res", "z_res", "angle_res"])
def too_few(cx, which):
    """a resolution below 1 is rejected, whatever the others are"""
    y, size, ang, pd = grid_inputs(cx)
    kw = {k: cx.choice(k, [1, 2, 3]) for k in ("x_res", "z_res", "angle_res")}
    kw[which] = cx.choice("bad", [0, -1, -3])
    rejected(cx, "image rays with %s below 1" % which, cx.go.image_rays, y, size=size, angle=ang, pattern_d=pd, **kw)


# ---------------------------------------------------------------- probe rays
def probe_ray(cx, r, c, R, cls):
    cx.ensure("probe rays: are rays", isinstance(r, cls))
    p, d = r.position, r.direction
    cx.ensure("probe rays: starts on the sphere", cx.eq(cx.dot(p - c, p - c), R * R) if cx.isvec(p) else False)
    cx.ensure("probe rays: has a unit direction", cx.is_unit(d))
    cx.ensure("probe rays: aimed at the centre", cx.collinear_same(c - p, d))


class Havoc:
    """contract of the loop that draws a vector until it is long enough: nothing is known of the state"""

    def __init__(self, cx, lists):
        self.cx, self.lists = cx, lists

    def start(self, ident, names, g):
        cx, d = self.cx, {}
        self.sizes = [list.__len__(l) for l in self.lists]
        self.kinds = {}
        for n in names:
            v = g.get(n)
            if n not in g or type(v) is Poison:
                d[n] = Poison(n)
            elif getattr(v, "shape", None) == (3,):
                d[n] = cx.vec("drawn " + n)
                self.kinds[n] = (3,)
            elif cx.isnum(v):
                d[n] = cx.real("drawn " + n)
                self.kinds[n] = ()
            else:
                d[n] = Poison(n)
        return d

    def step(self, ident, names, g, k):
        from vc.sym import PathEnd
        if self.sizes != [list.__len__(l) for l in self.lists]:
            raise Unsupported("a while loop that adds rays")
        if all(getattr(g[n], "shape", None) == (3,) if s else self.cx.isnum(g[n]) for n, s in self.kinds.items()):
            raise PathEnd()         # the invariant (a state of the same form) holds again


@harness("C22", con=3, assumes=["numpy.random.normal() may return any number; the drawing loop of a probe ray is assumed "
                                "to end (it does with probability 1)"])
def probes(cx):
    """any number of rays, any rays already listed"""
    if not cx.symbolic:
        return
    c, R = cx.point("c"), cx.real("R", pos=True)
    N = cx.real("N", pos=True, gen=lambda rng, env: float(rng.integers(1, 9)))
    start = Tail([])
    key = start.start
    seqs = []

    def abstract_range(a, b):
        s = MapSeq(cx, "range", [a + cx.real("k", nonneg=True)], count=b - a)
        seqs.append(s)
        return s
    cx.c.abstract_range = abstract_range
    cx.c.while_policy = lambda ident, names: CutWhile(Havoc(cx, [start]), ident, names)
    out = cx.call(cx.optics.add_faerie_fire_rays, start, R, c, N)
    cx.c.while_policy = None
    for what, l in (("the list", start), ("the result", out)):
        new = cx.grown(l, Tail([], key)) if isinstance(l, Tail) else None
        cx.ensure("probe rays: %s keeps the rays already listed" % what, new is not None)
        if not seqs and not (len(new) == 1 and type(new[0]) is Each):
            raise Unsupported("the rays are not added in a loop over a range")
        cx.ensure("probe rays: the requested number is added to %s" % what,
                  len(new) == 1 and type(new[0]) is Each and [len(i) for i in new[0].items] == [1]
                  and new[0].seq in seqs and cx.eq(new[0].seq.count, N))
        probe_ray(cx, new[0].items[0][0], c, R, cx.optics.Ray)



@harness("C22", sym=False, bounded="up to 200 rays")
def probes_real(cx):
    c, R = cx.point("c"), cx.real("R", pos=True)
    n = cx.int_("N", 0, 30 if cx.int_("many", 0, 20) else 200, big=5000)
    old = [cx.call(cx.optics.Ray, cx.arr([i, 0, 0]), cx.arr([0, 0, 1.0])) for i in range(cx.int_("old", 0, 3, big=20000))]
    l = list(old)
    np.random.seed(cx.int_("seed", 0, 2 ** 31 - 1))
    real = np.random.normal
    zero = cx.int_("zero", 0, 3)
    left = [3 * cx.int_("nzero", 0, 2)] if zero == 0 else [0]

    def draw(*a, **k):
        if left[0] > 0 and not a and not k:
            left[0] -= 1
            return 0.0
        return real(*a, **k)
    np.random.normal = draw
    try:
        out = cx.call(cx.optics.add_faerie_fire_rays, l, R, c, n)
    finally:
        np.random.normal = real
    for what, x in (("the list", l), ("the result", out)):
        cx.ensure("probe rays: %s keeps the rays already listed" % what,
                  isinstance(x, list) and all(a is b for a, b in zip(old, x)))
        cx.ensure("probe rays: the requested number is added to %s" % what, len(x) == len(old) + n)
    for r in l[len(old):]:
        probe_ray(cx, r, c, R, cx.optics.Ray)
