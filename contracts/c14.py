"""C14: detectors and blocks."""
import numpy as np
from .interact import *
from .c05 import rect_inputs, rect_contract


def mk_detector(cx, c, fr, h, w):
    t, t2, n = fr
    return cx.call(cx.optics.Detector, c, long(cx, "n", n), long(cx, "t", t), h=h, w=w)


@harness("C14")
def surface(cx):
    """Detector.test_intersect: a hit exactly where the forward ray crosses its rectangle"""
    c, d, fr, h, w, p = rect_inputs(cx)
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    det = mk_detector(cx, c, fr, h, w)
    rect_contract(cx, "detector", det, 4, ray, p, d, c, fr, h, w)
    cx.ensure("detector: looking for a hit records nothing", len(det.hit_data) == 0 and not ray.blocked)


def g_wl(rng, env):
    return float(rng.choice([450.0, 532.0, 680.0, 0.0])) if rng.integers(3) == 0 else float(rng.uniform(100, 2000))


g_wl.free = (0, 1e6)


def wave_input(cx, name):
    """a wavelength, which may be given as an integer"""
    wl = cx.real(name, nonneg=True, gen=g_wl)
    if not cx.symbolic:
        k = cx.choice("type of " + name, ["float", "int", "numpy float", "numpy int"], [.7, .1, .1, .1])
        if k != "float":
            wl = {"int": int, "numpy float": np.float64, "numpy int": np.int64}[k](wl)
    return wl


def earlier(cx, det):
    """any number of earlier records (nothing is known about them in the proof)"""
    if cx.symbolic:
        from vc.loops import Tail
        det.hit_data = Tail()
    else:
        k = [0, 1, 2, 50, 3000][cx.choice("earlier", [0, 1, 2, 3, 4], [.2, .2, .2, .38, .02])]
        k = cx.int_("more", k, k, big=100000)
        det.hit_data.extend(cx.rng.normal(size=(k, 4)))
    return det.hit_data.copy()


def is_record(cx, label, rec, pt, wl, **tol):
    cx.ensure(label + ": the record has four numbers", cx.isvec(rec, 4))
    cx.ensure(label + ": the record holds the arrival point", cx.veq(rec[:3], pt, **tol))
    cx.ensure(label + ": the record holds the wavelength", cx.eq(rec[3], wl, **tol))


@harness("C14")
def record(cx):
    """Detector.do_intersect: absorbs the ray, exactly one record more, after the earlier ones"""
    d, q = cx.unit("d"), cx.point("q")
    fr = cx.frame("f")
    det = mk_detector(cx, cx.point("c"), fr, cx.real("h", pos=True), cx.real("w", pos=True))
    other = mk_detector(cx, cx.point("c2"), fr, 1, 2)
    old = earlier(cx, det)
    vals = [cx.arr(x) for x in old] if not cx.symbolic else None
    wl = wave_input(cx, "wl")
    ray = ray_at(cx, q, d, wavelength=wl, type=cx.choice("type", RAYTYPES), order=cx.choice("order", [0, 1]))
    pt = q if cx.flag("same") else cx.arr(q)
    s = cx.choice("sign", [1, -1])
    cx.call(det.do_intersect, ray, pt, s * fr[2], cx.choice("side", [None, True]))
    now = det.hit_data
    cx.ensure("detector: stops the ray", ray.blocked is True)
    new = cx.grown(now, old)
    cx.ensure("detector: earlier records kept in order", new is not None)
    cx.ensure("detector: exactly one more record", len(new) == 1)
    if not cx.symbolic:
        cx.ensure("detector: earlier records unchanged", all(cx.veq(x, y, tol=1e-15) for x, y in zip(vals, now)))
    is_record(cx, "detector", now[-1], q, wl, tol=1e-14)
    cx.ensure("detector: the ray is not moved", cx.And(cx.isvec(ray.position), cx.veq(ray.position, q)))
    cx.ensure("detector: the ray is not redirected", cx.And(cx.isvec(ray.direction), cx.veq(ray.direction, d)))
    cx.ensure("detector: other detectors record nothing", len(other.hit_data) == 0)
    cx.ensure("detector: the trajectory is kept", len(ray.point_history) == 1)


@harness("C14")
def records(cx):
    """three rays on two detectors: each record stays with its detector, in arrival order, unchanged by what follows"""
    fr = cx.frame("f")
    a = mk_detector(cx, cx.point("c"), fr, 2, 3)
    b = mk_detector(cx, cx.point("c2"), fr, 2, 3)
    want = {0: [], 1: []}
    rays = []
    for k in range(3):
        q, d, wl = cx.point("q%d" % k), cx.unit("d%d" % k), wave_input(cx, "wl%d" % k)
        ray = ray_at(cx, q, d, wavelength=wl)
        w = cx.choice("which%d" % k, [0, 1])
        cx.call((a, b)[w].do_intersect, ray, ray.position, fr[2], None)
        cx.ensure("records: each ray is stopped", ray.blocked is True)
        want[w].append((q, wl))
        rays.append(ray)
    cx.call(rays[0].reflect, reflect_type="specular_flat", normal=fr[0], intersection_pt=rays[0].position)
    cx.call(rays[0].fly, 1)
    rays[1].wavelength = 5
    for w, det in enumerate((a, b)):
        cx.ensure("records: one per arrival", len(det.hit_data) == len(want[w]))
        for rec, (q, wl) in zip(det.hit_data, want[w]):
            is_record(cx, "records", rec, q, wl, tol=1e-14)


@harness("C14")
def block(cx):
    """Block.do_intersect: stops the ray without moving or redirecting it"""
    d, p = cx.unit("d"), cx.point("p")
    ray = ray_at(cx, p, d, type=cx.choice("type", RAYTYPES))
    n = cx.unit("n")
    blk = cx.call(cx.optics.Block, cx.point("c"), n, "any")
    before = cx.heap([blk])
    cx.call(blk.do_intersect, ray, p if cx.flag("same") else cx.point("q"), n, cx.choice("side", [None, True, False]))
    cx.ensure("block: stops the ray", ray.blocked is True)
    cx.ensure("block: the ray is not moved", cx.And(cx.isvec(ray.position), cx.veq(ray.position, p)))
    cx.ensure("block: the ray is not redirected", cx.And(cx.isvec(ray.direction), cx.veq(ray.direction, d)))
    cx.ensure("block: the trajectory is kept", len(ray.point_history) == 1)


@harness("C14", cases=["ahead", "beside or behind"])
def arrival(cx, where):
    """Ray.run towards one detector: one record when the ray reaches it, none otherwise"""
    fr = t, t2, n = cx.frame("f")
    c = cx.point("c")
    h, w = cx.real("h", pos=True), cx.real("w", pos=True)
    d, dc = cx.coords("d", fr, unit=True)
    a = cx.real("a", gen=lambda rng, env: float(rng.uniform(-.7, .7)) * env["h"])
    b = cx.real("b", gen=lambda rng, env: float(rng.uniform(-.7, .7)) * env["w"])
    s = cx.real("s", gen=lambda rng, env: float(rng.uniform(0.01, 5)) * (1 if rng.integers(4) else -1))
    M = cx.real("M", pos=True)
    cx.assume(cx.Or(cx.gt(dc[2], 1e-9), cx.lt(dc[2], -1e-9)) if cx.symbolic else abs(dc[2]) > 1e-4)
    x = c + a * t + b * t2                      # the ray's line meets the detector plane here
    p = x - s * d
    inside = cx.And(cx.lt(a, h / 2), cx.lt(-h / 2, a), cx.lt(b, w / 2), cx.lt(-w / 2, b))
    if where == "ahead":
        cx.assume(cx.And(inside, cx.gt(s, 2e-9), cx.lt(s, M)))
    else:
        cx.assume(cx.Or(cx.gt(a, h / 2), cx.lt(a, -h / 2), cx.gt(b, w / 2), cx.lt(b, -w / 2), cx.lt(s, 0), cx.gt(s, M)))
    det = mk_detector(cx, c, fr, h, w)
    wl = wave_input(cx, "wl")
    ray = ray_at(cx, p, d, wavelength=wl)
    cx.call(ray.run, M, [det])
    if where == "ahead":
        cx.ensure("arrival: stops at the detector", ray.blocked is True)
        cx.ensure("arrival: at the arrival point", cx.And(cx.isvec(ray.position), cx.veq(ray.position, x)))
        cx.ensure("arrival: exactly one record", len(det.hit_data) == 1)
        is_record(cx, "arrival", det.hit_data[0], x, wl)
        cx.ensure("arrival: not redirected", cx.veq(ray.direction, d))
    else:
        cx.ensure("no arrival: nothing recorded", len(det.hit_data) == 0 and ray.blocked is False)
        cx.ensure("no arrival: flies on", cx.veq(ray.position, p + M * d))
