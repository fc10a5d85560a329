"""C23: colour of a wavelength and photon energies (general.py)."""
import numpy as np
from vc.engine import harness
from .common import *

EDGES = [380, 440, 490, 510, 580, 645, 750]


def g_w(rng, env):
    k = rng.integers(12)
    if k < 3:
        return float(rng.choice(EDGES))
    if k < 4:
        return float(rng.choice(EDGES)) + float(rng.choice([-1, 1]) * 10.0 ** -rng.integers(1, 12))
    if k < 5:
        return float(rng.choice([0, -5, 1e4, 379.999999, 750.0001, 1e-3]))
    return float(rng.uniform(300, 820))


g_w.free = (-1e5, 1e5)


def g_gamma(rng, env):
    k = rng.integers(4)
    return float(rng.choice([0.8, 1, 2, 0.5])) if k == 0 else float(np.exp(rng.uniform(np.log(.05), np.log(20))))


def three(cx, label, c):
    cx.ensure(label + ": three components", isinstance(c, (tuple, list, np.ndarray)) and len(c) == 3
              and all(cx.isnum(x) for x in c))


def unit_interval(cx, label, c):
    three(cx, label, c)
    for k in range(3):
        cx.ensure("%s: component %d in [0, 1]" % (label, k + 1), cx.And(cx.le_ok(0, c[k]), cx.le_ok(c[k], 1)))


@harness("C23", cases=["defaults", "gamma", "clamped"])
def colour(cx, kind):
    """every component in [0, 1]; outside the clamp range the colour of the nearest limit"""
    w = cx.real("w", gen=g_w)
    kw = {}
    if kind != "defaults":
        kw["gamma"] = cx.real("gamma", pos=True, gen=g_gamma)
    lo, hi = 380, 750
    if kind == "clamped":
        lo = cx.real("lo", gen=g_w)
        hi = cx.real("hi", gen=lambda rng, env: env["lo"] + float(rng.choice([0, 1e-3, 50, 400]) * rng.uniform(.5, 1)))
        cx.assume(cx.le(lo, hi) if cx.symbolic else lo <= hi)
        kw.update(floor_wave=lo, ceiling_wave=hi)
    f = cx.gen.wavelength_to_rgb
    c = cx.call(f, w, **kw)
    unit_interval(cx, "colour", c)
    for limit, out in ((lo, cx.lt(w, lo)), (hi, cx.lt(hi, w))):
        if cx.test(out) if cx.symbolic else bool(out):
            cx.cover("clamped")
            b = cx.call(f, limit, **kw)
            three(cx, "colour of the limit", b)
            for k in range(3):
                cx.ensure("colour outside the clamp range is that of the nearest limit (%d)" % (k + 1), cx.eq(c[k], b[k]))


@harness("C23")
def colour_in_order(cx):
    """positional arguments: wavelength, gamma, floor, ceiling"""
    w, ga = cx.real("w", gen=g_w), cx.real("gamma", pos=True, gen=g_gamma)
    f = cx.gen.wavelength_to_rgb
    a = cx.call(f, w, ga, 380, 750)
    b = cx.call(f, wavelength=w, gamma=ga, floor_wave=380, ceiling_wave=750)
    three(cx, "colour", a)
    three(cx, "colour", b)
    for k in range(3):
        cx.ensure("same colour for the same arguments (%d)" % (k + 1), cx.eq(a[k], b[k]))


# ---- continuity.  Proof: (1) for gamma = 1 the colour is Lipschitz on [380, 750], for any two wavelengths;
# (2) every component for gamma is the gamma-th power of the one for gamma = 1; t -> t**gamma is continuous on [0, 1].
# Both are sufficient, not necessary; where one fails only the bounded search below speaks.
@harness("C23", assumes=["t -> t**gamma is continuous on [0, 1] for gamma > 0 (continuity of the colour for gamma != 1)"])
def continuity(cx):
    f = cx.gen.wavelength_to_rgb
    if cx.symbolic:
        part = cx.choice("part", ["lipschitz", "power"])
        w = cx.real("w", gen=lambda rng, env: float(rng.uniform(380, 750)))
        cx.assume(cx.And(cx.le(380, w), cx.le(w, 750)))
        a = cx.call(f, w, gamma=1)
        three(cx, "colour", a)
        if part == "lipschitz":
            v = cx.real("v", gen=lambda rng, env: float(rng.uniform(380, 750)))
            cx.assume(cx.And(cx.le(w, v), cx.le(v, 750)))
            b = cx.call(f, v, gamma=1)
            three(cx, "colour", b)
            for k in range(3):
                d = b[k] - a[k]
                L = 0.1 * (v - w)
                cx.soft("continuity: Lipschitz for gamma = 1 (%d)" % (k + 1), cx.And(cx.le(d, L), cx.le(-d, L)))
        else:
            ga = cx.real("gamma", pos=True, gen=g_gamma)
            b = cx.call(f, w, gamma=ga)
            three(cx, "colour", b)
            for k in range(3):
                cx.soft("continuity: power of the colour for gamma = 1 (%d)" % (k + 1), cx.eq(b[k], cx.np.power(a[k], ga)))
        return
    # bounded: bisection for a jump
    ga = cx.real("gamma", pos=True, gen=lambda rng, env: float(rng.choice([.8, 1, .5, 2, 4, rng.uniform(.5, 8)])))
    lo = cx.real("lo", gen=lambda rng, env: float(rng.choice(EDGES[:-1]) if rng.integers(2) else rng.uniform(380, 750)))
    width = cx.real("width", pos=True, gen=lambda rng, env: float(rng.choice([60, 5, .1, 1e-3])))
    k = cx.choice("component", [0, 1, 2])
    shift = cx.real("shift", gen=lambda rng, env: float(rng.uniform(0, 1)))
    a, b = max(380.0, lo - shift * width), min(750.0, lo + (1 - shift) * width)
    if not a < b:
        return
    ca, cb = cx.call(f, a, gamma=ga)[k], cx.call(f, b, gamma=ga)[k]
    for _ in range(70):
        if b - a < 1e-9:
            break
        m = (a + b) / 2
        cm = cx.call(f, m, gamma=ga)[k]
        if abs(cm - ca) >= abs(cb - cm):
            b, cb = m, cm
        else:
            a, ca = m, cm
    cx.ensure("colour: no jump between neighbouring wavelengths", b - a >= 1e-9 or abs(cb - ca) < 1e-3,
              "component %d jumps by %r at %r" % (k, cb - ca, a))


def g_e(rng, env):
    return float(rng.choice([1, 532, 1240, 2.5])) if rng.integers(4) == 0 else float(10.0 ** rng.uniform(-6, 8))


HC_E = 1239.84193          # nm eV


@harness("C23", cases=["wavelength", "energy"])
def energy(cx, start):
    """the two conversions are inverse to each other, with the positive product hc/e"""
    e, w = cx.gen.wavelength_nm_to_energy_eV, cx.gen.energy_eV_to_wavelength_nm
    x = cx.real("x", pos=True, gen=g_e)
    f, g = (e, w) if start == "wavelength" else (w, e)
    y = cx.call(f, x)
    cx.ensure("energy: a number", cx.isnum(y))
    cx.ensure("energy: product hc/e", cx.And(cx.gt(x * y, HC_E - 0.01), cx.lt(x * y, HC_E + 0.01)))
    cx.ensure("energy: inverse of each other", cx.eq(cx.call(g, y) / x, 1))
    z = cx.real("z", pos=True, gen=g_e)
    cx.ensure("energy: the product is the same for all", cx.eq(cx.call(f, z) * z, x * y))
    cx.ensure("energy: the product is the same both ways", cx.eq(cx.call(g, z) * z, x * y))
