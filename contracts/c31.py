"""C31: the printed description of a ray or element shows where it is (the __repr__ methods of optics3d)."""
import math
import re
import numpy as np
from vc.engine import harness, Unsupported
from .c25 import a_normal
from .common import *


class Numbers:
    """to_precision by its contract (C26): a text that stands for a number rounded to so many digits"""

    def __init__(self, cx):
        self.cx, self.seen = cx, []

    def __call__(self, x, p):
        if not isinstance(p, int) or p < 1:
            raise Unsupported("digits")
        self.seen.append((x, p))
        return "@%d@" % (len(self.seen) - 1)


NUMBER = re.compile(r"@(\d+)@|[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?|nan|inf", re.I)


def g_component(rng, env):
    k = rng.integers(4)
    if k == 0:
        return float(rng.choice([0, 1, -1, 0.5, -2.5, 12345, 99999.5, 1e-5, -0.001, 123456.7]))
    return float(rng.normal() * 10.0 ** rng.integers(-9, 9))


def shows(cx, label, text, kind, want, reader):
    cx.ensure(label + ": a text", isinstance(text, str))
    cx.ensure(label + ": names its kind", text.lstrip("<").startswith(kind))
    got = list(NUMBER.finditer(text[text.index(kind) + len(kind):]))
    cx.ensure(label + ": the position and the direction, nothing else", len(got) == len(want), text)
    for m, v in zip(got, want):
        if cx.symbolic:
            if m.group(1) is None:
                raise Unsupported("a number printed in another way")
            x, p = reader.seen[int(m.group(1))]
            cx.ensure(label + ": to five digits or more", p >= 5)
            cx.ensure(label + ": x, y and z in order", cx.eq(x, v))
        else:
            v = float(v)
            half = 0.5 * 10.0 ** (math.floor(math.log10(abs(v))) - 4) if v else 0
            cx.ensure(label + ": x, y and z in order", abs(float(m.group(0)) - v) <= half * (1 + 1e-6) + 1e-300, text)


KINDS = ["Ray", "Mirror circular_flat", "Mirror rectangular_flat", "Mirror circular_concave_spherical",
         "Mirror circular_convex_spherical", "Lens spherical_biconvex", "Lens spherical", "Grating rectangular_flat",
         "Detector rectangular_flat", "Block x", "Annotation x", "Filter x", "Window x"]


@harness("C31", cases=KINDS, assumes=["to_precision by its contract (C26)"])
def printed(cx, what):
    kind, _, shape = what.partition(" ")
    reader = Numbers(cx)
    if cx.symbolic:
        cx.stub("general.to_precision", reader)
        cx.world.mods["optics3d"].to_precision = reader
    arg, n, t = a_normal(cx, "array")
    p = cx.vec("p", gen=lambda rng, env: np.array([g_component(rng, env) for _ in range(3)]))
    make = getattr(cx.optics, kind)
    kw = {}
    if "circ" in shape or "sph" in shape:
        kw["D"] = cx.real("D", pos=True)
    if "rect" in shape:
        kw["h"], kw["w"], kw["tangent"] = cx.real("h", pos=True), cx.real("w", pos=True), cx.arr(t).copy()
    if "concave" in shape or "biconvex" in shape:
        kw["f"] = cx.real("f", pos=True)
    if kind == "Grating":
        kw["G"] = 1000
    n1 = cx.arr(n) / cx.norm(n)
    if kind == "Ray":
        el = cx.call(make, p.copy(), arg)
    elif shape in ("circular_convex_spherical", "spherical"):
        given = cx.flag("a normal is given") if kind == "Lens" else False
        el = cx.call(make, p.copy(), shape=shape, **kw, **({"normal": arg} if given else {}))
        if not given:
            n1 = None
    elif shape == "x":
        el = cx.call(make, p.copy(), arg, shape)
    else:
        el = cx.call(make, p.copy(), normal=arg, shape=shape, **kw)
    if cx.flag("moved"):
        p = cx.vec("q", gen=lambda rng, env: np.array([g_component(rng, env) for _ in range(3)]))
        el.position = p.copy()
        if kind == "Ray":
            n1 = cx.unit("d")
            el.direction = n1.copy()
    before = cx.heap([el])
    text = cx.call(el.__repr__)
    cx.unchanged("printed: nothing is changed", before, [el])
    shows(cx, "printed", text, kind, list(p) + ([] if n1 is None else list(n1)), reader)
