"""C26: printed numbers (general.to_precision).

The number is x = s * y * 10**e with a sign s, 1 <= y < 10 and an integer e: every nonzero real has exactly one such form.
Proof for every y and every e (p = 1 .. 15, which is what a double carries).  Digits of printed integers are digit
variables 0..9 whose decimal combination is the integer; the printed string is read as a decimal number with them."""
import re
from decimal import Decimal, getcontext
import numpy as np
from vc import sym as S
from vc.engine import harness, Unsupported
from .common import *

getcontext().prec = 60


def g_mantissa(rng, env):
    p = env.get("p", 5)
    k = rng.integers(10)
    if k < 2:
        v = float(rng.choice([1, 2, 5, 9, 9.5, 1.5, 2.5, 9.9, 1.05, 9.95]))
    elif k < 4:                                     # near a rounding boundary of p digits
        v = (int(rng.integers(10 ** min(p - 1, 15), 10 ** min(p, 15))) + 0.5) / 10.0 ** (p - 1)
        v += float(rng.choice([-1, 0, 1])) * 10.0 ** -(p + rng.integers(1, 4))
    elif k < 6:                                     # near a power of ten
        v = 10 - 10.0 ** -rng.integers(1, 17) * rng.integers(1, 10) if rng.integers(2) else 1 + 10.0 ** -rng.integers(1, 17)
    elif k < 7:
        v = float(rng.integers(1, 1000)) / 100
    else:
        v = float(rng.uniform(1, 10))
    return min(max(v, 1.0), 9.999999999999998)


def g_exp(rng, env):
    k = rng.integers(10)
    if k < 7:
        return int(rng.integers(-6, 18))
    return int(rng.integers(-25, 26)) if k < 9 else int(rng.integers(-280, 300))


def number(cx, p):
    """-> x, sign, mantissa, exponent, 10**exponent"""
    s = cx.choice("sign", [1, -1])
    for env in (cx.envs if cx.symbolic else [cx.env]):
        env["p"] = p
    y = cx.real("y", pos=True, gen=g_mantissa)
    if cx.symbolic:
        c = cx.c
        cx.assume(cx.And(cx.le(1, y), cx.lt(y, 10)))
        e = cx.real("e", gen=lambda rng, env: int(rng.integers(-8, 18)))
        (ev,), (yv,) = e.num.vars(), y.num.vars()
        E = c.new_var("ten", "aux", 10.0 ** c.vars[ev].val)
        c.set_pos(E)
        c.ints.add(ev)
        c.pow10[ev] = E
        c.mant[E] = (ev, yv)
        return s * (y * c.sym(E)), s, y, e, c.sym(E)
    e = cx.real("e", gen=g_exp)
    e = int(round(e))
    y = min(max(float(y), 1.0), 9.999999999999998)
    x = float(Decimal(repr(y)).scaleb(e)) * s
    return x, s, y, e, None


FORM = re.compile(r"(-?)(D+)(?:\.(D*))?(?:e([+-]?)(D+|I))?".replace("D", "[0-9\ue000-\uefff]").replace("I", "[\uf000-\uf0ff]"))


def digit(cx, ch):
    """the value of a digit character"""
    if ch.isdigit():
        return int(ch)
    c = cx.c
    t, k = divmod(ord(ch) - S.DIGITS, S.WIDTH)
    ds = c.cache.get(("digits", t))
    if ds is None:
        x, p = c.tokens[t]
        ds = []
        rest = x.val
        for j in range(p):
            v = np.floor(rest / 10.0 ** (p - 1 - j))
            rest = rest - v * 10.0 ** (p - 1 - j)
            i = c.new_var("digit", "aux", v)
            c.ints.add(i)
            ds.append(c.sym(i))
        vs = [v for d in ds for v in d.num.vars()]
        for j, d in enumerate(ds):
            c.axiom(S.tof(cx.And(cx.le(1 if j == 0 else 0, d), cx.le(d, 9))), *vs)
        c.axiom(S.tof(sum(d * 10 ** (p - 1 - j) for j, d in enumerate(ds)) == x), *vs)
        c.cache[("digits", t)] = ds
    return ds[k]


def read(cx, out):
    """(number of significant digits, value, first significant digit) of the printed decimal number"""
    m = FORM.fullmatch(out)
    if m is None:
        return None
    sg, ip, fp, es, ex = m.groups()
    fp = fp or ""
    ds = ip + fp
    sig = ds.lstrip("0")
    ex = ex or "0"
    if ord(ex[0]) >= S.INTS:
        E, q = cx.c.tokens[ord(ex) - S.INTS]
        if es == "-":
            E = -E
        if es:                                      # a sign in front: the number itself shows none
            cx.ensure("exponent: one sign", cx.le(0, cx.c.tokens[ord(ex) - S.INTS][0]))
        ten = S.pow10(E)
        if ten is None:
            raise Unsupported("power of ten of the exponent")
    else:
        if any(ord(ch) > 127 for ch in ex):
            raise Unsupported("digits of a number in the exponent")
        ten = S.const(S.Fraction(10) ** (int(ex) * (-1 if es == "-" else 1)))
    v = S.const(0)
    for k, ch in enumerate(ds):
        v = v + digit(cx, ch) * S.const(S.Fraction(10) ** (len(ip) - 1 - k))
    v = v * ten
    return len(sig), (-v if sg else v), digit(cx, sig[0]) if sig else 0


@harness("C26", cases=list(range(1, 16)), con=300)
def printed(cx, p):
    """to_precision(x, p): p significant digits, within half a unit of the p-th digit of x"""
    x, s, y, e, E = number(cx, p)
    if not cx.symbolic and not 1e-280 <= abs(x) <= 1e300:
        return
    out = cx.call(cx.gen.to_precision, x, p)
    cx.ensure("printed number: a string", isinstance(out, str))
    if cx.symbolic:
        r = read(cx, out)
        cx.ensure("printed number: a decimal number", r is not None)
        n, v, first = r
        u = E * S.const(S.Fraction(10) ** (1 - p))
    else:
        cx.ensure("printed number: a decimal number", re.fullmatch(r"-?\d+(\.\d*)?(e[+-]?\d+)?", out) is not None)
        sig = re.sub(r"e.*|[-.]", "", out).lstrip("0")
        n, first = len(sig), int(sig[:1] or 0)
        X = Decimal(x)
        u = Decimal(1).scaleb(X.adjusted() - p + 1)
        err = abs(Decimal(out) - X)
        cx.ensure("printed number: p significant digits", n == p and first > 0, repr(out))
        cx.ensure("printed number: within half a unit of the last digit",
                  err <= u / 2 + abs(X) * Decimal(8 * 2.0 ** -53), repr((x, out)))
        return
    cx.ensure("printed number: p significant digits", n == p)
    cx.ensure("printed number: p significant digits", cx.lt(0, first))
    cx.ensure("printed number: within half a unit of the last digit",
              cx.And(cx.le(2 * (v - x), u), cx.le(2 * (x - v), u)))


@harness("C26", cases=list(range(1, 16)), con=20)
def special(cx, p):
    """zero and NaN"""
    out = cx.call(cx.gen.to_precision, cx.choice("zero", [0.0, 0, -0.0]), p)
    cx.ensure("zero is printed as zero", isinstance(out, str) and re.fullmatch(r"-?0+(\.0*)?(e[+-]?\d+)?", out) is not None)
    out = cx.call(cx.gen.to_precision, S.NAN if cx.symbolic else float("nan"), p)
    cx.ensure("NaN is printed as NaN", isinstance(out, str) and out.lower() == "nan")


@harness("C26", sym=False, bounded="numbers given as integers and as numpy scalars")
def kinds(cx):
    """other kinds of numbers are printed as the float they are"""
    rng = np.random.default_rng(cx.int_("seed", 0, 10 ** 9))
    p = int(rng.integers(1, 16))
    k = int(rng.integers(-10 ** int(rng.integers(1, 12)), 10 ** int(rng.integers(1, 12))))
    f = cx.gen.to_precision
    a = cx.call(f, float(k), p)
    cx.ensure("the same for an integer", cx.call(f, k, p) == a)
    cx.ensure("the same for a numpy integer", cx.call(f, np.int64(k), p) == a)
    v = float(rng.normal() * 10.0 ** rng.integers(-6, 7))
    cx.ensure("the same for a numpy float", cx.call(f, np.float64(v), p) == cx.call(f, v, p))
    cx.ensure("the sign is a leading minus", cx.call(f, -abs(v), p) == "-" + cx.call(f, abs(v), p))
