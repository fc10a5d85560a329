"""whole numbers as linear forms in unknown whole numbers, ranges of them, and data of any number of samples"""
from vc import sym as S
from vc.engine import Unsupported
from vc.loops import MapSeq
import numpy as np

INTS = (int, np.integer)


class Whole:
    """c + sum of coefficient * unknown whole number; whether one is less than another is asked of the path"""

    def __init__(self, cx, table, form, c=0):
        self.cx, self.table, self.form, self.c = cx, table, {k: v for k, v in form.items() if v}, c

    @classmethod
    def unknowns(cls, cx, **syms):
        return [cls(cx, syms, {k: 1}) for k in syms]

    def new(self, name, sym):
        self.table[name] = sym
        return Whole(self.cx, self.table, {name: 1})

    def vc_sym(self):
        r = S.const(self.c)
        for k, v in self.form.items():
            r = r + self.table[k] * v
        return r

    def vc_int(self):
        return self

    def vc_isinstance(self, k):
        return issubclass(int, k)

    def vc_fixed(self):
        return self

    def vc_map1(self, f):
        v = self.vc_sym()
        r = f(v)
        d = r - v if isinstance(r, S.Sym) else None
        if d is not None and d.is_const() and d.cval() == 0:
            return self
        d = r + v if d is not None else None
        if d is not None and d.is_const() and d.cval() == 0:
            return -self
        raise Unsupported("a function of a whole number")

    def _w(self, o):
        if isinstance(o, S.Sym) and o.is_const() and o.cval() == int(o.cval()):
            o = int(o.cval())
        if isinstance(o, INTS):
            return Whole(self.cx, self.table, {}, int(o))
        return o if isinstance(o, Whole) else None

    def _lin(a, b):
        def g(self, o):
            w = self._w(o)
            if w is None:
                return NotImplemented
            f = {k: a * self.form.get(k, 0) + b * w.form.get(k, 0) for k in {**self.form, **w.form}}
            r = Whole(self.cx, self.table, f, a * self.c + b * w.c)
            return r if r.form else r.c
        return g
    __add__ = __radd__ = _lin(1, 1)
    __sub__, __rsub__ = _lin(1, -1), _lin(-1, 1)

    def __neg__(self):
        return self * -1

    def __pos__(self):
        return self

    def __mul__(self, o):
        w = self._w(o)
        if w is None or w.form:
            return NotImplemented
        return Whole(self.cx, self.table, {k: v * w.c for k, v in self.form.items()}, self.c * w.c) if w.c else 0
    __rmul__ = __mul__

    def __truediv__(self, o):
        return self.vc_sym() / (o.vc_sym() if isinstance(o, Whole) else o)

    def __rtruediv__(self, o):
        return o / self.vc_sym()

    def __divmod__(self, o):
        w = self._w(o)
        if w is None or w.form or w.c <= 0 or any(v % w.c for v in self.form.values()):
            raise Unsupported("division of a whole number")
        q = Whole(self.cx, self.table, {k: v // w.c for k, v in self.form.items()}, self.c // w.c)
        return q if q.form else q.c, self.c % w.c

    def __floordiv__(self, o):
        return divmod(self, o)[0]

    def __mod__(self, o):
        return divmod(self, o)[1]

    def __and__(self, o):
        if o != 1:
            raise Unsupported("bits of a whole number")
        return self % 2

    def __abs__(self):
        return self if self.cx.test(self >= 0) else -self

    def __le__(self, o):
        w = self._w(o)
        return self.vc_sym() <= (w.vc_sym() if w is not None else o)

    def __ge__(self, o):
        w = self._w(o)
        return self.vc_sym() >= (w.vc_sym() if w is not None else o)

    def __lt__(self, o):
        w = self._w(o)
        return self.vc_sym() <= w.vc_sym() - 1 if w is not None else self.vc_sym() < o

    def __gt__(self, o):
        w = self._w(o)
        return self.vc_sym() >= w.vc_sym() + 1 if w is not None else self.vc_sym() > o

    def __eq__(self, o):
        return self.vc_sym() == (o.vc_sym() if isinstance(o, Whole) else o)

    def __ne__(self, o):
        return self.vc_sym() != (o.vc_sym() if isinstance(o, Whole) else o)
    __hash__ = None

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        raise Unsupported("an unknown whole number as an index")
    __int__ = __float__ = __index__
    __array_ufunc__ = None

    def vc_range(self, lo, hi):
        name = "k%d" % len(self.table)
        return Ints(self.cx, self, lo, hi, name)

    def vc_factorial(self):
        return Factor({("!", key(self)): 1})

    def __pow__(self, o):
        return Power(self, o)

    def __rpow__(self, o):
        if isinstance(o, INTS) and o == 1:
            return 1
        return Power(o, self)


def key(w):
    return (tuple(sorted(w.form.items())), w.c) if isinstance(w, Whole) else ((), int(w))


class Ints(MapSeq):
    """range(lo, hi)"""

    def __init__(self, cx, w, lo, hi, name):
        self.lo, self.hi = lo, hi
        v = cx.real(name)
        k = w.new(name, v)
        cx.assume(k >= lo)
        cx.assume(k <= hi - 1)
        super().__init__(cx, "range", [k], None)


class Power:
    """base to the power e, either of them an unknown whole number"""

    def __init__(self, base, e):
        self.base, self.e = base, e

    def vc_array(self, f):
        return self

    def _no(self, *a):
        raise Unsupported("arithmetic of a power")
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __pow__ = __neg__ = _no
    __array_ufunc__ = None


class Factor:
    """a number: a product of powers of unknown numbers with unknown exponents, of factorials, and of numbers"""

    def __init__(self, parts, v=1):
        self.parts, self.v = {k: e for k, e in parts.items() if e}, v

    def _times(s):
        def g(self, o):
            o = o ** 1 if isinstance(o, Rate) else o
            if isinstance(o, Factor):
                return Factor({k: self.parts.get(k, 0) + s * o.parts.get(k, 0) for k in {**self.parts, **o.parts}},
                              self.v * o.v if s > 0 else self.v / o.v)
            if isinstance(o, (int, float, np.number, S.Sym)):
                return Factor(self.parts, self.v * o if s > 0 else self.v / o)
            return NotImplemented
        return g
    __mul__ = __rmul__ = _times(1)
    __truediv__ = _times(-1)

    def __rtruediv__(self, o):
        if isinstance(o, (int, float, np.number, S.Sym)):
            return Factor({k: -e for k, e in self.parts.items()}, o / self.v)
        return NotImplemented
    __array_ufunc__ = None


class Rate:
    """a positive number which is only multiplied with"""

    def __pow__(self, o):
        return Factor({("rate", key(o)): 1} if key(o) != ((), 0) else {})

    def __mul__(self, o):
        return self ** 1 * o
    __rmul__ = __mul__
    __array_ufunc__ = None


class Samples:
    """an array of n numbers, n unknown: the first, the last, and a generic one"""

    def __init__(self, cx, n, first, last, generic):
        self.cx, self.n, self.first, self.last, self.generic = cx, n, first, last, generic

    def vc_array(self, f):
        return self

    def copy(self):
        return self

    @property
    def shape(self):
        return (self.n,)

    @property
    def size(self):
        return self.n

    def vc_len(self):
        return self.n

    def _at(self, i, default):
        if i is None:
            return default
        if not isinstance(i, (Whole,) + INTS):
            raise Unsupported("index of the data")
        return i if self.cx.test(self.n * 0 + i >= 0) else self.n + i

    def __getitem__(self, i):
        cx, n = self.cx, self.n
        if isinstance(i, slice):
            step = 1 if i.step is None else i.step
            if step not in (1, -1):
                raise Unsupported("slice of the data")
            if step == 1:
                a, b = self._at(i.start, 0), self._at(i.stop, n)
            else:
                b = self._at(i.start, n - 1) + 1
                a = 0 if i.stop is None else self._at(i.stop, None) + 1
            a, b = n * 0 + a, n * 0 + b
            wa, wb = n._w(a), n._w(b)
            if not (cx.test(wa >= 0) and cx.test(wb <= n)):
                raise Unsupported("a slice beyond the data")
            d = wb - wa
            d = n._w(d)
            if not cx.test(d >= 0):
                d = n._w(0)
            return Part(cx, d, self.generic())
        i = n._w(self._at(i, None))
        for w, v in ((n._w(0), self.first), (n - 1, self.last)):
            if key(w) == key(i):
                return v
        raise Unsupported("a sample in the middle")


class Part:
    """an array of n numbers, each a function of some of the samples: a generic one"""

    def __init__(self, cx, n, e):
        self.cx, self.n, self.e = cx, n, e

    def vc_map1(self, f):
        return Part(self.cx, self.n, f(self.e))

    def vc_array(self, f):
        return self

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step in (None, 1, -1):
            return self
        raise Unsupported("an element of a part of the data")

    def _op(op):
        def g(self, o):
            if not self.cx.isnum(o):
                raise Unsupported("arithmetic of a part of the data with something else than a number")
            return Part(self.cx, self.n, op(self.e, o))
        return g
    __add__ = __radd__ = _op(lambda a, b: a + b)
    __sub__, __rsub__ = _op(lambda a, b: a - b), _op(lambda a, b: b - a)
    __mul__ = __rmul__ = _op(lambda a, b: a * b)
    __truediv__ = _op(lambda a, b: a / b)
    __neg__ = lambda self: Part(self.cx, self.n, -self.e)
    __abs__ = lambda self: Part(self.cx, self.n, abs(self.e))
    __array_ufunc__ = None


def join(parts):
    """np.concatenate of the data with parts of it before and behind"""
    if len(parts) != 3 or not isinstance(parts[1], Samples) or not isinstance(parts[0], Part) or not isinstance(parts[2], Part):
        raise Unsupported("another way to join the data")
    return Padded(parts[0], parts[1], parts[2])


Part.vc_join = Samples.vc_join = staticmethod(join)


class Padded:
    def __init__(self, before, data, after):
        self.before, self.data, self.after = before, data, after

    vc_join = staticmethod(join)

    def vc_array(self, f):
        return self

    def vc_convolve(self, w, mode):
        if mode != "valid" or not isinstance(w, Row):
            raise Unsupported("another convolution")
        return Filtered(self, w)


class Inverse:
    """the pseudo-inverse of the matrix of k**i, lo <= k < hi a row each, 0 <= i < columns (independent columns: not more than rows)"""

    def __init__(self, m):
        rows = m.origin
        e = m.reps[0]
        if not isinstance(rows, Ints) or not isinstance(e, MapSeq) or not isinstance(e.origin, Ints) or key(e.origin.lo) != ((), 0):
            raise Unsupported("pseudo-inverse of another matrix")
        p = e.reps[0]
        if not isinstance(p, Power) or not isinstance(p.base, Whole) or not isinstance(p.e, Whole) \
                or key(p.base) != key(rows.reps[0]) or key(p.e) != key(e.origin.reps[0]):
            raise Unsupported("pseudo-inverse of another matrix")
        self.lo, self.hi, self.columns = rows.lo, rows.hi, e.origin.hi

    @property
    def A(self):
        return self

    def vc_array(self, f):
        return self

    def __getitem__(self, d):
        if isinstance(d, tuple) and len(d) == 2 and isinstance(d[1], slice) and d[1] == slice(None):
            d = d[0]
        if not isinstance(d, (Whole,) + INTS):
            raise Unsupported("part of the pseudo-inverse")
        return Row(self, d, Factor({}), False)


class Row:
    """f times row d of the pseudo-inverse: what the least-squares polynomial's coefficient d is computed with"""

    def __init__(self, inv, d, f, flipped):
        self.inv, self.d, self.f, self.flipped = inv, d, f, flipped

    def vc_array(self, f):
        return self

    def __mul__(self, o):
        return Row(self.inv, self.d, self.f * o, self.flipped)
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Row(self.inv, self.d, self.f / o, self.flipped)

    def __getitem__(self, i):
        if isinstance(i, slice) and i.start is None and i.stop is None and i.step in (None, 1, -1):
            return Row(self.inv, self.d, self.f, self.flipped ^ (i.step == -1))
        raise Unsupported("part of the weights")
    __array_ufunc__ = None


class Filtered:
    """np.convolve(weights, data, 'valid')"""

    def __init__(self, data, w):
        self.data, self.w = data, w

    def vc_array(self, f):
        return self

    def _op(op):
        return lambda self, o: Filtered(self.data, op(self.w, o))
    __truediv__, __mul__ = _op(lambda w, o: w / o), _op(lambda w, o: w * o)
    __rmul__ = __mul__
    __array_ufunc__ = None
