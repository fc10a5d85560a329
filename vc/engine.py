"""Harness execution: symbolic path exploration (proof) and concrete runs on the real code (replay)."""
import hashlib
import inspect
import os
import signal
import time
import traceback
import types
from fractions import Fraction
import numpy as np
from . import sym as S
from . import prove as PV
from . import loader, loops, shim
from .poly import Poly, ONE
from .sym import (Sym, SymBool, Undef, F, TRUE, FALSE, PathEnd, Unsupported, const, lift, tof, f_and, f_or, wrapb, NS)
from .tri import t_not, t_and, t_or, fl


class Skip(BaseException):
    """concrete run: inputs excluded by an assumption (or too close to its boundary)"""


class Falsified(BaseException):
    def __init__(self, label, detail):
        self.label, self.detail = label, detail


def rng_for(*key):
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], "little"))


# ---------------------------------------------------------------- generators
def g_real(lo=-5.0, hi=5.0):
    def g(rng, env):
        k = rng.integers(10)
        if k < 2:
            a, b = int(np.ceil(lo)), int(np.floor(hi))
            if b >= a:
                return float(rng.integers(a, b + 1))
        return float(rng.uniform(lo, hi))
    g.free = (-hi, hi) if (lo, hi) != (-5.0, 5.0) else (-1e9, 1e9)
    return g


def g_pos(lo=0.05, hi=6.0):
    def g(rng, env):
        k = rng.integers(10)
        if k < 3 and hi >= 1:
            return float(rng.integers(max(1, int(np.ceil(lo))), int(np.floor(hi)) + 1))
        return float(np.exp(rng.uniform(np.log(lo), np.log(hi))))
    g.free = (lo, hi) if (lo, hi) != (0.05, 6.0) else (0, 1e9)
    return g


def _vecs(env):
    return [v for v in env.values() if isinstance(v, np.ndarray) and v.shape == (3,)]


def g_vec(rng, env):
    k = rng.integers(20)
    if k < 3:
        return rng.integers(-4, 5, 3).astype(float)
    if k < 4:
        v = np.zeros(3)
        v[rng.integers(3)] = rng.choice([-1.0, 1.0, 2.0, -3.0])
        return v
    if k < 5:
        return np.zeros(3)
    return rng.normal(size=3) * float(rng.choice([0.3, 1.0, 3.0, 3.0]))


def g_dir(rng, env):
    """nonzero vector"""
    while True:
        k = rng.integers(20)
        if k < 4:
            v = np.zeros(3)
            v[rng.integers(3)] = rng.choice([-1.0, 1.0])
        elif k < 6:
            v = rng.integers(-3, 4, 3).astype(float)
        elif k < 9:
            old = [w for w in _vecs(env) if w.any()]
            if not old:
                continue
            w = old[rng.integers(len(old))]
            kk = rng.integers(4)
            if kk == 0:
                v = w.copy()
            elif kk == 1:
                v = -w
            elif kk == 2:
                v = np.cross(w, rng.normal(size=3))
            else:
                v = w + rng.normal(size=3) * 0.2 * np.linalg.norm(w)
        else:
            v = rng.normal(size=3)
        if np.linalg.norm(v) > 1e-3:
            return v


def g_unit(rng, env):
    v = g_dir(rng, env)
    return v / np.linalg.norm(v)


g_vec.free = g_dir.free = g_unit.free = True


def g_quat(rng, env):
    k = rng.integers(10)
    if k < 2:
        v = np.zeros(4)
        v[rng.integers(4)] = 1.0
    elif k < 4:
        v = rng.choice([-1.0, 1.0], 4)
    else:
        v = rng.normal(size=4)
    return v / np.linalg.norm(v)


def g_circle(rng, env):
    k = rng.integers(10)
    if k < 2:
        return np.array([[1., 0.], [0., 1.], [-1., 0.], [0., -1.]][rng.integers(4)])
    t = rng.uniform(-np.pi, np.pi)
    return np.array([np.cos(t), np.sin(t)])


def quat_cols(q_):
    a, b, c, d = q_          # scalar part last
    e1 = [d * d + a * a - b * b - c * c, 2 * (a * b + d * c), 2 * (a * c - d * b)]
    e2 = [2 * (a * b - d * c), d * d - a * a + b * b - c * c, 2 * (b * c + d * a)]
    e3 = [2 * (a * c + d * b), 2 * (b * c - d * a), d * d - a * a - b * b + c * c]
    return e1, e2, e3


# ---------------------------------------------------------------- harness registry
class Harness:
    def __init__(self, prop, name, fn, cases, opts):
        self.prop, self.name, self.fn, self.cases, self.opts = prop, name, fn, cases, opts


REG = {}


def harness(prop, name=None, cases=(None,), **opts):
    """opts: con (number of concrete runs, relative weight), sym=False for concrete-only (bounded) parts,
    bounded="..." when the symbolic part itself is bounded"""
    def d(fn):
        for p in (prop if isinstance(prop, (tuple, list)) else [prop]):
            h = Harness(p, name or fn.__name__, fn, list(cases), opts)
            REG.setdefault(p, []).append(h)
        return fn
    return d


# ---------------------------------------------------------------- common part of both modes
REPO_TYPES = (types.FunctionType,)


class Base:
    def mod(self, n):
        return self.world[n]

    @property
    def optics(self):
        return self.world["optics3d"]

    @property
    def shapes(self):
        return self.world["Shapes.shapes"]

    @property
    def go(self):
        return self.world["general_optics"]

    @property
    def gen(self):
        return self.world["general"]

    def on(self, *props):
        """the check in progress is one of these properties' (a contract may serve several properties)"""
        return self.h.prop in props

    # lists with an arbitrary past
    def grown(self, now, old):
        """the items appended to a list since it was `old` (a copy, or a Tail); None if it is not the old list grown"""
        if isinstance(old, loops.Tail):
            if not isinstance(now, loops.Tail) or now.start is not old.start:
                return None
            now, old = now.known, old.known
        if not isinstance(now, (list, tuple)) or len(now) < len(old) \
                or not all(deep_same(x, y) for x, y in zip(old, now)):
            return None
        return list(now)[len(old):]

    # logic shared
    def Imp(self, a, b):
        return self.Or(self.Not(a), b)

    def Iff(self, a, b):
        return self.And(self.Imp(a, b), self.Imp(b, a))

    def gt(self, a, b, **k):
        return self.lt(b, a, **k)

    def ge(self, a, b, **k):
        return self.le(b, a, **k)

    def ne(self, a, b, **k):
        return self.Not(self.eq(a, b, **k))

    def parallel(self, a, b):
        return self.veq(self.cross(a, b), self.arr([0, 0, 0]))

    def collinear_same(self, a, b):
        """b = k a with k > 0"""
        return self.And(self.parallel(a, b), self.gt(self.dot(a, b), 0))

    def is_unit(self, v):
        if not self.isvec(v):
            return self.false
        return self.eq(self.dot(v, v), 1)

    def frame(self, name):
        """an arbitrary orthonormal right-handed triple of unit vectors"""
        qv = self._quat(name)
        e = quat_cols(qv)
        return tuple(self.arr(x) for x in e)

    def map_roots(self):
        return self.globals_root()

    def unit_list(self, names):
        return [self.unit(n) for n in names]


def mkvec(v, rng):
    """a concrete vector argument: float array, sometimes an integer array"""
    return v


# ---------------------------------------------------------------- concrete runs
class ConCx(Base):
    symbolic = False
    true, false = True, False

    def __init__(self, harness_, case, inputs=None, seed=0, index=0, tol=1e-6):
        self.h, self.case = harness_, case
        self.given = inputs
        self.env = {}
        self.rng = rng_for("con", seed, harness_.name, repr(case), index)
        self.world = loader.real()
        self.tol = tol
        self.np = np
        self.checked = 0
        self.decided = 0
        self.ints = bool(self.rng.integers(4) == 0)
        if inputs is not None:
            self.ints = bool(inputs.get("__ints", False))
        self.env["__ints"] = int(self.ints)
        self.lits = loader.new_literals() if inputs is None else ()

    # inputs
    def _inp(self, name, gen):
        if self.given is not None and name in self.given:
            v = self.given[name]
            if isinstance(v, (list, tuple)):
                v = np.array(v, float)
            elif isinstance(v, np.ndarray):
                v = v.copy()
        else:
            v = gen(self.rng, self.env)
            if self.lits and self.rng.integers(8) == 0:
                w = self._sized(v)
                free = getattr(gen, "free", None)
                if free is True or free and free[0] <= w <= free[1]:
                    v = w
        self.env[name] = v.copy() if isinstance(v, np.ndarray) else v
        return v

    def _literal(self):
        return self.lits[self.rng.integers(len(self.lits))]

    def _sized(self, v):
        """an input whose size is about that of a number in the source (see loader.new_literals)"""
        c = self._literal() * float(self.rng.choice([1, 1 + 1e-4, 1 - 1e-4, 1.01, 0.99, 1.3, 0.7, 0.3, 3, 0]) or
                                    np.exp(self.rng.uniform(-1.5, 1.5)))
        if c <= 0:
            return v
        if isinstance(v, np.ndarray):
            n = np.linalg.norm(v)
            if v.shape != (3,) or n == 0:
                return v
            if abs(n - 1) < 1e-9:                   # a direction: at a small angle to another one
                w = self.rng.normal(size=3)
                for u in self.env.values():
                    if isinstance(u, np.ndarray) and u.shape == (3,) and u.any() and self.rng.integers(2):
                        w = u
                a = min(1.5, float(self.rng.choice([c, np.sqrt(c), np.sqrt(2 * c)])))
                w = w / np.linalg.norm(w)
                p = np.cross(w, self.rng.normal(size=3))
                if self.rng.integers(2):
                    return np.cos(a) * w + np.sin(a) * p / np.linalg.norm(p)
                return np.sin(a) * w + np.cos(a) * p / np.linalg.norm(p)
            return v / n * c
        return np.copysign(c, v) if np.isfinite(v) else v

    def real(self, name, gen=None, pos=False, nonneg=False):
        v = self._inp(name, gen or (g_pos() if pos or nonneg else g_real()))
        v = float(v)
        if (pos and v <= 0) or (nonneg and v < 0):
            raise Skip()
        return v

    def _arrtype(self, v):
        if self.ints and np.all(v == np.round(v)) and np.all(np.abs(v) < 1e6):
            return v.astype(int)
        return v

    def point(self, name, gen=None):
        return self._arrtype(self._inp(name, gen or g_vec))

    def vec(self, name, gen=None):
        return self._arrtype(self._inp(name, gen or g_dir))

    def unit(self, name, gen=None):
        v = self._inp(name, gen or g_unit)
        n = np.linalg.norm(v)
        if n == 0:
            raise Skip()
        if abs(n - 1) > 1e-12:
            v = v / n
            v = v / np.linalg.norm(v)
        self.env[name] = v.copy()
        return self._arrtype(v)

    def _quat(self, name, gen=None):
        v = self._inp(name, gen or g_quat)
        n = np.linalg.norm(v)
        if n == 0:
            raise Skip()
        self.env[name] = v / n
        return v / n

    def circle(self, name, upper=False, gen=None):
        v = np.asarray(self._inp(name, gen or g_circle), float)
        n = np.linalg.norm(v)
        if n == 0:
            raise Skip()
        v = v / n
        if upper:
            v[1] = abs(v[1])
            if v[1] == 0:
                raise Skip()
        self.env[name] = v.copy()
        return [float(v[0]), float(v[1])]

    def frame(self, name):
        qv = self._quat(name)
        e = [np.array(x) for x in quat_cols(qv)]
        for i, x in enumerate(e):
            x /= np.linalg.norm(x)
            self.env["%s.e%d" % (name, i + 1)] = x.copy()
        return tuple(e)

    def coords(self, name, frame, origin=None, unit=False, gen=None):
        """a point / vector given by its coordinates in a frame (any vector has such coordinates)"""
        M = np.array([np.asarray(e, float) for e in frame])
        o = np.zeros(3) if origin is None else np.asarray(origin, float)
        g = gen or (g_unit if unit else g_vec)
        q_ = self._inp(name, lambda rng, env: M @ (np.asarray(g(rng, env), float) - o))
        if unit:
            n = np.linalg.norm(q_)
            if n == 0:
                raise Skip()
            q_ = q_ / n
            self.env[name] = q_.copy()
        v = o + M.T @ q_
        if unit:
            v = v / np.linalg.norm(v)
        self.env[name + ".w"] = v.copy()
        return self._arrtype(v), [float(x) for x in q_]

    def choice(self, name, opts, weights=None):
        if self.given is not None and name in self.given:
            i = int(self.given[name]) % len(opts)      # as in the run it was recorded in, if there were as many options
        else:
            i = int(self.rng.choice(len(opts), p=weights))
        self.env[name] = i
        return opts[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def int_(self, name, lo, hi, big=None):
        """big: how large the number may get where the source itself mentions numbers of that size"""
        if self.given is not None and name in self.given:
            v = int(self.given[name])
        else:
            v = int(self.rng.integers(lo, hi + 1))
            if big and self.lits and self.rng.integers(4) == 0:
                c = int(self._literal()) + int(self.rng.integers(-2, 3))
                if lo <= c <= big:
                    v = c
        self.env[name] = v
        return v

    # algebra
    def arr(self, x):
        return np.array(x, float)

    def dot(self, a, b):
        return float(np.dot(np.asarray(a, float), np.asarray(b, float)))

    def cross(self, a, b):
        return np.cross(np.asarray(a, float), np.asarray(b, float))

    def norm(self, a):
        return float(np.linalg.norm(np.asarray(a, float)))

    def sqrt(self, x):
        if x < 0:
            return 0.0 if x > -1e-9 else float("nan")
        return float(np.sqrt(x))

    def cos(self, x):
        return float(np.cos(x))

    def sin(self, x):
        return float(np.sin(x))

    def abs(self, x):
        return abs(x)

    @property
    def pi(self):
        return float(np.pi)

    def isvec(self, v, n=3):
        try:
            a = np.asarray(v, float)
        except Exception:
            return False
        return isinstance(v, (np.ndarray, list, tuple)) and a.shape == (n,) and not isinstance(v, np.matrix)

    def isnum(self, x):
        return isinstance(x, (int, float, np.floating, np.integer)) and not isinstance(x, bool) and x == x and abs(x) != np.inf

    # conditions
    def _scale(self, *xs):
        return max([1.0] + [abs(x) for x in xs if x == x])

    def eq(self, a, b, tol=None):
        try:
            a, b = fl(a), fl(b)
        except Exception:
            return False
        if a != a or b != b:
            return False
        return abs(a - b) <= (tol or self.tol) * self._scale(a, b)

    def lt(self, a, b, margin=1e-9):
        a, b = fl(a), fl(b)
        if a != a or b != b:
            return False
        if a == b and margin == 0:
            return False
        if abs(a - b) <= margin * self._scale(a, b):
            return None
        return a < b

    def le(self, a, b, margin=1e-9):
        a, b = fl(a), fl(b)
        if a != a or b != b:
            return False
        if abs(a - b) <= margin * self._scale(a, b):
            return True if a <= b and margin == 0 else None
        return a <= b

    def le_ok(self, a, b):
        """a <= b, accepting rounding"""
        r = self.le(a, b)
        return True if r is None else r

    def veq(self, a, b, tol=None):
        try:
            a, b = np.asarray(a, float), np.asarray(b, float)
        except Exception:
            return False
        if a.shape != b.shape or np.isnan(a).any() or np.isnan(b).any():
            return False
        sc = max([1.0] + [float(np.abs(a).max()), float(np.abs(b).max())]) if a.size else 1.0
        return bool(np.abs(a - b).max() <= (tol or self.tol) * sc) if a.size else True

    def And(self, *c):
        return t_and(c)

    def Or(self, *c):
        return t_or(c)

    def Not(self, c):
        return t_not(c)

    def bool(self, x):
        """truth value returned by the code under test"""
        return bool(x)

    def assume(self, c):
        if not c:
            raise Skip()

    def test(self, c):
        if c is None:
            raise Skip()
        return bool(c)

    # obligations
    def ensure(self, label, c, detail=""):
        self.checked += 1
        if c is not None:
            self.decided += 1
        if c is False or (c is not None and not c):
            raise Falsified(label, detail() if callable(detail) else detail)

    def soft(self, label, c):
        """an obligation sufficient, not necessary, for the property: never a violation"""
        return False

    def cover(self, label):
        pass

    def call(self, fn, *a, **k):
        import warnings
        try:
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*a, **k)
        except Exception as e:
            raise Falsified("no exception from %s" % getattr(fn, "__qualname__", fn),
                            "%s: %s" % (type(e).__name__, e))

    def attempt(self, fn, *a, **k):
        import warnings
        try:
            with np.errstate(all="ignore"), warnings.catch_warnings():
                warnings.simplefilter("ignore")
                return fn(*a, **k), None
        except Exception as e:
            return None, e

    def stub(self, name, fn):
        return False

    def heap(self, roots):
        return heap(roots)

    def heap_diff(self, a, b, ignore=()):
        return heap_diff(a, b, ignore)

    def unchanged(self, label, before, roots, ignore=()):
        d = [x for x in heap_diff(before, heap(roots), ignore) if not x.endswith(" new")]
        self.ensure(label, not d, "; ".join(d[:3]))

    def globals_root(self):
        return [self.world.mods[m] for m in self.world.mods]

    def abstract(self):
        return False


# ---------------------------------------------------------------- heaps (frames)
def _is_repo_obj(o):
    return hasattr(o, "__dict__") and not isinstance(o, (type, types.ModuleType, types.FunctionType, Base)) \
        and not hasattr(type(o), "vc_stub")


def heap(roots):
    """shallow snapshot of everything mutable reachable from the roots"""
    seen = {}
    order = []
    todo = [(r, "arg%d" % i) for i, r in enumerate(roots)]
    while todo:
        o, path = todo.pop()
        if id(o) in seen:
            continue
        if isinstance(o, (Sym, SymBool, str, int, float, bool, type(None), Poly, np.generic)):
            continue
        if getattr(o, "vc_opaque", False) is True:
            continue
        rec = None
        if isinstance(o, np.ndarray):
            rec = ("arr", o.shape, [x for x in o.ravel()])
        elif isinstance(o, (list, tuple)):
            o_ = o.known if isinstance(o, loops.Tail) else o
            rec = ("seq", None, list(o_))
            todo += [(x, "%s[%d]" % (path, i)) for i, x in enumerate(o_)]
        elif isinstance(o, (set, frozenset)):
            rec = ("set", None, sorted(map(repr, o)))
        elif isinstance(o, dict):
            rec = ("dict", None, dict(o))
            todo += [(x, "%s[%r]" % (path, k)) for k, x in o.items()]
        elif isinstance(o, types.FunctionType):
            f = o
            if not in_repo(f):
                continue
            rec = ("fn", None, {"__defaults__": f.__defaults__, "__kwdefaults__": f.__kwdefaults__,
                                "__dict__": dict(f.__dict__)})
            todo += [(f.__defaults__, path + ".defaults"), (f.__kwdefaults__, path + ".kwdefaults"),
                     (f.__dict__, path + ".__dict__")]
            for c in f.__closure__ or ():
                try:
                    todo.append((c.cell_contents, path + ".cell"))
                except ValueError:
                    pass
        elif isinstance(o, types.MethodType):
            todo += [(o.__self__, path), (o.__func__, path)]
            continue
        elif isinstance(o, types.ModuleType):
            if not in_repo(o):
                continue
            d = {k: v for k, v in o.__dict__.items() if not k.startswith("__")}
            rec = ("dict", None, d)
            todo += [(v, "%s.%s" % (path if path[:3] != "arg" else o.__name__, k)) for k, v in d.items()]
        elif isinstance(o, type):
            if not in_repo(o):
                continue
            d = {k: v for k, v in o.__dict__.items() if k not in ("__dict__", "__weakref__", "__doc__")}
            rec = ("dict", None, d)
            todo += [(v, "%s.%s" % (o.__name__, k)) for k, v in d.items()]
        elif hasattr(o, "__dict__") and not isinstance(o, Base):
            if hasattr(type(o), "vc_stub"):
                continue
            rec = ("obj", None, dict(o.__dict__))
            todo += [(v, "%s.%s" % (path, k)) for k, v in o.__dict__.items()]
            todo.append((type(o), type(o).__name__))
        else:
            continue
        seen[id(o)] = (o, path, rec)
        order.append(id(o))
    return seen


def in_repo(o):
    m = getattr(o, "__module__", None) if not isinstance(o, types.ModuleType) else o.__name__
    return m in loader.MODS or m == "Shapes" or (m is not None and loader.find(m.split(".")[0])[0] is not None)


def deep_same(a, b, depth=0):
    if a is b:
        return True
    if depth > 6:
        return False
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        return all(deep_same(x, y, depth + 1) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, (Sym, SymBool)) or isinstance(b, (Sym, SymBool)):
        return loops.same(a, b)
    if isinstance(a, (list, tuple)) and type(a) == type(b):
        return len(a) == len(b) and all(deep_same(x, y, depth + 1) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(deep_same(a[k], b[k], depth + 1) for k in a)
    if isinstance(a, Undef) and isinstance(b, Undef):
        return True
    if isinstance(a, (float, np.floating)) and isinstance(b, (float, np.floating)) and a != a and b != b:
        return True
    try:
        return type(a) == type(b) and bool(a == b)
    except Exception:
        return False


def heap_diff(a, b, ignore=()):
    """differences in what existed before; [] if none.  ignore: set of (id(obj), key or None).
    Private notes of anything but a ray ("_x", such as a cache or a counter) are marked " new": they do not count
    as changes, what they do is seen in the answers."""
    out = []
    for i, (o, path, rec) in a.items():
        if i not in b:
            continue                     # no longer reachable: its holder differs too if that matters
        kind, shp, con = rec
        k2, s2, con2 = b[i][2]
        if (i, None) in ignore:
            continue
        hidden = "._" in path and ".__" not in path and not path.startswith("Ray.")

        def found(x, private):
            out.append(x + " new" if private else x)
        if kind in ("arr", "seq"):
            if shp != s2 or len(con) != len(con2) or not all(deep_same(x, y) for x, y in zip(con, con2)):
                found("%s changed" % path, hidden)
        elif kind == "set":
            if con != con2:
                found("%s changed" % path, hidden)
        else:
            for k in list(con) + [k for k in con2 if k not in con]:
                if (i, k) in ignore:
                    continue
                what = "added" if k not in con else "removed" if k not in con2 else \
                    "changed" if not deep_same(con[k], con2[k]) else None
                if what:
                    s = str(k)
                    private = (s.startswith("_") and not s.startswith("__")) or hidden
                    found("%s.%s %s" % (path, k, what), private and type(o).__name__ != "Ray")
    return out


# ---------------------------------------------------------------- symbolic runs
class SymCx(Base):
    symbolic = True
    true, false = True, False

    def __init__(self, ex, prefix):
        self.ex = ex
        self.h, self.case = ex.h, ex.case
        self.c = S.Ctx(ex, prefix)
        self.c.cx = self
        self.np = shim.NP
        self.envs = [dict() for _ in range(NS)]
        self.inputs = {}
        self.choices = {}
        self.persist = ex.persist
        self.obligations = []
        self.world = None
        self.stubs = set()
        self.modular = True

    @property
    def restart(self):
        return self.ex.restart

    @restart.setter
    def restart(self, v):
        self.ex.restart = v

    # inputs
    def _samples(self, name, gen):
        vals = []
        for k in range(NS):
            r = rng_for("sym", self.ex.seed, self.h.name, repr(self.case), name, k)
            v = gen(r, self.envs[k])
            self.envs[k][name] = v
            vals.append(v)
        return np.array(vals, float)

    def real(self, name, gen=None, pos=False, nonneg=False):
        v = self._samples(name, gen or (g_pos() if pos or nonneg else g_real()))
        i = self.c.new_var(name, "input", v)
        if pos:
            self.c.set_pos(i)
        elif nonneg:
            self.c.set_nonneg(i)
        self.inputs[name] = ("real", [i])
        return self.c.sym(i)

    def _vec(self, name, v, kind, unit=False):
        ids = [self.c.new_var("%s.%s" % (name, "xyz"[j]), "input", v[:, j]) for j in range(3)]
        self.inputs[name] = ("vec", ids)
        if unit:
            x, y, z = ids
            self.c.add_rule(z, ONE - Poly.var(x).pow(2) - Poly.var(y).pow(2))
            # the square of the third component is not negative
            self.c.axiom(S.mk("le", Poly.var(x).pow(2) + Poly.var(y).pow(2) - ONE), *ids)
        self.c.groups.append((kind, name, ids, "unit") if unit else (kind, name, ids))
        r = shim.arr([self.c.sym(i) for i in ids])
        if unit:
            self.c.units.append([r[0], r[1], r[2]])
        return r

    def point(self, name, gen=None):
        return self._vec(name, self._samples(name, gen or g_vec), "point")

    def vec(self, name, gen=None):
        return self._vec(name, self._samples(name, gen or g_dir), "vec")

    def unit(self, name, gen=None):
        v = self._samples(name, gen or g_unit)
        v = v / np.linalg.norm(v, axis=1)[:, None]
        for k in range(NS):
            self.envs[k][name] = v[k]
        return self._vec(name, v, "vec", True)

    def _quat(self, name, gen=None):
        v = self._samples(name, gen or g_quat)
        ids = [self.c.new_var("%s.%s" % (name, "abcd"[j]), "input", v[:, j]) for j in range(4)]
        self.inputs[name] = ("quat", ids)
        a, b, c, d = ids
        p = ONE - Poly.var(a).pow(2) - Poly.var(b).pow(2) - Poly.var(c).pow(2)
        self.c.add_rule(d, p)
        self.c.axiom(S.mk("le", -p), *ids)
        self.c.groups.append(("quat", name, ids))
        return [self.c.sym(i) for i in ids]

    def circle(self, name, upper=False, gen=None):
        """(x, y) with x**2 + y**2 = 1; upper: y > 0"""
        v = self._samples(name, gen or g_circle)
        v = v / np.linalg.norm(v, axis=1)[:, None]
        if upper:
            v[:, 1] = np.where(v[:, 1] == 0, 1e-3, np.abs(v[:, 1]))
            v = v / np.linalg.norm(v, axis=1)[:, None]
        for k in range(NS):
            self.envs[k][name] = v[k]
        ids = [self.c.new_var("%s.%s" % (name, "xy"[j]), "input", v[:, j]) for j in range(2)]
        self.inputs[name] = ("vec", ids)
        p = ONE - Poly.var(ids[0]).pow(2)
        self.c.add_rule(ids[1], p)
        self.c.axiom(S.mk("lt" if upper else "le", -p), *ids)
        if upper:
            self.c.set_pos(ids[1])
        return [self.c.sym(i) for i in ids]

    def frame(self, name):
        qv = self._quat(name)
        e = [shim.arr(x) for x in quat_cols(qv)]
        for i, x in enumerate(e):
            self.c.units.append(list(x))
            for k in range(NS):
                self.envs[k]["%s.e%d" % (name, i + 1)] = np.array([y.val[k] for y in x])
        return tuple(e)

    def coords(self, name, frame, origin=None, unit=False, gen=None):
        F_ = np.array([[[x.val[k] for x in e] for e in frame] for k in range(NS)])
        O_ = np.zeros((NS, 3)) if origin is None else np.array([[lift(x).val[k] for x in origin] for k in range(NS)])
        g = gen or (g_unit if unit else g_vec)
        vals = []
        for k in range(NS):
            r = rng_for("sym", self.ex.seed, self.h.name, repr(self.case), name, k)
            v = np.asarray(g(r, self.envs[k]), float)
            q_ = F_[k] @ (v - O_[k])
            if unit:
                q_ = q_ / np.linalg.norm(q_)
            self.envs[k][name] = q_
            self.envs[k][name + ".w"] = O_[k] + F_[k].T @ q_
            vals.append(q_)
        vals = np.array(vals)
        ids = [self.c.new_var("%s.%s" % (name, "123"[j]), "input", vals[:, j]) for j in range(3)]
        self.inputs[name] = ("vec", ids)
        if unit:
            x, y, z = ids
            self.c.add_rule(z, ONE - Poly.var(x).pow(2) - Poly.var(y).pow(2))
            self.c.axiom(S.mk("le", Poly.var(x).pow(2) + Poly.var(y).pow(2) - ONE), *ids)
        q_ = [self.c.sym(i) for i in ids]
        w = []
        for j in range(3):
            t = const(0) if origin is None else lift(origin[j])
            for i in range(3):
                t = t + q_[i] * frame[i][j]
            w.append(t)
        return shim.arr(w), q_

    def choice(self, name, opts, weights=None):
        i = self.c.choose(name, len(opts))
        self.choices[name] = i
        for k in range(NS):
            self.envs[k][name] = i
        return opts[i]

    def flag(self, name):
        return self.choice(name, [False, True])

    def int_(self, name, lo, hi, big=None):
        v = self.choice(name, list(range(lo, hi + 1)))
        self.choices[name] = v
        for k in range(NS):
            self.envs[k][name] = v
        return v

    # algebra
    def arr(self, x):
        return shim.arr(x).copy()

    def dot(self, a, b):
        return shim.dot(shim.arr(a), shim.arr(b))

    def cross(self, a, b):
        return shim.cross(a, b)

    def norm(self, a):
        return shim.norm(a)

    def sqrt(self, x):
        return S.sym_sqrt(x)

    def cos(self, x):
        return S.sym_trig(lift(x))[0]

    def sin(self, x):
        return S.sym_trig(lift(x))[1]

    def abs(self, x):
        return abs(lift(x))

    @property
    def pi(self):
        return self.c.pi()

    def isvec(self, v, n=3):
        if not isinstance(v, (np.ndarray, list, tuple)):
            return False
        try:
            a = shim.raw(v)
        except Unsupported:
            return False
        return a.shape == (n,) and all(shim.is_num(e) and not isinstance(e, Undef) for e in a)

    def isnum(self, x):
        return isinstance(x, (int, float, Sym, Fraction, np.floating, np.integer)) and not isinstance(x, bool) \
            and not (isinstance(x, float) and (x != x or abs(x) == np.inf))

    # conditions
    def _num(self, x):
        if isinstance(x, np.ndarray) and x.size == 1:
            x = x.ravel()[0]
        try:
            r = lift(x)
        except Exception:
            return None
        return r if isinstance(r, Sym) else None

    def eq(self, a, b, tol=None):
        a, b = self._num(a), self._num(b)
        if a is None or b is None:
            return False
        return a == b

    def lt(self, a, b, margin=None):
        x, y = self._num(a), self._num(b)
        if x is None or y is None:
            if isinstance(a, Undef) or isinstance(b, Undef) or a is None or b is None:
                return False
            return a < b
        return x < y

    def le(self, a, b, margin=None):
        x, y = self._num(a), self._num(b)
        if x is None or y is None:
            if isinstance(a, Undef) or isinstance(b, Undef) or a is None or b is None:
                return False
            return a <= b
        return x <= y

    le_ok = le

    def veq(self, a, b, tol=None):
        try:
            a, b = shim.raw(a), shim.raw(b)
        except Unsupported:
            return False
        if a.shape != b.shape:
            return False
        d = []
        for x, y in zip(a.ravel(), b.ravel()):
            x, y = self._num(x), self._num(y)
            if x is None or y is None:
                return False
            d.append(x - y)
        sc = [np.abs(self._num(x).val) + np.abs(self._num(y).val) for x, y in zip(a.ravel(), b.ravel())]
        if all(e.num.is_zero() for e in d):
            return True
        if len(d) == 1:
            return a.ravel()[0] == b.ravel()[0]
        fs = []
        for e, s in zip(d, sc):
            if not e.num.is_zero():
                fs.append(S.mk("eq", e.num, S.svec(e.val, "eq", s)))
        if any(f.op == "F" for f in fs):
            return False
        sm = f_and(fs).s
        if len(d) == 3 and sum(len(e.num.t) for e in d) < 1500:
            return VEq(d, fs, sm)
        return wrapb(f_and(fs))

    def And(self, *c):
        return wrapb(f_and([self._f(x) for x in c]))

    def Or(self, *c):
        return wrapb(f_or([self._f(x) for x in c]))

    def Not(self, c):
        return wrapb(self._f(c).neg())

    def _f(self, c):
        if isinstance(c, VEq):
            return c.formula()
        return tof(c)

    def bool(self, x):
        """truth value returned by the code under test, as a condition"""
        if isinstance(x, SymBool):
            return x
        return bool(x)

    def assume(self, c):
        if isinstance(c, VEq):
            c = wrapb(f_and(c.fs))
        self.c.assume(tof(c))

    def test(self, c):
        return self.c.decide(self._f(c))

    # obligations
    def ensure(self, label, c, detail=""):
        f = self._f(c)
        self.ex.obligation(self, label, f, detail() if callable(detail) else detail)

    def soft(self, label, c):
        """an obligation sufficient, not necessary, for the property: where it fails the argument is not
        applicable and the property stands on the bounded part; never a violation"""
        r = {"label": label, "status": "proved", "how": "normal form", "detail": "", "witness": bool(self.c.mask.any())}
        f = self._f(c)
        if f.op != "T":
            st, how, _ = PV.prove(self.c, self.c.hyps, f)
            if st != "proved":
                raise Unsupported("sufficient condition not shown: " + label)
            r["how"] = how
        self.ex.results.append(r)
        return True

    def cover(self, label):
        self.ex.covers.setdefault(label, 0)
        if self.c.mask.any():
            self.ex.covers[label] += 1

    def call(self, fn, *a, **k):
        try:
            return fn(*a, **k)
        except (ZeroDivisionError, OverflowError) as e:
            self._raised(fn, e)
        except Exception as e:
            self._raised(fn, e)

    def _raised(self, fn, e):
        tb = traceback.extract_tb(e.__traceback__)
        where = "%s:%d" % (os.path.basename(tb[-1].filename), tb[-1].lineno) if tb else "?"
        self.ex.raised(self, "no exception from %s" % getattr(fn, "__qualname__", fn),
                       "%s: %s (%s)" % (type(e).__name__, e, where))
        raise PathEnd()

    def attempt(self, fn, *a, **k):
        try:
            return fn(*a, **k), None
        except Exception as e:
            tb = traceback.extract_tb(e.__traceback__)
            if isinstance(e, (TypeError, AttributeError, NotImplementedError)) and tb \
                    and not tb[-1].filename.startswith(loader.REPO):
                raise Unsupported("%s in the verifier's numpy model: %s" % (type(e).__name__, e))
            return None, e

    def stub(self, name, fn):
        """replace a module-level function of the repository by its contract; False if there is none"""
        if not self.modular:
            return False
        orig = None
        mn, _, fnm = name.rpartition(".")
        orig = getattr(self.world[mn], fnm, None)
        if orig is None:
            return False
        for m in self.world.mods.values():
            if isinstance(m, loader.Stub):
                continue
            for k, v in list(m.__dict__.items()):
                if v is orig:
                    setattr(m, k, fn)
        self.stubs.add(name)
        return True

    def heap(self, roots):
        return heap(roots)

    def heap_diff(self, a, b, ignore=()):
        return heap_diff(a, b, ignore)

    def unchanged(self, label, before, roots, ignore=()):
        d = heap_diff(before, heap(roots), ignore)
        d2 = [x for x in d if not x.endswith(" new")]
        if len(d2) < len(d):
            self.ex.hidden.update(x for x in d if x.endswith(" new"))
        self.ensure(label, not d2, "; ".join(d2[:3]))

    def globals_root(self):
        return [m for n, m in self.world.mods.items() if n in loader.MODS]

    def abstract(self):
        return self.modular


class VEq:
    """equality of two 3-vectors; as a goal it is |a-b|^2 = 0 (frame independent)"""

    def __init__(self, d, fs, s):
        self.d, self.fs, self.s = d, fs, s

    def formula(self):
        com = {}
        for e in self.d:
            for f, k in e.den.items():
                com[f] = max(com.get(f, 0), k)
        t = S.ZERO
        for e in self.d:
            n = e.num
            for f, k in com.items():
                for _ in range(k - e.den.get(f, 0)):
                    n = n * f
            t = t + n * n
        c = S.CTX
        t = c.reduce(t)
        return S.mk("eq", t, self.s)


class Explorer:
    def __init__(self, h, case, seed=1, deadline=None, tier="quick", modular=True):
        self.h, self.case, self.seed = h, case, seed
        self.deadline = deadline or time.time() + 600
        self.tier = tier
        self.persist = {}
        self.modular = modular
        self.reset()

    def reset(self):
        self.stack = [[]]
        self.restart = False
        self.results = []          # obligations
        self.covers = {}
        self.hidden = set()
        self.funcs = set()
        self.paths = 0
        self.dead = 0
        self.unsupported = []
        self.bound_hit = False
        self.failed = []
        self.candidates = []
        self.assumed = set()
        self.stop = False

    def push(self, prefix):
        self.stack.append(prefix)

    def feasible(self, ctx, f):
        if time.time() > self.deadline:
            raise Unsupported("time limit of the exploration")
        return not PV.quick_conflict(ctx, ctx.hyps, f)

    def linear(self, ctx, f):
        """f follows from the hypotheses by linear reasoning"""
        for g in ([f] if f.op != "ne" else [S.mk("lt", f.p), S.mk("lt", -f.p)]):
            if ctx.ints and g.op == "le":
                g = ctx.tight(g.neg()).neg()
            if PV.lra(PV.Problem(ctx, ctx.hyps, g), 300):
                return True
        return False

    def run(self):
        n = 0
        while True:
            n += 1
            while self.stack and not self.restart and not self.stop:
                self.path(self.stack.pop())
                if self.paths + self.dead > self.h.opts.get("max_paths", 4000):
                    self.unsupported.append("too many paths")
                    break
                if time.time() > self.deadline:
                    self.unsupported.append("time limit of the exploration")
                    break
            if self.restart and n < 40 and time.time() < self.deadline:
                self.reset()
                continue
            break
        return self

    def path(self, prefix):
        cx = SymCx(self, prefix)
        cx.modular = self.modular
        S.set_ctx(cx.c)
        for k, v in self.h.opts.get("ctx", {}).items():
            setattr(cx.c, k, v)
        try:
            cx.world = loader.World()
            if self.case is None:
                self.h.fn(cx)
            else:
                self.h.fn(cx, self.case)
            self.paths += 1
        except PathEnd:
            self.dead += 1
        except Unsupported as e:
            self.unsupported.append(str(e))
        except RecursionError:
            self.unsupported.append("recursion limit")
        except Exception as e:
            tb = traceback.format_exc()
            self.unsupported.append("verifier error: %s" % tb[-1200:])
        finally:
            S.set_ctx(None)

    # -- obligations
    def inputs_of(self, cx, k):
        d = {}
        for n in list(cx.inputs) + list(cx.choices):
            d[n] = cx.envs[k].get(n)
        return d

    def model_inputs(self, cx, model):
        vals, bools = model
        d = dict(cx.choices)
        for n, (kind, ids) in cx.inputs.items():
            v = [float(vals[i]) if i in vals else float(cx.c.vars[i].val[0]) for i in ids]
            d[n] = v[0] if kind == "real" else np.array(v)
        return d

    def obligation(self, cx, label, f, detail=""):
        c = cx.c
        r = {"label": label, "status": None, "how": None, "detail": detail, "witness": bool(c.mask.any())}
        self.results.append(r)
        if f.op == "T":
            r["status"], r["how"] = "proved", "normal form"
            return
        cands = []
        bad = np.zeros(NS, bool)
        if f.op == "F":
            bad = c.mask.copy()
        elif f.s is not None:
            bad = c.mask & (f.s == 0)
        for k in np.nonzero(bad)[0][:6]:
            cands.append(self.inputs_of(cx, k))
        conf = self.replay(cands)
        if conf:
            return self.fail(r, cx, "sample", conf)
        if time.time() > self.deadline:
            raise Unsupported("time limit of the exploration")
        t = time.time()
        st, how, model = PV.prove(c, c.hyps, f)
        r["t"] = time.time() - t
        if st == "proved":
            r["status"], r["how"] = "proved", how
            if f.op == "F":
                raise PathEnd()          # nothing satisfies the path condition
            return
        if model is not None:
            mi = self.model_inputs(cx, model)
            conf = self.replay([mi] + jitter(mi, self.seed))
            if conf:
                return self.fail(r, cx, "model", conf)
        conf = self.replay([jj for k in np.nonzero(c.mask)[0][:8] for jj in [self.inputs_of(cx, k)]])
        if conf:
            return self.fail(r, cx, "sample", conf)
        r["reason"] = how + (" (model does not replay in floating point)" if model is not None else "")
        r["status"] = "failed"
        r["goal"] = f.show(c.names)[:600]
        r["path"] = [h.show(c.names)[:200] for h in c.hyps[-12:]]
        r["notes"] = c.notes[-5:]
        if model is not None:
            r["model"] = jsonable(mi)
        self.failed.append(r)
        if len(self.failed) >= 6:
            self.stop = True
        raise PathEnd()

    def fail(self, r, cx, how, conf):
        r["status"] = "refuted"
        r["how"] = how
        r["replay"] = conf
        self.failed.append(r)
        self.stop = True
        raise PathEnd()

    def raised(self, cx, label, detail):
        """the code raised an exception on this path"""
        r = {"label": label, "status": None, "how": None, "detail": detail, "witness": bool(cx.c.mask.any())}
        self.results.append(r)
        cands = [self.inputs_of(cx, k) for k in np.nonzero(cx.c.mask)[0][:8]]
        if not cands:
            st, how, model = PV.prove(cx.c, cx.c.hyps, FALSE)
            if st == "proved":
                r["status"], r["how"] = "proved", how
                return
            if model is not None:
                cands = [self.model_inputs(cx, model)]
        conf = self.replay(cands)
        if conf:
            return self.fail(r, cx, "exception", conf)
        self.results.remove(r)
        self.unsupported.append("exception in symbolic execution only: %s %s" % (label, detail))
        raise PathEnd()

    def replay(self, cands):
        if not cands:
            return None
        saved = S.CTX
        S.set_ctx(None)
        try:
            for inp in cands:
                r = con_run(self.h, self.case, inputs=inp, seed=self.seed)
                if r and r[0] == "violation":
                    return {"label": r[1], "detail": r[2], "inputs": jsonable(r[3])}
        finally:
            S.set_ctx(saved)
        return None


def jitter(mi, seed):
    """neighbours of a model: thresholds found by the solver are exact, floats are not"""
    out = []
    rng = rng_for("jitter", seed)
    for s in (1e-7, 1e-5, 1e-3, 1e-2):
        for _ in range(4):
            d = {}
            for k, v in mi.items():
                if isinstance(v, np.ndarray):
                    d[k] = v + rng.normal(size=v.shape) * s
                elif isinstance(v, float):
                    d[k] = v * (1 + s * rng.normal())
                else:
                    d[k] = v
            out.append(d)
    return out


def jsonable(d):
    r = {}
    for k, v in d.items():
        if isinstance(v, np.ndarray):
            r[k] = [float(x) for x in v]
        elif isinstance(v, (np.floating, float)):
            r[k] = float(v)
        elif isinstance(v, (np.integer, int)):
            r[k] = int(v)
        else:
            r[k] = v if isinstance(v, (str, list, type(None))) else repr(v)
    return r


def _guard(seconds):
    """processor-time limit of one run on the real code; a run takes milliseconds when it ends at all"""
    def expired(sig, frame):
        raise Falsified("the code under test finishes", "no result after %d s of processor time" % seconds)
    try:
        signal.signal(signal.SIGPROF, expired)
        signal.setitimer(signal.ITIMER_PROF, seconds)
        return True
    except ValueError:
        return False


def con_run(h, case, inputs=None, seed=0, index=0):
    """one run on the real code: None (skipped), ('ok', n) or ('violation', label, detail, inputs)"""
    cx = ConCx(h, case, inputs, seed, index)
    guarded = _guard(h.opts.get("cpu", 30))
    try:
        if case is None:
            h.fn(cx)
        else:
            h.fn(cx, case)
    except Skip:
        if not cx.checked:
            return None
        return ("ok", cx.decided)
    except PathEnd:
        return None
    except Falsified as e:
        return ("violation", e.label, e.detail, {k: v for k, v in cx.env.items() if "." not in k})
    except Exception as e:
        # the contract cannot even be evaluated on what the code returned
        return ("violation", "the result has the documented form", traceback.format_exc()[-700:],
                {k: v for k, v in cx.env.items() if "." not in k})
    finally:
        if guarded:
            signal.setitimer(signal.ITIMER_PROF, 0)
    return ("ok", cx.decided)
