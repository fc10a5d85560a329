"""The trace loop Ray.run (C11, C12, C13), against the contracts of test_intersect and do_intersect of the elements:
test_intersect reports a miss or a point of the forward ray, do_intersect turns the ray, blocks it, or does nothing.

Proof: the while loop is cut at its head (F = path flown so far, K = interactions so far, M = max_distance,
N = max_interactions); the loop over the elements is an abstract sequence of any length (SelectSeq)."""
import contextlib
import io
import numpy as np
from vc.engine import harness, g_unit, g_vec
from .interact import *

PROPS = ["C11", "C12", "C13"]
FLOOR = 1e-12


SORTS = ["Mirror", "dmd", "Lens", "ideal", "Grating", "Detector", "Compound", "Block"]


def real_init(cx, self, sort):
    """what the constructor of a real element of that sort stores"""
    O, c = cx.optics, cx.np.array
    p, z, x = c([0.0, 1.0, 2.0]), c([0.0, 0.0, 1.0]), c([1.0, 0.0, 0.0])
    if sort == "Mirror":
        O.Mirror.__init__(self, p, normal=z, D=10.0)
    elif sort == "dmd":
        O.Mirror.__init__(self, p, normal=z, D=10.0, type="dmd", dmd_normal=x)
    elif sort == "Lens":
        O.Lens.__init__(self, p, shape="spherical", D=4.0)
    elif sort == "ideal":
        O.Lens.__init__(self, p, normal=z, D=4.0, f=10.0, type="ideal")
    elif sort == "Grating":
        O.Grating.__init__(self, p, z, x, w=5.0, h=5.0, G=600.0, order=1)
    elif sort == "Detector":
        O.Detector.__init__(self, p, z, x, w=5.0, h=5.0)
    elif sort == "Compound":
        t = cx.go.BinaryTree(cx.shapes.Sphere(p, R=1.0))
        O.Compound.__init__(self, t, surface_behavior="refract")
    else:
        O.Optic.__init__(self, p, z, "circular_flat")


def make_class(cx, kind, log, sort=None):
    """an element with scripted answers; its class is kind, or (sort) the class of a real element"""
    base = getattr(cx.optics, {"dmd": "Mirror", "ideal": "Lens"}.get(sort, sort) or kind)

    class Scripted(base):
        def __init__(self, name, look, act):
            self.name, self.look, self.act = name, look, act
            self.optic_type = kind
            if sort is not None:
                real_init(cx, self, sort)
            self.told = {}

        if cx.symbolic and kind == "Optic":
            def vc_isinstance(self, c):
                """an element of any class: the code may ask which"""
                O = cx.optics
                if c in (O.Annotation, O.Filter, O.Window) or not (isinstance(c, type) and issubclass(c, O.Optic)) or c is O.Optic:
                    return isinstance(self, c)
                if c not in self.told:
                    self.told[c] = not any(self.told.values()) and cx.flag("%s is a %s" % (self.name, c.__name__))
                return self.told[c]

        def test_intersect(self, ray):
            return self.look(ray)

        def do_intersect(self, ray, pt, normal, side):
            log.append((self, ray, pt, normal, side, ray.blocked)
                       + (() if cx.symbolic else (len(ray.point_history), np.array(ray.position))))
            return self.act(ray)

    return Scripted


# ---------------------------------------------------------------- proof
class RunSpec:
    """loop invariant of Ray.run and what one pass through the body must do"""

    def __init__(self, cx, ray, M, N, log):
        self.cx, self.ray, self.M, self.N, self.log = cx, ray, M, N, log
        self.F, self.K = 0, 0
        self.cut = False
        self.entered = False
        self.remaining = M

    # candidate invariants for a local variable, by its value before the loop
    def cands(self, ident, name, v0):
        from vc.loops import same
        key = ("cand", ident, name)
        P = self.cx.persist
        if key not in P:
            c = []
            if same(v0, self.M):
                c.append("M-F")
            if v0 is not None and not isinstance(v0, bool) and same(v0, 0):
                c += ["K", "F"]
            if self.N is not None and same(v0, self.N):
                c.append("N-K")
            c.append("const")
            P[key] = c
        return P[key]

    def value(self, t, v0, F, K):
        if t == "M-F":
            return self.M - F
        if t == "F":
            return F
        if t == "K":
            return K
        if t == "N-K":
            return self.N - K
        return v0

    def attrs(self):
        return [k for k in self.ray.__dict__ if k not in ("position", "direction", "blocked", "point_history")]

    def start(self, ident, names, g):
        from vc.loops import Poison, Tail
        cx, ray = self.cx, self.ray
        self.cut = True
        self.v0 = dict(g)
        self.a0 = {k: ray.__dict__[k] for k in self.attrs()}
        if cx.choice("state", ["start", "arbitrary"]) == "start":
            self.begin()
            return None
        self.entered = True
        self.F = cx.real("F", nonneg=True, gen=lambda rng, env: float(rng.uniform(0, 1)) * env["M"])
        self.K = cx.real("K", nonneg=True, gen=lambda rng, env: float(rng.integers(0, 3)))
        cx.assume(cx.le(self.F, self.M))
        if self.N is not None:
            cx.assume(cx.le(self.K, self.N))
        ray.position = cx.point("P")
        ray.direction = cx.unit("D")
        ray.blocked = cx.flag("blocked now")
        ray.point_history = Tail([ray.position])
        d = {}
        for n in names:
            c = self.cands(ident, n, g[n]) if n in g else []
            d[n] = self.value(c[0], g[n], self.F, self.K) if c else Poison(n)
        for k in self.attrs():
            c = self.cands(ident, "self." + k, self.a0[k])
            ray.__dict__[k] = self.value(c[0], self.a0[k], self.F, self.K) if c else Poison("self." + k)
        self.begin()
        return d

    def begin(self):
        cx, ray = self.cx, self.ray
        self.pos, self.dir = ray.position, ray.direction
        self.posv, self.dirv = cx.arr(ray.position), cx.arr(ray.direction)
        self.hist = ray.point_history
        self.hist0 = ray.point_history.copy()
        self.blocked0 = ray.blocked
        self.log[:] = []
        self.passes = 0
        self.selected = "none yet"
        self.point = None

    def one_pass(self):
        """obligations on what happened since begin(); returns (F, K) afterwards"""
        cx, ray = self.cx, self.ray
        new = cx.grown(ray.point_history, self.hist0)
        if cx.on("C13"):
            cx.ensure("trace: earlier points of the trajectory stay", new is not None)
            cx.ensure("trace: the last earlier point is not changed", cx.veq(self.hist0[-1], self.posv))
            cx.ensure("trace: one point per flight", len(new) == 1)
            cx.ensure("trace: the last point is the position", cx.And(cx.isvec(new[0]), cx.veq(new[0], ray.position)))
        if new is None or len(new) != 1:
            from vc.engine import Unsupported
            raise Unsupported("a pass without a flight, or with several")
        s = cx.dot(new[0] - self.posv, self.dirv)
        cx.ensure("trace: moves along its direction",
                  cx.And(cx.le(0, s), cx.veq(new[0], self.posv + s * self.dirv)))
        F, K = self.F + s, self.K + len(self.log)
        o = self.selected
        if cx.on("C12"):
            if o is None:
                cx.ensure("trace: no element within reach, no interaction", not self.log)
                cx.ensure("trace: flies the remaining distance", cx.eq(F, self.M))
            else:
                cx.ensure("trace: moves to the nearest surface point", cx.veq(ray.position, o.point))
                if ray.type == "normal":
                    cx.ensure("trace: interacts once, with the nearest element",
                              len(self.log) == 1 and self.log[0][0] is o and self.log[0][1] is ray)
                    e = self.log[0]
                    cx.ensure("trace: the element receives its own point", cx.And(cx.isvec(e[2]), cx.veq(e[2], o.point)))
                    cx.ensure("trace: the element receives its own normal", cx.And(cx.isvec(e[3]), cx.veq(e[3], o.n)))
                    cx.ensure("trace: the element receives its own side", e[4] is o.side)
        if cx.on("C13") and o is not None:
            cx.ensure("trace: the new point is the surface point", cx.veq(new[0], o.point))
        if cx.on("C11"):
            cx.ensure("trace: the path does not exceed the maximum distance", cx.le(F, self.M))
            if o is not None:
                cx.ensure("trace: progress at every interaction", cx.ge(s, FLOOR))
            else:
                cx.ensure("trace: without an element ahead the whole distance is flown", cx.eq(F, self.M))
            for e in self.log:
                cx.ensure("trace: no interaction after being blocked", not e[5])
            if self.N is not None:
                # K and N are whole numbers
                cx.assume(cx.Or(cx.le(self.N, self.K), cx.le(self.K + 1, self.N)))
                cx.ensure("trace: not more interactions than allowed", cx.le(K, self.N))
        return F, K

    def step(self, ident, names, g, n):
        from vc.loops import same, Poison
        from vc.sym import PathEnd
        cx, ray = self.cx, self.ray
        F, K = self.one_pass()
        good = True
        for name in list(names) + ["self." + k for k in self.attrs()]:
            attr = name.startswith("self.")
            v0s = self.a0 if attr else self.v0
            k = name[5:] if attr else name
            if k not in v0s:
                continue
            v = ray.__dict__[k] if attr else g.get(name)
            c = self.cands(ident, name, v0s[k])
            if not c:
                continue
            if not self.equal(v, self.value(c[0], v0s[k], F, K)):
                good = False
                self.bad = (ident, name)
                break
        if good:
            raise PathEnd()
        if ray.blocked is True or self.done(F):
            # the trace is over: go on, the loop has to end here
            self.F, self.K = F, K
            self.begin()
            self.over = True
            return
        c = cx.persist[("cand",) + self.bad]
        c.pop(0)
        cx.restart = True
        raise PathEnd()

    over = False

    def done(self, F):
        d = self.M - F
        return self.equal(d, 0)

    def equal(self, v, w):
        from vc.loops import same
        if same(v, w):
            return True
        try:
            f = self.cx.eq(v, w)
        except Exception:
            return False
        if f is False or f is True:
            return f
        from vc import prove as PV
        return PV.prove(self.cx.c, self.cx.c.hyps, self.cx._f(f))[0] == "proved"

    def moves(self, k):
        new = self.cx.grown(self.ray.point_history, self.hist0)
        return new is not None and len(new) == k

    def finish(self):
        """after the loop"""
        cx, ray = self.cx, self.ray
        if not self.cut:
            from vc.engine import Unsupported
            raise Unsupported("the trace does not run a while loop")
        new = cx.grown(ray.point_history, self.hist0)
        if new != [] or self.log:
            F, K = self.one_pass()
        else:
            F, K = self.F, self.K
            cx.ensure("trace: the ray stays where the last flight ended", cx.veq(ray.position, self.posv))
        if cx.on("C11"):
            end = cx.Or(cx.eq(F, self.M), cx.true if ray.blocked is True else cx.false,
                        cx.ge(K, self.N) if self.N is not None else cx.false)
            cx.ensure("trace: ends at the maximum distance, blocked, or after the allowed number of interactions", end)


def symbolic_run(cx):
    from vc.loops import CutWhile, SelectSeq
    from vc.engine import Unsupported
    log = []
    p, d = cx.point("p"), cx.unit("d")
    rt = cx.choice("type", RAYTYPES)
    ray = ray_at(cx, p, d, type=rt, plain=True)
    M = cx.real("M", nonneg=True)
    limited = cx.flag("limited")
    N = cx.real("N", nonneg=True, gen=lambda rng, env: float(rng.integers(0, 4))) if limited else None
    ray.blocked = cx.flag("blocked")
    was = ray.blocked
    classes = {k: make_class(cx, k, log) for k in ("Optic", "Annotation", "Filter", "Window")}
    spec = RunSpec(cx, ray, M, N, log)
    uses = [0]

    def make(kind, tag):
        P, D, R = spec.posv, spec.dirv, M - spec.F
        if kind == "any":
            kind = cx.choice("kind " + tag, ["yes", "no"])
        cls, why = "Optic", "hit"
        if kind == "no":
            cls, why = cx.choice("why " + tag, [("Optic", "miss"), ("Optic", "near"), ("Optic", "far"), ("Annotation", "hit"),
                                                ("Filter", "hit"), ("Window", "hit")])
        n = cx.vec("n " + tag)
        side = cx.choice("side " + tag, [True, False])
        t = cx.real("t " + tag, pos=True, gen=lambda rng, env: float(rng.uniform(0.01, 4)))
        if kind == "yes":
            cx.assume(cx.And(cx.lt(FLOOR, t), cx.le(t, R)))
        elif why == "near":
            cx.assume(cx.le(t, FLOOR))
        elif why == "far":
            cx.assume(cx.lt(R, t))
        x = P + t * D

        def look(r):
            if r is not ray:
                raise Unsupported("test_intersect with something else than the ray")
            if why == "miss":
                return False, None, None, side
            return True, x.copy(), n.copy(), side

        def act(r):
            e = cx.choice("effect", ["turn", "block", "nothing"])
            if e == "turn":
                r.direction = cx.unit("newdir")
            elif e == "block":
                r.blocked = True
        o = classes[cls](tag, look, act)
        o.point, o.n, o.side, o.t = x, n, side, t
        return o

    def nearer(a, b, weak=False):
        if weak and b.t is None:
            return
        cx.assume(cx.lt(a.t, b.t))

    def final(o):
        spec.selected = o

    class Once(SelectSeq):
        def vc_for(self, ident, names):
            uses[0] += 1
            if uses[0] > 1 + spec.over:
                raise Unsupported("the elements are looked through more than once per step")
            return SelectSeq.vc_for(self, ident, names)
    seq = Once(cx, "nearest", make, nearer, roots=lambda: [ray], on_final=final)
    first = []

    def policy(ident, names):
        if not ident.startswith("optics3d.") or first:
            return None
        first.append(ident)
        return CutWhile(spec, ident, names)
    cx.c.while_policy = policy
    kw = {} if N is None else {"max_interactions": N}
    spec.begin()
    cx.call(ray.run, M, optic_list=seq, **kw)
    cx.c.while_policy = None
    if was and not spec.entered and cx.on("C11"):
        cx.ensure("trace: a blocked ray does not move", cx.And(spec.moves(0), cx.veq(ray.position, p)))
    spec.finish()


# ---------------------------------------------------------------- concrete
def concrete_run(cx):
    rng = cx.rng if cx.given is None or "seed" not in cx.given else None
    seed = cx.int_("seed", 0, 10 ** 6)
    rng = np.random.default_rng(seed)
    log = []
    n = int(rng.choice([0, 1, 2, 3, 4, 6, 9]))
    steps = 14
    M = float(rng.choice([0, 0.5, 3, 10, 40])) * (1 if rng.integers(3) else float(rng.uniform(.5, 1.5)))
    N = [None, 0, 1, 2, 3, 7][rng.integers(6)]
    long = cx.int_("long", 0, 0, big=3000)
    if long and rng.integers(3):            # a long trace
        steps, n, M, N = long + 20, min(n, 3), 3.0 * long, [None, long][rng.integers(2)]
    elif long:                              # many elements
        n, steps = long, min(steps, 1 + 20000 // long)
    rt = RAYTYPES[int(rng.integers(5) == 0)]
    p = np.array(g_vec(rng, {}), float)
    with contextlib.redirect_stdout(io.StringIO()):
        ray = cx.call(cx.optics.Ray, p.copy(), np.array(g_unit(rng, {})) * rng.choice([1.0, 2.0]), type=rt,
                      print_trajectory=bool(rng.integers(6) == 0))
    d = ray.direction.copy()
    if rng.integers(12) == 0:
        ray.blocked = True
    table = []
    state = {"step": 0}
    els = []
    for i in range(n):
        kind = ["Optic", "Optic", "Optic", "Annotation", "Filter", "Window"][rng.integers(6)]
        sort = SORTS[rng.integers(len(SORTS))] if kind == "Optic" and rng.integers(2) else None
        rows = []
        for k in range(steps):
            u = rng.integers(10)
            if u < 3:
                t = None
            elif u < 4:
                t = float(rng.choice([1e-13, 0.0, 5e-13]))
            elif u < 5:
                t = float(rng.uniform(8, 60)) if rng.integers(2) else 10.0 ** float(rng.uniform(-10, -2))
            else:
                t = float(rng.uniform(.05, 6))
            rows.append(t)
        rows[-1] = None             # nothing is met after that many interactions
        norms = rng.normal(size=(steps, 3))
        norms /= np.linalg.norm(norms, axis=1)[:, None]
        sides = [bool(x) for x in rng.integers(0, 2, steps)]
        acts = [["turn", "turn", "turn", "nothing", "turn", "block"][j] for j in rng.integers(0, 6, steps)]
        turns = rng.normal(size=(steps, 3))
        turns /= np.linalg.norm(turns, axis=1)[:, None]
        table.append((kind, rows, norms, sides, acts, turns, sort))
    for i, (kind, rows, norms, sides, acts, turns, sort) in enumerate(table):
        C = make_class(cx, kind, log, sort)

        def look(r, i=i):
            k = min(state["step"], steps - 1)
            t = table[i][1][k]
            if t is None:
                return False, None, None, table[i][3][k]
            return True, r.position + t * r.direction, table[i][2][k].copy(), table[i][3][k]

        def act(r, i=i):
            k = min(state["step"], steps - 1)
            state["step"] += 1
            if table[i][4][k] == "turn":
                r.direction = table[i][5][k].copy()
            elif table[i][4][k] == "block":
                r.blocked = True
        els.append(C("o%d" % i, look, act))
    kw = {} if N is None else {"max_interactions": N}
    lst = els if rng.integers(4) else tuple(els)
    was = ray.blocked
    budget_guard(cx, ray, 400 + 2 * steps)
    with contextlib.redirect_stdout(io.StringIO()):
        if n == 0 and rng.integers(2):
            cx.call(ray.run, M, **kw)
        else:
            cx.call(ray.run, M, lst, **kw)
    if state["step"] >= steps:
        cx.assume(False)
    hist = [np.array(x, float) for x in ray.point_history]
    total = sum(np.linalg.norm(b - a) for a, b in zip(hist, hist[1:]))
    if cx.on("C11"):
        cx.ensure("trace: the path does not exceed the maximum distance", cx.le_ok(total, M))
        cx.ensure("trace: not more interactions than allowed", N is None or len(log) <= N)
        cx.ensure("trace: no interaction after being blocked", not any(e[5] for e in log))
        if N == 0 and not was:
            cx.ensure("trace: not more interactions than allowed", not ray.blocked)
        cx.ensure("trace: ends at the maximum distance, blocked, or after the allowed number of interactions",
                  cx.eq(total, M) or ray.blocked or (N is not None and len(log) >= N))
        if was:
            cx.ensure("trace: a blocked ray does not move", len(hist) == 1 and cx.veq(ray.position, p))
    if cx.on("C12"):
        # follow the trace, step by step
        pos, dr, F = p.copy(), d.copy(), 0.0
        for k in range(len(log) + 1):
            best = None
            for i, row in enumerate(table):
                t = row[1][k]
                if row[0] != "Optic" or t is None or t <= FLOOR:
                    continue
                if abs(t - (M - F)) < 1e-9:
                    cx.assume(False)
                if t < M - F and (best is None or t < best[0]):
                    best = (t, i)
            if k == len(log):
                break
            cx.ensure("trace: no element within reach, no interaction", best is not None)
            e, (t, i) = log[k], best
            pos, F = pos + t * dr, F + t
            cx.ensure("trace: interacts with the nearest element", e[0].name == "o%d" % i and e[1] is ray)
            cx.ensure("trace: moves to the nearest surface point", cx.veq(e[7], pos))
            cx.ensure("trace: the element receives its own point", cx.isvec(e[2]) and cx.veq(e[2], pos))
            cx.ensure("trace: the element receives its own normal", cx.isvec(e[3]) and cx.veq(e[3], table[i][2][k]))
            cx.ensure("trace: the element receives its own side", e[4] is table[i][3][k])
            if table[i][4][k] == "turn":
                dr = table[i][5][k]
        stopped = was or ray.blocked or (N is not None and len(log) >= N)
        if rt == "faerie_fire" and best is not None and N != 0 and not was:
            cx.ensure("trace: moves to the nearest surface point", cx.veq(ray.position, pos + best[0] * dr))
        elif not stopped and F < M:
            cx.ensure("trace: interacts with the nearest element", best is None)
            cx.ensure("trace: flies the remaining distance", cx.veq(ray.position, pos + (M - F) * dr))
    if cx.on("C13"):
        cx.ensure("trace: starts at the initial position", cx.veq(hist[0], p))
        at = [d] + [table[int(e[0].name[1:])][5][k] if table[int(e[0].name[1:])][4][k] == "turn" else None
                      for k, e in enumerate(log)]
        for k in range(1, len(at)):
            if at[k] is None:
                at[k] = at[k - 1]
        for k, e in enumerate(log):
            cx.ensure("trace: one point per flight", e[6] == k + 2)
            cx.ensure("trace: the last point is the position", cx.veq(hist[k + 1], e[7]))
            i = int(e[0].name[1:])
            if table[i][1][k] is not None:
                cx.ensure("trace: the new point is the surface point",
                          cx.veq(hist[k + 1], hist[k] + table[i][1][k] * at[k]))
        more = len(hist) - 1 - len(log)
        cx.ensure("trace: one point per flight", more in (0, 1))
        for k, (a, b) in enumerate(zip(hist, hist[1:])):
            s = float(np.dot(b - a, at[k]))
            cx.ensure("trace: each point is the previous one moved along the direction",
                      s >= -1e-9 and cx.veq(b, a + s * at[k]))
        cx.ensure("trace: the last point is the position", cx.veq(hist[-1], ray.position))
        pl = cx.call(ray.get_plot_repr)
        cx.ensure("trace: the plot data are the trajectory", np.asarray(pl).shape == (len(hist), 3)
                  and cx.veq(np.asarray(pl, float), np.array(hist)))


def budget_guard(cx, ray, limit=400):
    """an endless trace must not hang the checker"""
    fly = ray.fly
    n = [0]

    def counted(*a, **k):
        n[0] += 1
        if n[0] > limit:
            from vc.engine import Falsified
            raise Falsified("trace: terminates", "more than %d flights" % limit)
        return fly(*a, **k)
    ray.fly = counted


@harness(PROPS, cost=9, con=600)
def run(cx):
    if cx.symbolic:
        symbolic_run(cx)
    else:
        concrete_run(cx)
