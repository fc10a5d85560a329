"""Discharging obligations: normal form, linear relaxation, symmetry reduction, nonlinear SMT."""
import sys
import time
from fractions import Fraction
if "/opt/veriftools/pyvenv/lib/python3.12/site-packages" not in sys.path:
    sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
import z3
from .poly import Poly, ZERO, ONE
from .sym import F, TRUE, FALSE, mk, f_and, f_or, Unsupported

STATS = {"z3_calls": 0, "z3_s": 0.0, "cvc5_calls": 0, "cvc5_s": 0.0, "backends": {}}
LIMITS = {"lra": 1500, "quick": 1500, "full": 20000, "cvc5": 20000}


def num(c):
    c = Fraction(c)
    return z3.RatVal(c.numerator, c.denominator)


class Problem:
    """hyps |- goal, as formulas over polynomials; self-contained (rules, signs, axioms included)"""

    def __init__(self, ctx, hyps, goal):
        self.ctx = ctx
        self.goal = goal
        fs = list(hyps)
        seen = set()
        work = set()
        for f in fs + [goal]:
            for p in f.polys():
                work |= p.vars()
        self.axioms = []
        self.rules = {}
        while work:
            v = work.pop()
            if v in seen:
                continue
            seen.add(v)
            if v in ctx.rules:
                self.rules[v] = ctx.rules[v]
                work |= ctx.rules[v].vars() - seen
            for a in ctx.vars[v].axioms:
                self.axioms.append(a)
                for p in a.polys():
                    work |= p.vars() - seen
            for g in ctx.groups:
                if v in g[2]:
                    work |= set(g[2]) - seen
        for x in ctx.global_axioms if hasattr(ctx, "global_axioms") else ():
            if all(p.vars() <= seen for p in x.polys()):
                self.axioms.append(x)
        self.vars = seen
        self.hyps = fs
        self.nonneg = {v for v in seen if v in ctx.nonneg}
        self.pos = {v for v in seen if v in ctx.pos}
        self.back = None             # canonical frame: variable -> Poly

    def all_hyps(self):
        return self.hyps + self.axioms


# ---------------------------------------------------------------- z3 translation
class Tr:
    def __init__(self, names):
        self.names = names
        self.v = {}
        self.m = {}
        self.b = {}

    def var(self, i):
        if i not in self.v:
            self.v[i] = z3.Real("v%d_%s" % (i, self.names(i)))
        return self.v[i]

    def mono(self, m):
        r = None
        for v, e in m:
            x = self.var(v)
            for _ in range(e):
                r = x if r is None else r * x
        return r

    def poly(self, p):
        ts = []
        for m, c in p.t.items():
            if not m:
                ts.append(num(c))
            else:
                x = self.mono(m)
                ts.append(x if c == 1 else num(c) * x)
        if not ts:
            return z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)

    def form(self, f):
        o = f.op
        if o == "T":
            return z3.BoolVal(True)
        if o == "F":
            return z3.BoolVal(False)
        if o == "and":
            return z3.And([self.form(k) for k in f.k])
        if o == "or":
            return z3.Or([self.form(k) for k in f.k])
        if o in ("bv", "nbv"):
            if f.p not in self.b:
                self.b[f.p] = z3.Bool("b%s" % (f.p,))
            return self.b[f.p] if o == "bv" else z3.Not(self.b[f.p])
        p = self.poly(f.p)
        return {"lt": p < 0, "le": p <= 0, "eq": p == 0, "ne": p != 0}[o]


class LinTr(Tr):
    """every monomial is an independent real"""

    def mono(self, m):
        if len(m) == 1 and m[0][1] == 1:
            return self.var(m[0][0])
        if m not in self.m:
            self.m[m] = z3.Real("m%d" % len(self.m))
        return self.m[m]


def _check(s, ms):
    s.set("timeout", int(ms))
    t = time.time()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS["z3_calls"] += 1
    STATS["z3_s"] += time.time() - t
    return r


class Cache:
    """translations of one context, kept between problems (z3 terms are costly to build from Python)"""

    def __init__(self, tr):
        self.tr = tr
        self.f = {}                   # id(formula) -> (formula, z3 term, variables, products)

    def get(self, f):
        r = self.f.get(id(f))
        if r is None:
            vs, ms = set(), set()
            for p in f.polys():
                for m in p.t:
                    if len(m) == 1 and m[0][1] == 1:
                        vs.add(m[0][0])
                    elif m:
                        ms.add(m)
            r = self.f[id(f)] = (f, self.tr.form(f), vs, ms)
        return r


def lra(P, ms):
    lc = P.ctx.__dict__.get("lincache")
    if lc is None:
        lc = P.ctx.lincache = Cache(LinTr(P.ctx.names))
    tr = lc.tr
    s = z3.SolverFor("QF_LRA")
    vs, mons, todo = {}, {}, []
    for f in P.all_hyps() + [P.goal.neg()]:
        _, x, v, m = lc.get(f)
        todo.append(x)
        vs.update(dict.fromkeys(v))
        mons.update(dict.fromkeys(m))
    for v, r in P.rules.items():
        # only useful when the square itself occurs
        m = ((v, 2),)
        mons[m] = None
        todo.append(tr.mono(m) == tr.poly(r))
        for m in r.t:
            if len(m) == 1 and m[0][1] == 1:
                vs[m[0][0]] = None
            elif m:
                mons[m] = None
    for m in mons:
        if all(e % 2 == 0 or v in P.nonneg for v, e in m):
            todo.append(tr.mono(m) >= 0)
    for v in vs:
        if v in P.pos:
            todo.append(tr.var(v) > 0)
        elif v in P.nonneg:
            todo.append(tr.var(v) >= 0)
    s.add(todo)
    return _check(s, ms) == z3.unsat


def nra(P, ms, tactic=None, use=None):
    """(status, model) ; status in proved / sat / unknown"""
    c = P.ctx.__dict__.get("nracache")
    if c is None:
        c = P.ctx.nracache = Cache(Tr(P.ctx.names))
    tr = c.tr
    if tactic == "default":
        s = z3.Solver()
    else:
        s = z3.SolverFor("QF_NRA")
    vs, bs = {}, {}
    for f in (P.all_hyps() if use is None else use) + [P.goal.neg()]:
        _, x, v, ms_ = c.get(f)
        s.add(x)
        for m in ms_:
            vs.update((i, None) for i, _ in m)
        vs.update(dict.fromkeys(v))
        bs.update(dict.fromkeys(bools(f)))
    for v, r in P.rules.items():
        s.add(tr.var(v) * tr.var(v) == tr.poly(r))
        vs[v] = None
        vs.update(dict.fromkeys(r.vars()))
    vs = sorted(vs)
    for v in vs:
        if v in P.pos:
            s.add(tr.var(v) > 0)
        elif v in P.nonneg:
            s.add(tr.var(v) >= 0)
    r = _check(s, ms)
    if r == z3.unsat:
        return "proved", None
    if r == z3.sat:
        m = s.model()
        out = {}
        for v in vs:
            out[v] = z3val(m.eval(tr.var(v), model_completion=True))
        bo = {}
        for b in bs:
            bo[b] = z3.is_true(m.eval(tr.b[b], model_completion=True))
        return "sat", (out, bo)
    return "unknown", None


def bools(f):
    if f.op in ("bv", "nbv"):
        return [f.p]
    return [b for k in f.k for b in bools(k)] if f.op in ("and", "or") else []


def z3val(x):
    if z3.is_rational_value(x):
        return Fraction(x.numerator_as_long(), x.denominator_as_long())
    if z3.is_algebraic_value(x):
        a = x.approx(30)
        return Fraction(a.numerator_as_long(), a.denominator_as_long())
    return Fraction(0)


def smtlib(P):
    tr = Tr(P.ctx.names)
    s = z3.Solver()
    for f in P.all_hyps() + [P.goal.neg()]:
        s.add(tr.form(f))
    for v, r in P.rules.items():
        s.add(tr.var(v) * tr.var(v) == tr.poly(r))
    for v, x in list(tr.v.items()):
        if v in P.pos:
            s.add(x > 0)
        elif v in P.nonneg:
            s.add(x >= 0)
    return "(set-logic QF_NRA)\n" + s.to_smt2()


def cvc5_check(P, ms):
    """the stand-alone solver, so that the time limit can be enforced from outside"""
    import subprocess
    t = time.time()
    try:
        r = subprocess.run(["cvc5", "--lang=smt2", "--tlimit=%d" % int(ms), "-"], input=smtlib(P),
                           capture_output=True, text=True, timeout=ms / 1000 + 2)
        out = r.stdout.split()[:1] == ["unsat"]
    except (OSError, subprocess.SubprocessError):
        out = False
    STATS["cvc5_calls"] += 1
    STATS["cvc5_s"] += time.time() - t
    return out


# ---------------------------------------------------------------- symmetry reduction
# d/dt of a quaternion (vector part a b c, scalar part d) under the two rotation generators
QG = {(0, 1): ((1, 1), (0, -1), (3, -1), (2, 1)), (1, 2): ((3, -1), (2, 1), (1, -1), (0, 1))}


def canonical(P):
    """the same problem in a special coordinate frame, or None.

    Sound because: the rigid motions act on the input points and vectors, every formula kept is
    checked to be invariant (its Lie derivatives vanish modulo the defining relations, and the group
    is connected), so a counterexample exists iff one exists in the frame chosen below.
    Hypotheses that are not invariant are dropped, which only weakens what is known.
    """
    ctx = P.ctx
    groups = [g for g in ctx.groups if set(g[2]) & P.vars]
    if not groups:
        return None
    gv = {}
    for gi, g in enumerate(groups):
        for k, v in enumerate(g[2]):
            gv[v] = (gi, k)
    status = {}

    def lie(p, gen):
        out = ZERO
        for v in p.vars():
            if v not in gv:
                continue
            gi, k = gv[v]
            kind, _, ids = groups[gi][:3]
            if kind == "quat":
                if gen[0] == "r":
                    w, sg = QG[gen[1]][k]
                    out = out + (p.diff(v) * Poly.var(ids[w])).scale(Fraction(sg, 2))
                continue
            if gen[0] == "t":
                if kind == "point" and k == gen[1]:
                    out = out + p.diff(v)
            else:
                i, j = gen[1]
                if k == i:
                    out = out + p.diff(v) * Poly.var(ids[j])
                elif k == j:
                    out = out - p.diff(v) * Poly.var(ids[i])
        return out

    ROT = [("r", (0, 1)), ("r", (1, 2))]       # generate all rotations
    TRA = [("t", 0), ("t", 1), ("t", 2)]

    def var_ok(v, gens, tag):
        if v in gv:
            return True
        k = (v, tag)
        if k in status:
            return status[k]
        status[k] = True                     # recursion guard: definitions are well founded
        ok = True
        if v in ctx.rules:
            ok = ok and poly_ok(ctx.rules[v], gens, tag)
        for a in ctx.vars[v].axioms:
            for p in a.polys():
                ok = ok and poly_ok(p, gens, tag)
        if v in ctx.angle:
            for s in ctx.angle[v]:
                ok = ok and sym_ok(s, gens, tag)
        status[k] = ok
        return ok

    def poly_ok(p, gens, tag):
        k = (p, tag)
        if k in status:
            return status[k]
        ok = all(var_ok(v, gens, tag) for v in p.vars() if v not in gv)
        if ok and any(v in gv for v in p.vars()):
            for g in gens:
                if not ctx.reduce(lie(p, g)).is_zero():
                    ok = False
                    break
        status[k] = ok
        return ok

    def sym_ok(s, gens, tag):
        # a quotient is invariant if L(n) d - n L(d) = 0
        if not s.den:
            return poly_ok(s.num, gens, tag)
        if not all(var_ok(v, gens, tag) for v in s.num.vars() if v not in gv):
            return False
        d = ONE
        for f, e in s.den.items():
            if not all(var_ok(v, gens, tag) for v in f.vars() if v not in gv):
                return False
            d = d * f.pow(e)
        for g in gens:
            if not ctx.reduce(lie(s.num, g) * d - s.num * lie(d, g)).is_zero():
                return False
        return True

    def form_ok(f, gens, tag):
        return all(poly_ok(p, gens, tag) for p in f.polys())

    if not form_ok(P.goal, ROT, "r"):
        return None
    tra = form_ok(P.goal, TRA, "t")
    hyps = [h for h in P.hyps if form_ok(h, ROT, "r") and (not tra or form_ok(h, TRA, "t"))]
    axioms = [h for h in P.axioms if form_ok(h, ROT, "r") and (not tra or form_ok(h, TRA, "t"))]
    rules = {v: r for v, r in P.rules.items()
             if v in gv or (poly_ok(r, ROT, "r") and (not tra or poly_ok(r, TRA, "t")))}
    for v in P.rules:
        if v not in rules and any(v in p.vars() for h in hyps + axioms + [P.goal] for p in h.polys()):
            return None

    mp = {}
    newrules = {}
    nonneg = set(P.nonneg)
    pos = set(P.pos)
    unit_of = {}
    for g in groups:
        unit_of[g[1]] = len(g) > 3 and g[3] == "unit"
    points = [g for g in groups if g[0] == "point"]
    vecs = [g for g in groups if g[0] == "vec"]
    rest = list(points)
    if tra and points:
        # the point that occurs most goes to the origin
        o = points[0]
        for v in o[2]:
            mp[v] = ZERO
        rest = [g for g in points if g is not o]
    triples = {}
    for g in vecs:
        if len(g) > 4 and g[4]:
            triples.setdefault(g[4][0], {})[g[4][1]] = g
    done = False
    for g in groups:
        if g[0] == "quat":
            a, b, c, d = g[2]
            mp[a] = mp[b] = mp[c] = ZERO
            mp[d] = ONE
            done = True
            break
    for t, mem in () if done else triples.items():
        if len(mem) == 3:
            for k in range(3):
                for j, v in enumerate(mem[k][2]):
                    mp[v] = ONE if j == k else ZERO
            done = True
            break
    if not done:
        order = [g for g in vecs if unit_of[g[1]]] + [g for g in vecs if not unit_of[g[1]]] + rest
        if order:
            g = order[0]
            a, b, c = g[2]
            mp[b] = mp[c] = ZERO
            if unit_of[g[1]]:
                mp[a] = ONE
            else:
                nonneg.add(a)
        if len(order) > 1:
            g = order[1]
            a, b, c = g[2]
            mp[c] = ZERO
            nonneg.add(b)
            if unit_of[g[1]]:
                newrules[b] = ONE - Poly.var(a).pow(2)
                axioms = list(axioms) + [mk("le", Poly.var(a).pow(2) - ONE)]
    Q = Problem.__new__(Problem)
    Q.ctx = ctx
    Q.back = dict(mp)
    Q.nonneg, Q.pos = nonneg, pos
    for v, r in rules.items():
        if v in mp or v in newrules:
            continue
        if v in gv:
            if any(w in mp for w in groups[gv[v][0]][2]):
                continue
            newrules[v] = r
        else:
            newrules[v] = r
    Q.hyps, Q.axioms, Q.goal, Q.rules = hyps, axioms, P.goal, newrules
    Q.vars = P.vars
    return simplify(Q, mp)


def make_reducer(rules):
    cache = {}

    def reduce(p):
        while True:
            hit = None
            for m in p.t:
                for v, e in m:
                    if e >= 2 and v in rules:
                        hit = v
                        break
                if hit is not None:
                    break
            if hit is None:
                return p
            v = hit
            r = rules[v]
            out = {}
            ext = ZERO
            for m, c in p.t.items():
                d = dict(m)
                e = d.get(v, 0)
                if e >= 2:
                    n, k = divmod(e, 2)
                    if k:
                        d[v] = 1
                    else:
                        d.pop(v)
                    if (v, n) not in cache:
                        cache[(v, n)] = r.pow(n)
                    ext = ext + Poly({tuple(sorted(d.items())): c}) * cache[(v, n)]
                else:
                    out[m] = c
            p = Poly(out) + ext
    return reduce


def simplify(P, mp):
    """substitute, reduce, use linear equalities and perfect squares; to a fixed point"""
    back = P.back if P.back is not None else {}
    for _ in range(12):
        rules = {}
        for v, r in P.rules.items():
            if v in mp:
                continue
            rules[v] = r.subst(mp)
        red = make_reducer(rules)
        extra = []
        for v, r in P.rules.items():
            if v in mp:
                e = red(mp[v].pow(2) - r.subst(mp))
                if not e.is_zero():
                    extra.append(mk("eq", e))
        fn = lambda p: red(p.subst(mp))
        P.hyps = [f for f in (h.map(fn) for h in P.hyps + extra) if f.op != "T"]
        flat = []
        for f in P.hyps:
            flat.extend(f.k if f.op == "and" else [f])
        P.hyps = flat
        P.axioms = [f for f in (h.map(fn) for h in P.axioms) if f.op != "T"]
        for h in list(P.axioms):
            if h.op == "and":
                P.axioms.remove(h)
                P.axioms.extend(h.k)
        P.goal = P.goal.map(fn)
        P.rules = {v: red(r) for v, r in rules.items()}
        for v in list(back):
            back[v] = fn(back[v])
        for v in mp:
            back.setdefault(v, fn(mp[v]))
            if v in P.pos:
                P.hyps.append(mk("lt", -fn(mp[v])))
            elif v in P.nonneg:
                P.hyps.append(mk("le", -fn(mp[v])))
        P.hyps = [h for h in P.hyps if h.op != "T"]
        if any(h.op == "F" for h in P.hyps + P.axioms):
            P.hyps = [FALSE]
            break
        mp = {}
        # linear equalities x = poly not containing x
        for h in P.hyps + P.axioms:
            if h.op != "eq":
                continue
            p = h.p
            for m, c in p.t.items():
                if len(m) == 1 and m[0][1] == 1:
                    v = m[0][0]
                    if sum(1 for m2 in p.t if any(w == v for w, _ in m2)) == 1 and len(p.t) <= 4 \
                            and v not in P.rules:
                        rest = Poly({k: x for k, x in p.t.items() if k != m})
                        mp = {v: rest.scale(Fraction(-1) / c)}
                        break
                    if len(p.t) <= 2 and all(not k or k == m for k in p.t):
                        rest = Poly({k: x for k, x in p.t.items() if k != m})
                        mp = {v: rest.scale(Fraction(-1) / c)}
                        break
            if mp:
                break
            if len(p.t) == 1:            # c * monomial = 0 with all but one variable positive
                (m, _), = p.t.items()
                cand = [v for v, e in m if v not in P.pos]
                if len(cand) == 1:
                    mp = {cand[0]: ZERO}
                    break
        if not mp:
            for v, r in P.rules.items():
                if v in P.nonneg or v in P.pos:
                    s = r.sqrt()
                    if s is None:
                        continue
                    if s.is_const():
                        mp = {v: s if s.const_value() >= 0 else -s}
                        break
                    if len(s.t) == 1:
                        (m, c), = s.t.items()
                        if all(w in P.nonneg or w in P.pos or e % 2 == 0 for w, e in m):
                            mp = {v: s if c > 0 else -s}
                            break
        if not mp:
            break
    P.back = back
    P.vars = set()
    for f in P.all_hyps() + [P.goal]:
        for p in f.polys():
            P.vars |= p.vars()
    for _ in range(10):
        n = len(P.vars)
        for v, r in P.rules.items():
            if v in P.vars:
                P.vars |= r.vars()
        if len(P.vars) == n:
            break
    P.rules = {v: r for v, r in P.rules.items() if v in P.vars}
    return P


def instantiate(P, model):
    """input assignment (var id -> Fraction) from a model of the problem"""
    vals, bools = model
    out = dict(vals)
    if P.back:
        for v, p in P.back.items():
            t = Fraction(0)
            for m, c in p.t.items():
                x = Fraction(c)
                for w, e in m:
                    x *= Fraction(vals.get(w, 0)) ** e
                t += x
            out[v] = t
    return out, bools


# ---------------------------------------------------------------- entry points
def _bk(n):
    STATS["backends"][n] = STATS["backends"].get(n, 0) + 1


def quick_conflict(ctx, hyps, f):
    """try to show that f contradicts hyps (cheap); True if shown"""
    st, _, _ = prove(ctx, hyps, f.neg(), effort="quick")
    return st == "proved"


def prove(ctx, hyps, goal, effort="full"):
    """(status, how, model) for hyps |- goal"""
    if goal.op == "T":
        return "proved", "normal form", None
    if ctx.ints and goal.op == "le":
        goal = ctx.tight(goal.neg()).neg()
    if goal.op == "and":
        how = set()
        for k in goal.k:
            st, h, m = prove(ctx, hyps, k, effort)
            if st != "proved":
                return st, h, m
            how.add(h)
        return "proved", "+".join(sorted(how)), None
    k = goal.key()
    if ctx.known.get(k) is True:
        return "proved", "hypothesis", None
    if goal.op == "or" and any(ctx.known.get(x.key()) is True for x in goal.k):
        return "proved", "hypothesis", None
    P = Problem(ctx, hyps, goal)
    size = sum(len(p.t) for f in P.all_hyps() + [goal] for p in f.polys())
    if lra(P, LIMITS["lra"]):
        _bk("z3 linear")
        return "proved", "z3 linear", None
    best = ("unknown", "solvers gave no answer", None)
    C = None
    try:
        C = canonical(P)
    except RecursionError:
        C = None
    if C is not None:
        if any(h.op == "F" for h in C.hyps) or C.goal.op == "T":
            _bk("canonical frame")
            return "proved", "canonical frame", None
        if lra(C, LIMITS["lra"]):
            _bk("canonical frame + z3 linear")
            return "proved", "canonical frame + z3 linear", None
    ms = LIMITS["quick"] if effort == "quick" else LIMITS["full"]
    if C is None:
        R = Problem(ctx, hyps, goal)
        R.back = {}
        R = simplify(R, {})
        if any(h.op == "F" for h in R.hyps) or R.goal.op == "T":
            _bk("simplification")
            return "proved", "simplification", None
    else:
        R = C
    tag = "canonical frame + " if C is not None else ""
    first = min(ms, 3000)
    # relevance: start from the hypotheses close to the goal
    subs = relevant(R)
    for use in subs:
        st, m = nra(R, min(ms, 1000), use=use)
        if st == "proved":
            _bk(tag + "z3 nlsat")
            return "proved", tag + "z3 nlsat", None
    st, m = nra(R, first)
    if st == "proved":
        _bk(tag + "z3 nlsat")
        return "proved", tag + "z3 nlsat", None
    if st == "sat":
        return "sat", "z3", instantiate(R, m)
    st, m = nra(R, first, "default")
    if st == "proved":
        _bk(tag + "z3 default")
        return "proved", tag + "z3 default", None
    if st == "sat":
        return "sat", "z3", instantiate(R, m)
    if effort == "quick":
        return best
    if sum(len(p.t) for f in R.all_hyps() + [R.goal] for p in f.polys()) < 3000 and cvc5_check(R, LIMITS["cvc5"]):
        _bk(tag + "cvc5")
        return "proved", tag + "cvc5", None
    st, m = nra(R, ms)
    if st == "proved":
        _bk(tag + "z3 nlsat")
        return "proved", tag + "z3 nlsat", None
    if st == "sat":
        return "sat", "z3", instantiate(R, m)
    if C is not None:
        st, m = nra(P, first)
        if st == "proved":
            _bk("z3 nlsat")
            return "proved", "z3 nlsat", None
        if st == "sat":
            return "sat", "z3", instantiate(P, m)
    return best


def relevant(P):
    """growing subsets of the hypotheses around the goal (strict subsets only)"""
    gv = set()
    for p in P.goal.polys():
        gv |= p.vars()
    hs = P.all_hyps()
    hv = []
    for h in hs:
        s = set()
        for p in h.polys():
            s |= p.vars()
        hv.append(s)
    closed = set(gv)
    for v in list(gv):
        if v in P.rules:
            closed |= P.rules[v].vars()
    a = [h for h, s in zip(hs, hv) if s and s <= closed]
    out = []
    if len(a) < len(hs) and len(hs) - len(a) >= 2:
        out.append(a)
    return out
