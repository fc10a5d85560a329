"""Loops.

Every for / while statement inside a function of /repo is rewritten so that the loop head reports the
local variables to the verifier and takes them back (behaviour over ordinary iterables and without a
registered loop contract is unchanged).  This is what lets a loop be cut at its head: the variables
assigned in the loop are replaced by an arbitrary state satisfying the loop contract.
"""
import ast
from . import sym as S
from .sym import Sym, Unsupported, PathEnd


class Assigned(ast.NodeVisitor):
    def __init__(self):
        self.names = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.names.add(n.id)

    def visit_FunctionDef(self, n):
        self.names.add(n.name)

    visit_AsyncFunctionDef = visit_ClassDef = visit_FunctionDef

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        for sub in ast.walk(n):
            if isinstance(sub, ast.NamedExpr):
                self.names.add(sub.target.id)
    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_ExceptHandler(self, n):
        if n.name:
            self.names.add(n.name)
        self.generic_visit(n)

    def visit_Import(self, n):
        for a in n.names:
            self.names.add((a.asname or a.name).split(".")[0])
    visit_ImportFrom = visit_Import


def has_outer_jump(stmts):
    """break / continue that would belong to an enclosing loop"""
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, (ast.Break, ast.Continue)):
                return True
    return False


class Instrument(ast.NodeTransformer):
    def __init__(self, module):
        self.module = module
        self.n = 0
        self.fn = []
        self.nl = []
        self.cls = []

    def visit_ClassDef(self, node):
        self.cls.append(node.name)
        self.generic_visit(node)
        self.cls.pop()
        return node

    def visit_FunctionDef(self, node):
        q = ".".join([self.module] + self.cls + self.fn + [node.name])
        self.fn.append(node.name)
        g = {x for n in ast.walk(node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        self.nl.append(g)
        self.generic_visit(node)
        self.fn.pop()
        self.nl.pop()
        k = 1 if ast.get_docstring(node, clean=False) is not None else 0
        st = ast.parse("__vc__.enter(%r)" % q).body[0]
        node.body.insert(k, ast.copy_location(st, node.body[0]))
        return node

    def _restore(self, names, d):
        out = []
        for v in sorted(names):
            out.append(ast.parse("if %r in %s: %s = %s[%r]" % (v, d, v, d, v)).body[0])
        return [ast.If(test=ast.parse("%s is not None" % d, mode="eval").body,
                       body=out or [ast.Pass()], orelse=[])]

    def visit_For(self, node):
        if not self.fn:
            return self.generic_visit(node)
        a = Assigned()
        a.visit(node.target)
        for s in node.body:
            a.visit(s)
        names = a.names - self.nl[-1]
        self.generic_visit(node)
        self.n += 1
        k = self.n
        ident = "%s.%s#%d" % (self.module, ".".join(self.fn), k)
        f, e, d = "__vcf%d" % k, "__vce%d" % k, "__vcd%d" % k
        pre = ast.parse("%s = __vc__.for_begin(%r, None, %r)" % (f, ident, sorted(names))).body[0]
        pre.value.args[1] = node.iter
        sync = ast.parse("%s = %s.sync(locals())" % (d, f)).body
        tgt = ast.Assign(targets=[node.target], value=ast.Name(id=e, ctx=ast.Load()))
        loop = ast.For(target=ast.Name(id=e, ctx=ast.Store()), iter=ast.Name(id=f, ctx=ast.Load()),
                       body=sync + self._restore(names, d) + [tgt] + node.body, orelse=node.orelse)
        fin = ast.parse("%s = %s.finish(locals())" % (d, f)).body
        res = [pre, loop] + fin + self._restore(names, d)
        for r in res:
            ast.copy_location(r, node)
        return res

    def visit_While(self, node):
        if not self.fn or has_outer_jump(node.orelse):
            return self.generic_visit(node)
        a = Assigned()
        a.visit(node.test)
        for s in node.body:
            a.visit(s)
        names = a.names - self.nl[-1]
        self.generic_visit(node)
        self.n += 1
        k = self.n
        ident = "%s.%s#%d" % (self.module, ".".join(self.fn), k)
        w, d = "__vcw%d" % k, "__vcd%d" % k
        pre = ast.parse("%s = __vc__.while_begin(%r, %r)" % (w, ident, sorted(names))).body
        head = ast.parse("%s = %s.head(locals())" % (d, w)).body
        stop = ast.If(test=ast.UnaryOp(op=ast.Not(), operand=node.test),
                      body=list(node.orelse) + [ast.Break()], orelse=[])
        loop = ast.While(test=ast.Constant(value=True), body=head + self._restore(names, d) + [stop] + node.body,
                         orelse=[])
        res = pre + [loop]
        for r in res:
            ast.copy_location(r, node)
        return res


    def visit_Call(self, node):
        """int(x) -> __vc__.int(x)"""
        self.generic_visit(node)
        if self.fn and isinstance(node.func, ast.Name) and node.func.id == "int" and len(node.args) == 1 \
                and not node.keywords and not isinstance(node.args[0], ast.Starred):
            node.func = ast.copy_location(ast.parse("__vc__.int", mode="eval").body, node.func)
            ast.fix_missing_locations(node)
        return node

    def visit_BinOp(self, node):
        """"..." % x -> __vc__.strmod("...", x)"""
        self.generic_visit(node)
        if self.fn and isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) \
                and isinstance(node.left.value, str):
            f = ast.parse("__vc__.strmod", mode="eval").body
            return ast.copy_location(ast.Call(func=f, args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_ListComp(self, node):
        self.generic_visit(node)
        if not self.fn:
            return node
        for n in ast.walk(node):
            if isinstance(n, (ast.NamedExpr, ast.Await)) or (isinstance(n, ast.Name) and n.id in ("super", "locals")):
                return node
        if any(g.is_async for g in node.generators):
            return node
        res = self._comp(node.elt, node.generators)
        return ast.copy_location(res, node)

    def _comp(self, elt, gens):
        """[elt for T in IT if C for ...] -> __vc__.comp(IT, lambda e: [y for T in (e,) if C for y in <rest>])"""
        self.n += 1
        e, y = "__vcx%d" % self.n, "__vcy%d" % self.n
        g, rest = gens[0], gens[1:]
        g2 = [ast.comprehension(target=g.target, is_async=0, ifs=g.ifs,
                                iter=ast.Tuple(elts=[ast.Name(id=e, ctx=ast.Load())], ctx=ast.Load()))]
        if rest:
            g2.append(ast.comprehension(target=ast.Name(id=y, ctx=ast.Store()), iter=self._comp(elt, rest), ifs=[], is_async=0))
            elt = ast.Name(id=y, ctx=ast.Load())
        lam = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=e)], kwonlyargs=[], kw_defaults=[], defaults=[]),
                         body=ast.ListComp(elt=elt, generators=g2))
        return ast.Call(func=ast.parse("__vc__.comp", mode="eval").body, args=[g.iter, lam], keywords=[])


class Poison:
    """value of a variable the loop contract says nothing about; using it ends the proof attempt"""

    def __init__(self, name):
        object.__setattr__(self, "vcname", name)

    def _bad(self, *a, **k):
        raise PoisonRead("loop variable %r is used but not described by the loop contract"
                         % object.__getattribute__(self, "vcname"))

    def __getattribute__(self, n):
        if n in ("__class__",):
            return Poison
        object.__getattribute__(self, "_bad")()

    __bool__ = __iter__ = __len__ = __call__ = __getitem__ = __setattr__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __hash__ = __neg__ = __abs__ = _bad
    __index__ = __int__ = __float__ = __contains__ = __mod__ = __floordiv__ = __pow__ = _bad


class PoisonRead(Unsupported):
    pass


class PlainFor:
    __slots__ = ("it",)

    def __init__(self, it):
        self.it = it

    def __iter__(self):
        return iter(self.it)

    def sync(self, loc):
        return None

    def finish(self, loc):
        return None


class PlainWhile:
    __slots__ = ("n", "lim")

    def __init__(self, lim):
        self.n = 0
        self.lim = lim

    def head(self, loc):
        self.n += 1
        if self.n > self.lim:
            c = S.ctx()
            if getattr(c, "while_bound_ok", False):
                c.ex.bound_hit = True
                raise PathEnd()
            raise Unsupported("loop without a contract ran more than %d times" % self.lim)
        return None


class CutWhile:
    """a while loop cut at its head: `spec` replaces the state by an arbitrary one satisfying the loop invariant
    (start), and after one pass through the body shows the invariant again (step, which then ends the path).
    If the state after one pass is not covered by the invariant, execution simply goes on (the loop is
    expected to end there)."""

    def __init__(self, spec, ident, names, more=2):
        self.spec, self.ident, self.names, self.more = spec, ident, names, more
        self.n = 0

    def head(self, loc):
        self.n += 1
        g = {k: loc[k] for k in self.names if k in loc}
        if self.n == 1:
            return self.spec.start(self.ident, self.names, g)
        self.spec.step(self.ident, self.names, g, self.n - 1)
        if self.n > 1 + self.more:
            raise Unsupported("the loop invariant is not re-established")
        return None


class Opaque:
    """a value nothing is known about; it may be stored and passed on, nothing else"""

    def __init__(self, name):
        object.__setattr__(self, "vcname", name)

    def __getattribute__(self, n):
        if n == "__class__":
            return Opaque
        if n == "vc_opaque":
            return True
        raise Unsupported("the code looks into %s" % object.__getattribute__(self, "vcname"))

    def _bad(self, *a, **k):
        raise Unsupported("the code looks into %s" % object.__getattribute__(self, "vcname"))

    __bool__ = __iter__ = __len__ = __call__ = __getitem__ = __setattr__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = _bad
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = __hash__ = __neg__ = __abs__ = _bad
    __index__ = __int__ = __float__ = __contains__ = __mod__ = __floordiv__ = __pow__ = _bad


class Tail(list):
    """a list of unknown content and length followed by known items; it may grow, its last items may be looked at"""

    def __init__(self, items=(), start=None):
        list.__init__(self, items)
        self.start = start if start is not None else object()     # identifies the unknown part

    @property
    def known(self):
        return [list.__getitem__(self, i) for i in range(list.__len__(self))]

    def __getitem__(self, i):
        if isinstance(i, int) and -list.__len__(self) <= i < 0:
            return list.__getitem__(self, i)
        raise Unsupported("the code looks into the unknown part of a list")

    def __add__(self, o):
        return Tail(self.known + list(o), self.start)

    def __iadd__(self, o):
        list.extend(self, o)
        return self

    def copy(self):
        return Tail(self.known, self.start)

    def __bool__(self):
        if list.__len__(self):
            return True
        self._bad()

    def __repr__(self):
        return "[.. %r]" % (self.known,)

    def _bad(self, *a, **k):
        raise Unsupported("the code looks into the unknown part of a list")

    __iter__ = __len__ = __contains__ = __radd__ = __mul__ = __rmul__ = __imul__ = __setitem__ = __delitem__ = _bad
    insert = remove = index = count = sort = reverse = clear = __reversed__ = __eq__ = __ne__ = __lt__ = __gt__ = _bad
    pop = _bad
    __hash__ = None
    __array__ = _bad


class Hooks:
    def enter(self, name):
        c = S.CTX
        if c is not None:
            c.ex.funcs.add(name)

    def for_begin(self, ident, it, names):
        b = getattr(it, "vc_for", None)
        if b is not None:
            return b(ident, names)
        if has_each(it):
            raise Unsupported("a loop over an abstract list")
        return PlainFor(it)

    def comp(self, it, f):
        b = getattr(it, "vc_comp", None)
        if b is not None:
            return b(f)
        if has_each(it):
            raise Unsupported("a comprehension over an abstract list")
        return [y for e in it for y in f(e)]

    def int(self, x):
        if hasattr(x, "vc_int"):
            return x.vc_int()
        return S.sym_trunc(x) if isinstance(x, Sym) else int(x)

    def strmod(self, fmt, args):
        if isinstance(args, Sym) or isinstance(args, tuple) and any(isinstance(x, Sym) for x in args):
            if S.CTX is not None and S.CTX.ints:
                return S.str_mod(fmt, args)
        return fmt % args

    def len(self, x):
        if isinstance(x, str) and S.has_int_token(x):
            raise Unsupported("length of a printed number")
        if has_each(x):
            raise Unsupported("length of an abstract list")
        if hasattr(x, "vc_len"):
            return x.vc_len()
        return len(x)

    def range(self, *a):
        for x in a:
            if hasattr(x, "vc_range"):
                if len(a) > 2:
                    raise Unsupported("symbolic number of repetitions")
                return x.vc_range(*a) if len(a) == 2 else x.vc_range(0, a[0])
        if any(isinstance(x, Sym) and not x.is_const() for x in a):
            h = getattr(S.CTX, "abstract_range", None)
            if h is None or len(a) > 2:
                raise Unsupported("symbolic number of repetitions")
            return h(*a) if len(a) == 2 else h(0, a[0])
        return range(*[int(x) if isinstance(x, Sym) else x for x in a])

    def while_begin(self, ident, names):
        c = S.CTX
        p = getattr(c, "while_policy", None)
        if p is not None:
            r = p(ident, names)
            if r is not None:
                return r
        return PlainWhile(getattr(c, "while_limit", 200))


HOOKS = Hooks()


def same(a, b):
    """are two values equal on every run of the current path (syntactically)?"""
    import numpy as np
    if a is b:
        return True
    if isinstance(a, Poison) or isinstance(b, Poison):
        return False
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        return a.shape == b.shape and all(same(x, y) for x, y in zip(a.ravel(), b.ravel()))
    if isinstance(a, (tuple,)) and isinstance(b, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, Sym) or isinstance(b, Sym):
        x, y = S.lift(a), S.lift(b)
        if not isinstance(x, Sym) or not isinstance(y, Sym):
            return False
        d = x - y
        return d.num.is_zero()
    if isinstance(a, S.SymBool) and isinstance(b, S.SymBool):
        return a.f.key() == b.f.key()
    if isinstance(a, (bool, int, float, str, type(None))) and isinstance(b, (bool, int, float, str, type(None))):
        return type(a) == type(b) and a == b
    return False


class Seq:
    """an abstract sequence; anything but a contracted for loop over it is Unsupported"""

    def __iter__(self):
        raise Unsupported("iteration over an abstract sequence outside of a for loop")

    def __len__(self):
        raise Unsupported("length of an abstract sequence")

    def __getitem__(self, i):
        raise Unsupported("indexing an abstract sequence")

    def __bool__(self):
        raise Unsupported("truth value of an abstract sequence")

    def __contains__(self, x):
        raise Unsupported("membership in an abstract sequence")


class SelectSeq(Seq):
    """a sequence of arbitrary length and content from which the loop selects one element.

    order = 'first': the first element for which the contract says 'selected'
    order = 'nearest': the selectable element with the least key
    make(kind, tag): a fresh element; kind is 'no', 'yes', 'yes-any' ; make may raise PathEnd.
    nearer(a, b): assume that a is nearer than b.
    Rule (induction over the sequence), with S0 the state at the head and S(o) the state after
    processing o from S0:
       a 'no' element leaves S0 and every S(o) unchanged                          (alternatives 2, 3)
       [nearest] a nearer element turns S(o1) into S(o2)                           (alternative 4)
       [first]   after a selected element nothing changes any more                 (alternative 3)
    so the loop ends in S0 if there is no selectable element, else in S(o*)        (alternatives 0, 1)
    Variables for which this does not hold become unknown (poison) after the loop; `unstable` is the
    set of such variables found so far and exploration restarts until it is stable.
    """

    def __init__(self, cx, order, make, nearer=None, roots=lambda: (), on_final=None):
        self.cx, self.order, self.make, self.nearer = cx, order, make, nearer
        self.roots = roots
        self.on_final = on_final
        self.pending = False
        self.used = 0

    def vc_for(self, ident, names):
        self.used += 1
        self.loop = SelectLoop(self, ident, names)
        return self.loop


class SelectLoop:
    def __init__(self, seq, ident, names):
        self.seq, self.ident, self.names = seq, ident, names
        self.un = seq.cx.persist.setdefault(("unstable", ident), set())
        self.states = []
        self.k = 0
        self.exhausted = False
        c = S.ctx()
        self.alt = c.choose("loop " + ident, 5 if seq.order == "nearest" else 4)
        mk = seq.make
        a = self.alt
        if a == 0:
            self.script = []
            seq.final = None
        elif a == 1:
            o = mk("yes", "sel")
            seq.final = o
            self.script = [(o, "S0")]
        elif a == 2:
            self.script = [(mk("no", "bad"), "S0")]
        elif a == 3:
            o1 = mk("yes", "one")
            if seq.order == "first":
                o2 = mk("any", "two")
            else:
                o2 = mk("any", "two")
                seq.nearer(o1, o2, weak=True)
            self.script = [(o1, "S0"), (o2, "prev")]
        else:
            o1, o2 = mk("yes", "one"), mk("yes", "two")
            seq.nearer(o2, o1)
            self.script = [(o1, "S0"), (o2, "prev"), (o2, "S0")]
        seq.pending = a >= 2
        self.heap0 = None
        if seq.on_final is not None and a <= 1:
            seq.on_final(seq.final)

    def _grab(self, loc):
        return {n: loc[n] for n in self.names if n in loc}

    def __iter__(self):
        for i, (o, frm) in enumerate(self.script):
            self.k = i
            yield o
        self.exhausted = True

    def _give(self, st):
        d = dict(st)
        for n in self.un:
            d[n] = Poison(n)
        return d

    def sync(self, loc):
        g = self._grab(loc)
        if self.k == 0:
            self.S0 = g
            self.heap0 = self.seq.cx.heap(self.seq.roots())
        else:
            self.states.append(g)
        return self._give(self.S0 if self.script[self.k][1] == "S0" else g)

    def finish(self, loc):
        g = self._grab(loc)
        a = self.alt
        if self.script:
            self.states.append(g)
            ch = self.seq.cx.heap_diff(self.heap0, self.seq.cx.heap(self.seq.roots()))
            if ch:
                raise Unsupported("loop body changes %s" % ch[0])
        else:
            self.S0 = g
        if a == 0:
            return self._give(g)
        if a == 1:
            return self._give(g)
        if not self.exhausted:
            if a == 3 and self.seq.order == "first" and len(self.states) == 1:
                self.seq.pending = False
                raise PathEnd()          # left the loop at the selected element
            raise Unsupported("loop left early at an element it should pass over")
        if a == 2:
            self._compare(self.S0, self.states[0])
        elif a == 3:
            self._compare(self.states[0], self.states[1])
        else:
            self._compare(self.states[1], self.states[2])
        self.seq.pending = False
        raise PathEnd()

    def _compare(self, x, y):
        for n in self.names:
            if n in self.un:
                continue
            if n in x and n in y and same(x[n], y[n]):
                continue
            if n not in x and n not in y:
                continue
            self.un.add(n)
            self.seq.cx.restart = True


class MapSeq(Seq):
    """a sequence (array, grid, range) of arbitrary length, represented by one or more generic elements `reps`.

    for loop whose body only appends to lists: processing a generic element, with everything assigned in the loop
    unknown beforehand, appends certain items to certain lists, so after the loop each list is its old content
    followed by those items for every element in order: Each(seq, [items for each representative]).
    comprehension: likewise.  Element-wise arithmetic maps the representatives.
    """

    def __init__(self, cx, name, reps, count=None):
        self.cx, self.name, self.reps, self.count = cx, name, list(reps), count
        self.origin = self

    @property
    def done(self):                 # a loop over it has come to its end
        return any(x is self for x in self.cx.__dict__.get("looped", ()))

    def map(self, f, name=None):
        r = MapSeq(self.cx, name or self.name, [f(x) for x in self.reps], self.count)
        r.origin = self.origin
        return r

    def vc_for(self, ident, names):
        return MapLoop(self, ident, names)

    def vc_comp(self, f):
        before = self.cx.heap(self.cx.map_roots())
        items = [f(x) for x in self.reps]
        ch = self.cx.heap_diff(before, self.cx.heap(self.cx.map_roots()))
        if ch:
            raise Unsupported("comprehension changes %s" % ch[0])
        return [Each(self, items)]

    def vc_array(self, f):
        return self.map(f)

    def _bin(op):
        def g(self, o):
            if isinstance(o, MapSeq):
                raise Unsupported("arithmetic between two abstract sequences")
            return self.map(lambda x: op(x, o))
        return g

    def _ibin(op):
        def g(self, o):
            if isinstance(o, MapSeq):
                raise Unsupported("arithmetic between two abstract sequences")
            self.reps = [op(x, o) for x in self.reps]
            return self
        return g
    import operator as _o
    __add__, __sub__, __mul__, __truediv__ = _bin(_o.add), _bin(_o.sub), _bin(_o.mul), _bin(_o.truediv)
    __radd__, __rsub__ = _bin(lambda x, y: y + x), _bin(lambda x, y: y - x)
    __rmul__ = _bin(lambda x, y: y * x)
    __iadd__, __isub__, __imul__ = _ibin(_o.add), _ibin(_o.sub), _ibin(_o.mul)
    __neg__ = lambda self: self.map(lambda x: -x)
    __array_ufunc__ = None
    del _o, _bin, _ibin


class Each:
    """stands, inside a list, for items[k] for every element of seq (k: which representative)"""

    def __init__(self, seq, items):
        self.seq, self.items = seq, items

    def __repr__(self):
        return "Each(%s, %r)" % (self.seq.name, self.items)


def has_each(x):
    return isinstance(x, list) and not isinstance(x, Tail) and any(type(e) is Each for e in x)


def each_array(x, f):
    """np.array of a list that stands for one item per element"""
    if len(x) == 1 and all(len(i) == 1 for i in x[0].items):
        r = MapSeq(x[0].seq.cx, x[0].seq.name, [f(i[0]) for i in x[0].items], x[0].seq.count)
        r.origin = x[0].seq.origin
        return r
    raise Unsupported("an array of an abstract list")


class MapLoop:
    def __init__(self, seq, ident, names):
        self.seq, self.ident, self.names = seq, ident, names
        self.k = -1

    def __iter__(self):
        for k, x in enumerate(self.seq.reps):
            if k:
                self._collect()
            self.k = k
            yield x
        self._collect()
        self.k = len(self.seq.reps)

    def sync(self, loc):
        if self.k == 0:
            self.lists = {}
            self.items = {}
            for n, v in loc.items():
                if type(v) in (list, Tail) and id(v) not in self.lists:
                    self.lists[id(v)] = (v, v.known if type(v) is Tail else list(v))
                    self.items[id(v)] = []
            self.roots = [v for n, v in loc.items() if n not in self.names and not n.startswith("__vc")
                          and id(v) not in self.lists and not isinstance(v, (MapLoop, PlainFor, PlainWhile, Poison))]
            self.heap0 = self._heap()
        # the body must not depend on anything computed by earlier iterations
        return {n: Poison(n) for n in self.names}

    def _heap(self):
        return self.seq.cx.heap(list(self.seq.cx.map_roots()) + self.roots)

    def _collect(self):
        if self.k < 0:
            return
        ch = self.seq.cx.heap_diff(self.heap0, self._heap())
        if ch:
            raise Unsupported("loop body changes %s" % ch[0])
        for i, (v, old) in self.lists.items():
            now = v.known if type(v) is Tail else list(v)
            if len(now) < len(old) or any(x is not y for x, y in zip(now, old)):
                raise Unsupported("loop body edits a list")
            self.items[i].append(now[len(old):])
            for _ in range(len(now) - len(old)):
                list.pop(v)

    def finish(self, loc):
        if self.k != len(self.seq.reps):
            raise Unsupported("loop left early")
        for i, (v, old) in self.lists.items():
            if any(self.items[i]):
                list.append(v, Each(self.seq, self.items[i]))
        self.seq.cx.__dict__.setdefault("looped", []).append(self.seq)
        return {n: Poison(n) for n in self.names}
