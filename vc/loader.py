"""Loads the code of /repo (current working tree) for verification.

symbolic mode: a fresh copy of every module, compiled from the file on disk after the loop rewriting
  of vc/loops.py (which only adds calls around loops over abstract sequences), executed with numpy,
  math and a few builtins replaced by vc/shim.py.
concrete mode: the modules imported normally with the real numpy.
"""
import ast
import builtins
import importlib
import os
import sys
import types
import warnings

REPO = os.environ.get("VC_REPO", "/repo")
MODS = ["general", "general_optics", "optics3d", "Shapes.shapes"]


def find(name):
    p = os.path.join(REPO, *name.split("."))
    if os.path.isfile(p + ".py"):
        return p + ".py", False
    if os.path.isdir(p):
        i = os.path.join(p, "__init__.py")
        if os.path.isfile(i):
            return i, True
        if any(f.endswith(".py") for f in os.listdir(p)):
            return None, True
    return None, None


class StubMeta(type):
    def __getattr__(cls, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = stub_class(n)
        setattr(cls, n, c)
        return c


def stub_class(n):
    def missing(self, a):
        from .sym import Unsupported
        if a.startswith("__"):
            raise AttributeError(a)
        raise Unsupported("%s.%s of a stubbed library" % (n, a))
    return StubMeta(n, (), {"__init__": lambda self, *a, **k: None, "vc_stub": True, "__getattr__": missing})


class Stub(types.ModuleType):
    """matplotlib and friends: never executed for real"""

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        c = stub_class(n)
        setattr(self, n, c)
        return c


STUBS = ("matplotlib", "mpl_toolkits", "scipy", "pylab", "seaborn")


CODE = {}


class World:
    """one load of the repository in symbolic mode"""

    def __init__(self, instrument=True):
        from . import shim, loops
        self.mods = {}
        self.instead = {}           # modules a contract puts an abstract one in place of
        self.instrument = instrument
        self.shim = shim
        self.loops = loops
        self.sources = {}
        b = dict(builtins.__dict__)
        b.update(__import__=self._import, float=shim.SFloat, isinstance=shim.s_isinstance, type=shim_type(shim),
                 print=lambda *a, **k: None, round=shim.s_round, sum=builtins.sum)
        b["__vc__"] = loops.HOOKS
        b["len"], b["range"] = loops.HOOKS.len, loops.HOOKS.range
        self.builtins = b
        for m in MODS:
            if find(m)[0]:
                self.load(m)

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = find(name)
        m = types.ModuleType(name)
        m.__dict__["__builtins__"] = self.builtins
        m.__file__ = path or ""
        if pkg:
            m.__path__ = []
        m.__package__ = name if pkg else name.rpartition(".")[0]
        self.mods[name] = m
        if path:
            if name not in CODE:
                src = open(path, encoding="utf-8").read()
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(src, path)
                    if self.instrument:
                        tree = self.loops.Instrument(name).visit(tree)
                        ast.fix_missing_locations(tree)
                    CODE[name] = compile(tree, path, "exec")
            exec(CODE[name], m.__dict__)
        par = name.rpartition(".")[0]
        if par:
            p = self.load(par)
            setattr(p, name.rpartition(".")[2], m)
        return m

    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get("__package__", "")
            for _ in range(level - 1):
                pk = pk.rpartition(".")[0]
            name = (pk + "." + name).strip(".")
        top = name.split(".")[0]
        if top in self.instead:
            m = self.instead[top]
            for k in name.split(".")[1:] if fromlist else ():
                m = getattr(m, k)
            return m
        if top == "numpy":
            if fromlist:
                m = self.shim.NP
                for k in name.split(".")[1:]:
                    m = getattr(m, k)
                return m
            return self.shim.NP
        if top == "math":
            return self.shim.MATH
        if top in STUBS:
            parts = name.split(".")
            m = None
            for k in range(len(parts)):
                n = ".".join(parts[:k + 1])
                if n not in self.mods:
                    self.mods[n] = Stub(n)
                    if m is not None:
                        setattr(m, parts[k], self.mods[n])
                m = self.mods[n]
            return m if fromlist else self.mods[top]
        if find(top)[0] or find(top)[1]:
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if f != "*" and not hasattr(m, f) and find(name + "." + f)[1] is not None:
                        self.load(name + "." + f)
                return m
            return self.load(top)
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def __getitem__(self, n):
        return self.mods[n]


def shim_type(shim):
    class M(type):
        def __call__(cls, *a, **k):
            if len(a) == 1 and not k:
                return shim.s_type(*a)
            return builtins.type(*a, **k)

        def __instancecheck__(cls, o):
            return builtins.isinstance(o, builtins.type)
    return M("type", (builtins.type,), {})


_real = None


class RealWorld:
    def __init__(self):
        os.environ.setdefault("MPLBACKEND", "Agg")
        sys.dont_write_bytecode = True
        if REPO not in sys.path:
            sys.path.insert(0, REPO)
        self.mods = {}
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for m in MODS:
                if find(m)[0]:
                    self.mods[m] = importlib.import_module(m)
        self.sources = {}

    def __getitem__(self, n):
        return self.mods[n]


def real():
    global _real
    if _real is None:
        _real = RealWorld()
    return _real


# ---------------------------------------------------------------- numbers that occur in the source
def literals():
    """the numbers written in the source"""
    out = set()
    for m in MODS:
        p = find(m)[0]
        if p:
            try:
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    tree = ast.parse(open(p, encoding="utf-8").read())
            except (SyntaxError, ValueError):
                continue
            for n in ast.walk(tree):
                if isinstance(n, ast.Constant) and type(n.value) in (int, float):
                    out.add(abs(float(n.value)))
                elif isinstance(n, ast.BinOp):      # written as an expression of literals, e.g. 10 ** 4, 1 - 1e-3
                    try:
                        v = eval(compile(ast.Expression(n), "", "eval"), {"__builtins__": {}})
                        if type(v) in (int, float):
                            out.add(abs(float(v)))
                    except Exception:
                        pass
    return out


_new = None


def new_literals():
    """numbers in the source that were not there when the contracts were written; concrete runs try inputs of that
    size (a search heuristic for the runs that look for a failing input, nothing else depends on it)"""
    global _new
    if _new is None:
        import json
        p = os.path.join(os.path.dirname(__file__), "literals.json")
        old = set(json.load(open(p))) if os.path.exists(p) else set()
        _new = sorted(v for v in literals() - old if 1e-4 <= v <= 1e5)
    return _new
