"""Small mechanical changes to the source, each run against the checks of the properties its function belongs to:
  python3 tools/automut.py [-j N] [-n HOWMANY] [-s SEED] [FUNCTION-SUBSTRING...]
prints the ones that pass the stable tests and that no check notices ("survivor"); those are read by hand: most keep the
behaviour, the others show what the checks miss."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
FILES = {"general.py": "general", "general_optics.py": "general_optics", "Shapes/shapes.py": "Shapes.shapes", "optics3d.py": "optics3d"}
SNAP = tempfile.mkdtemp(prefix="automut-base-")
shutil.copytree("/repo", SNAP + "/repo", ignore=shutil.ignore_patterns(".git", "__pycache__"))
for _d in ("vc", "contracts"):
    shutil.copytree(os.path.join(HERE, _d), os.path.join(SNAP, _d), ignore=shutil.ignore_patterns("__pycache__"))
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
SWAP = {ast.Lt: ["<=", ">"], ast.LtE: ["<", ">"], ast.Gt: [">=", "<"], ast.GtE: [">", "<"], ast.Eq: ["!="], ast.NotEq: ["=="],
        ast.Is: ["is not"], ast.IsNot: ["is"], ast.In: ["not in"], ast.NotIn: ["in"]}
TXT = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=", ast.Is: "is", ast.IsNot: "is not",
       ast.In: "in", ast.NotIn: "not in"}
BIN = {ast.Add: ("+", ["-"]), ast.Sub: ("-", ["+"]), ast.Mult: ("*", ["/"]), ast.Div: ("/", ["*"]), ast.Pow: ("**", ["*"]),
       ast.MatMult: ("@", ["*"])}


def props():
    out, cost = {}, {}
    for i in range(1, 40):
        p = "C%02d" % i
        if not os.path.exists(os.path.join(HERE, "evidence", p + ".json")):
            continue
        d = json.load(open(os.path.join(HERE, "evidence", p + ".json")))
        cost[p] = d["wall_s"]
        for f in d["coverage"]["functions_under_contract"]:
            out.setdefault(f, []).append(p)
    for v in out.values():
        v.sort(key=lambda p: cost[p])
    return out


def mutants():
    byf = props()
    for f, mod in FILES.items():
        src = open(SNAP + "/repo/" + f, encoding="utf-8").read()
        lines = src.splitlines(keepends=True)
        starts = [0]
        for l in lines:
            starts.append(starts[-1] + len(l.encode()))
        b = src.encode()

        def pos(n, end=False):
            return starts[(n.end_lineno if end else n.lineno) - 1] + (n.end_col_offset if end else n.col_offset)

        def visit(n, path, doc):
            name = ".".join([mod] + path)
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                for c in n.body:
                    yield from visit(c, path + [n.name], True)
                return
            if name not in byf:
                return
            yield from edits(n, name)
            for c in ast.iter_child_nodes(n):
                yield from visit(c, path, False)

        def edits(n, name):
            def rep(a, z, new):
                return (f, name, n.lineno, a, z, new.encode())
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                a, z = pos(n.left, True), pos(n.comparators[0])
                old = TXT[type(n.ops[0])]
                for s in SWAP[type(n.ops[0])]:
                    yield rep(a, z, b[a:z].decode().replace(old, s, 1))
            elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
                a, z = pos(n.left, True), pos(n.right)
                old, new = BIN[type(n.op)]
                for s in new:
                    yield rep(a, z, b[a:z].decode().replace(old, s, 1))
            elif isinstance(n, ast.BoolOp):
                a, z = pos(n.values[0], True), pos(n.values[1])
                o, s = ("and", "or") if isinstance(n.op, ast.And) else ("or", "and")
                if len(n.values) == 2:
                    yield rep(a, z, b[a:z].decode().replace(o, s, 1))
                for k in (0, 1):
                    yield rep(pos(n.values[k]), pos(n.values[k], True), "True" if o == "and" else "False")
            elif isinstance(n, ast.Constant):
                a, z = pos(n), pos(n, True)
                if n.value is True or n.value is False:
                    yield rep(a, z, str(not n.value))
                elif type(n.value) is int:
                    yield rep(a, z, str(n.value + 1))
                    yield rep(a, z, str(n.value - 1) if n.value else "-1")
                elif type(n.value) is float:
                    yield rep(a, z, repr(n.value * 1.25 + (n.value == 0)))
                elif n.value is None:
                    yield rep(a, z, "0")
            elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.USub, ast.Not)):
                yield rep(pos(n), pos(n, True), "(" + b[pos(n.operand):pos(n.operand, True)].decode() + ")")
            elif isinstance(n, (ast.Assign, ast.AugAssign)) or isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                yield rep(pos(n), pos(n, True), "pass")
            elif isinstance(n, (ast.If, ast.While)):
                if isinstance(n, ast.If):
                    yield rep(pos(n.test), pos(n.test, True), "True")
                yield rep(pos(n.test), pos(n.test, True), "False")
            elif isinstance(n, ast.Break):
                yield rep(pos(n), pos(n, True), "continue")
            elif isinstance(n, ast.Continue):
                yield rep(pos(n), pos(n, True), "break")
            elif isinstance(n, ast.Attribute) and n.attr in ("position", "direction", "center", "normal", "h", "w", "R", "D", "f"):
                other = {"position": "direction", "direction": "position", "h": "w", "w": "h", "R": "D", "D": "R"}.get(n.attr)
                if other:
                    yield rep(pos(n.value, True), pos(n, True), "." + other)
            elif isinstance(n, ast.Call) and len(n.args) == 2 and not n.keywords:
                a0, a1 = (b[pos(x):pos(x, True)].decode() for x in n.args)
                yield rep(pos(n.args[0]), pos(n.args[1], True), a1 + ", " + a0)
        for top in ast.parse(src).body:
            for m in visit(top, [], True):
                yield m + (byf[m[1]],)


def tests_pass(r):
    e = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", PYTHONHASHSEED="0",
             PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
    x = os.path.join(r, "r.xml")
    try:
        subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "--junitxml=" + x], cwd=r, env=e, capture_output=True,
                       timeout=60)
    except subprocess.TimeoutExpired:
        return False
    try:
        t = open(x).read()
    except OSError:
        return False
    import xml.etree.ElementTree as ET
    ok = sum(1 for c in ET.fromstring(t).iter("testcase") if not list(c))
    return ok >= len(STABLE)


def one(m):
    f, name, line, a, z, new, ps = m
    d = tempfile.mkdtemp(prefix="automut-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree(SNAP + "/repo", r)
        p = os.path.join(r, f)
        b = open(p, "rb").read()
        t = b[:a] + new + b[z:]
        open(p, "wb").write(t)
        try:
            compile(t, f, "exec")
        except SyntaxError:
            return m, "syntax"
        if not tests_pass(r):
            return m, "tests"
        v = os.path.join(d, "verif")
        os.mkdir(v)
        shutil.copytree(os.path.join(SNAP, "vc"), os.path.join(v, "vc"))
        shutil.copytree(os.path.join(SNAP, "contracts"), os.path.join(v, "contracts"))
        shutil.copy(os.path.join(HERE, "KNOWN_FINDINGS.md"), v)
        e = dict(os.environ, VC_REPO=r, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1", VC_WORKERS="2")
        weak = None
        for q in ps:
            try:
                o = subprocess.run([PY, "-W", "ignore", "-m", "vc.check", q, "--tier", "quick"], cwd=v, env=e, capture_output=True,
                                   text=True, timeout=1200)
            except subprocess.TimeoutExpired:
                weak = weak or "timeout " + q
                continue
            if o.returncode == 1:
                if "no-failing-input" not in o.stdout:
                    return m, "caught " + q
                weak = weak or "nfif " + q
            elif o.returncode:
                return m, "BROKEN " + q + o.stderr[-300:]
        return m, weak or "survivor"
    finally:
        shutil.rmtree(d)


def main():
    a = sys.argv[1:]

    def opt(k, dflt):
        if k in a:
            i = a.index(k)
            v = int(a[i + 1])
            del a[i:i + 2]
            return v
        return dflt
    j, n, s = opt("-j", 4), opt("-n", 10 ** 9), opt("-s", 1)
    ms = [m for m in mutants() if not a or any(x in m[1] for x in a)]
    random.Random(s).shuffle(ms)
    ms = ms[:n]
    print(len(ms), "mutants", flush=True)
    count = {}
    with ThreadPoolExecutor(j) as ex:
        for m, res in ex.map(one, ms):
            count[res.split()[0]] = count.get(res.split()[0], 0) + 1
            if res in ("syntax", "tests"):
                continue
            if not res.startswith("caught"):
                f, name, line, x, z, new, ps = m
                src = open(SNAP + "/repo/" + f, "rb").read()
                l = src[src.rfind(b"\n", 0, x) + 1:src.find(b"\n", z)].decode().strip()
                print("%s %s:%d %s | %s | %r -> %r [%s]" % (res, f, line, name, l[:150], src[x:z].decode()[:60], new.decode()[:60],
                                                            " ".join(ps)), flush=True)
    print(count)
    shutil.rmtree(SNAP)


if __name__ == "__main__":
    main()
