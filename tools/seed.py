"""Make and confirm planted bugs: tools/seedspecs.py lists them; each is confirmed in a scratch copy of /repo
(parses, stable tests pass, demo 0 without / nonzero with the change) and written to /verif/seeded/<id>/.

  python3 tools/seed.py ID...      make and confirm these (default: all that are not there yet)
  python3 tools/seed.py --run ID... run the property's quick check against a copy with the change applied
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = os.path.join(os.path.dirname(HERE), "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", MPLBACKEND="Agg", MPLCONFIGDIR="/opt/mplconfig", PYTHONHASHSEED="0",
           PYTEST_DISABLE_PLUGIN_AUTOLOAD="1")
STABLE = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
BASE = "795234a"

DEMO_SH = """#!/bin/bash
# run in the repository root: exit 0 if the behaviour is right
here=$(cd "$(dirname "$0")" && pwd)
py=/opt/venv/bin/python; [ -x "$py" ] || py=python3
MPLBACKEND=Agg PYTHONPATH="$PWD" exec "$py" -B -W ignore "$here/demo.py"
"""


def copy():
    d = tempfile.mkdtemp(prefix="seed-")
    r = os.path.join(d, "repo")
    shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
    return d, r


def tests(r):
    x = os.path.join(os.path.dirname(r), "j.xml")
    subprocess.run([PY, "-m", "pytest", "-p", "pytest_timeout", "-q", "-p", "no:cacheprovider", "--timeout=300",
                    "--continue-on-collection-errors", "-o", "junit_family=xunit2", "--junitxml=" + x],
                   cwd=r, env=ENV, capture_output=True)
    s = open(x).read()
    ok = set()
    for m in re.finditer(r'<testcase classname="([^"]*)" name="([^"]*)"[^>]*?(/>|>(.*?)</testcase>)', s, re.S):
        if m.group(3) == "/>" or not re.search("<(failure|error|skipped)", m.group(4)):
            ok.add(m.group(1) + "::" + m.group(2))
    return STABLE - ok


def demo(dd, r):
    e = dict(ENV)
    p = subprocess.run(["bash", os.path.join(dd, "demo.sh")], cwd=r, env=e, capture_output=True, text=True, timeout=300)
    return p.returncode, (p.stdout + p.stderr)[-400:]


def make(sid, spec):
    d, r = copy()
    try:
        dd = os.path.join(d, "demo")
        os.mkdir(dd)
        open(dd + "/demo.sh", "w").write(DEMO_SH)
        open(dd + "/demo.py", "w").write(spec["demo"].lstrip())
        rc, o = demo(dd, r)
        if rc:
            return "demo fails on the unchanged tree: " + o
        for f, old, new in spec["edits"]:
            p = os.path.join(r, f)
            s = open(p).read()
            if s.count(old) != 1:
                return "pattern occurs %d times: %s" % (s.count(old), old)
            base = subprocess.run(["git", "-C", "/repo", "show", BASE + ":" + f], capture_output=True, text=True).stdout
            bl, nl = base.splitlines(), new.splitlines()
            gone = [l for l in old.splitlines() if l not in nl]
            if gone and not all(l in bl for l in gone):
                return "changes a line that is not the original's: %r" % [l for l in gone if l not in bl]
            open(p, "w").write(s.replace(old, new))
        for f in {e[0] for e in spec["edits"]}:
            compile(open(os.path.join(r, f)).read(), f, "exec")
        bad = tests(r)
        if bad:
            return "tests fail: %s" % sorted(bad)[:3]
        rc, o = demo(dd, r)
        if rc == 0:
            return "demo passes with the change"
        diff = ""
        for f in sorted({e[0] for e in spec["edits"]}):
            p = subprocess.run(["git", "diff", "--no-index", "--no-color", "/repo/" + f, os.path.join(r, f)],
                               capture_output=True, text=True).stdout
            p = p.replace("b" + os.path.join(r, f), "b/" + f).replace("a/repo/" + f, "a/" + f)
            diff += p
        t = os.path.join(OUT, sid)
        os.makedirs(t, exist_ok=True)
        open(t + "/patch.diff", "w").write(diff)
        for f in ("demo.sh", "demo.py"):
            shutil.copy(os.path.join(dd, f), t)
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]},
                  open(t + "/meta.json", "w"), indent=1)
        a = subprocess.run(["git", "-C", "/repo", "apply", "--check", t + "/patch.diff"], capture_output=True, text=True)
        if a.returncode or "tmp/" in diff:
            return "does not apply: " + a.stderr
        return None
    finally:
        shutil.rmtree(d)


def run(sid, props=None):
    t = os.path.join(OUT, sid)
    meta = json.load(open(t + "/meta.json"))
    d, r = copy()
    try:
        subprocess.run(["git", "init", "-q"], cwd=r)
        subprocess.run(["git", "apply", t + "/patch.diff"], cwd=r, check=True)
        for p in props or [meta["property"]]:
            q = subprocess.run([PY, "-m", "vc.check", p, "--tier", "quick"], cwd=os.path.dirname(HERE),
                               env=dict(ENV, VC_REPO=r, VERIF_SEED="1", VERIF_TIER="quick", VC_EVIDENCE=d + "/e.json"), capture_output=True, text=True)
            v = [l for l in q.stdout.splitlines() if l.startswith("VIOLATION")]
            print(sid, p, "exit", q.returncode, v[:1], (q.stderr[-300:] if q.returncode not in (0, 1) else ""), flush=True)
    finally:
        shutil.rmtree(d)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[:1] == ["--run"]:
        for s in a[1:] or sorted(os.listdir(OUT)):
            run(s)
    else:
        sys.path.insert(0, HERE)
        from seedspecs import SPECS
        for s, sp in SPECS.items():
            if a and s not in a:
                continue
            if not a and os.path.exists(os.path.join(OUT, s, "patch.diff")):
                continue
            print(s, make(s, sp) or "ok", flush=True)
