"""Try source changes against the checks:  python3 tools/mutate.py FILE.py [-j N]
FILE.py defines M = [(property, file, old, new), ...]; a `new` starting with '=' marks a change that keeps the
behaviour (the check has to stay quiet)."""
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def one(m):
    prop, f, old, new = m
    keep = new.startswith("=")
    if keep:
        new = new[1:]
    d = tempfile.mkdtemp(prefix="mutate-")
    try:
        r = os.path.join(d, "repo")
        shutil.copytree("/repo", r, ignore=shutil.ignore_patterns(".git", "__pycache__"))
        v = os.path.join(d, "verif")
        os.mkdir(v)
        for x in ("vc", "contracts", "KNOWN_FINDINGS.md"):
            os.symlink(os.path.join(HERE, x), os.path.join(v, x))
        # a copy of vc, so that evidence and replays go to the scratch folder
        os.unlink(os.path.join(v, "vc"))
        shutil.copytree(os.path.join(HERE, "vc"), os.path.join(v, "vc"))
        os.unlink(os.path.join(v, "contracts"))
        shutil.copytree(os.path.join(HERE, "contracts"), os.path.join(v, "contracts"))
        p = os.path.join(r, f)
        s = open(p).read()
        if old not in s:
            return m, "PATTERN NOT FOUND", ""
        open(p, "w").write(s.replace(old, new, 1))
        e = dict(os.environ, VC_REPO=r, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED="1")
        e.setdefault("VC_WORKERS", "3")
        q = subprocess.run([PY, "-m", "vc.check", prop, "--tier", "quick"], cwd=v, env=e, capture_output=True, text=True)
        out = q.stdout.strip().splitlines()
        if q.returncode == 0:
            res = "quiet"
        elif any(l.startswith("VIOLATION") for l in out):
            res = "VIOLATION" + (" (nfif)" if "no-failing" in out[-1] else "")
        else:
            res = "BROKEN rc=%d" % q.returncode
        why = " | ".join(l[:220] for l in q.stderr.splitlines() if prop in l)[:700]
        return m, ("ok " if (res == "quiet") == keep and "BROKEN" not in res else "*** ") + res, why
    finally:
        shutil.rmtree(d)


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    j = int(sys.argv[sys.argv.index("-j") + 1]) if "-j" in sys.argv else 4
    sel = [x for x in sys.argv[2:] if x[0] == "C" and x[1:].isdigit()]
    bad = 0
    with ThreadPoolExecutor(j) as ex:
        for m, r, why in ex.map(one, [m for m in g["M"] if not sel or m[0] in sel]):
            bad += r.startswith("*")
            print(r, m[0], repr(m[2][:70]), "->", repr(m[3][:110]))
            if why and (r.startswith("***") or "-v" in sys.argv):
                print("      ", why)
            sys.stdout.flush()
    print("unexpected:", bad)


main()
