"""Check of one property:  python -m vc.check C05 [--tier quick|thorough] [--replay FILE]

Phase 1 runs every contract on the real code with generated inputs (counterexample search and cross-check of the
verifier's semantics); phase 2 proves the contracts symbolically.  Exit 0 / 1 as described in DESIGN.md."""
import argparse
import importlib
import json
import multiprocessing as mp
import multiprocessing.connection
import os
import resource
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
warnings.simplefilter("ignore")
sys.path.insert(0, ROOT)
from vc import prove as _prove                     # finds z3 and cvc5

PARTLY = ()                # properties with a main part that is bounded
TRUSTED = [
    "vc/ (this verifier: symbolic values sym.py, numpy model shim.py, loop rules loops.py, proof search prove.py); "
    "cross-checked on every run by executing every contract on the real code with CPython and numpy",
    "CPython 3.12 executes /repo's own byte code of the functions under proof; numpy operations are replaced by "
    "their mathematical definition over the reals",
    "z3 4.x (linear, nlsat), cvc5 1.1.2 as second back end",
]
ASSUME = [
    "machine arithmetic is treated as exact real arithmetic (floats as reals; NaN and division by zero are "
    "tracked as undefined values, rounding and overflow are not)",
]


def log(*a):
    print(*a, file=sys.stderr, flush=True)


# ---------------------------------------------------------------- jobs (run in a child process)
def job_con(h, case, seed, start, n, budget):
    from vc import engine as E
    t = time.time()
    out = {"kind": "con", "runs": 0, "skipped": 0, "decided": 0, "sample": None, "violation": None, "error": None}
    i = start
    while i < start + n and time.time() - t < budget:
        r = E.con_run(h, case, seed=seed, index=i)
        if r is None:
            out["skipped"] += 1
        elif r[0] == "ok":
            out["runs"] += 1
            out["decided"] += r[1]
            if out["sample"] is None or i < start + 3:
                out["sample"] = i
        elif r[0] == "violation":
            out["violation"] = {"label": r[1], "detail": r[2], "inputs": E.jsonable(r[3]), "index": i}
            break
        else:
            out["error"] = r[1]
            break
        i += 1
    return out


def job_sym(h, case, seed, budget, tier):
    from vc import engine as E, prove as PV
    ex = E.Explorer(h, case, seed=seed, deadline=time.time() + budget, tier=tier).run()
    res = []
    for r in ex.results:
        res.append({k: r.get(k) for k in ("label", "status", "how", "witness", "t")})
    return {"kind": "sym", "results": res, "failed": [clean(f) for f in ex.failed], "unsupported": ex.unsupported,
            "covers": ex.covers, "paths": ex.paths, "dead": ex.dead, "funcs": sorted(ex.funcs),
            "hidden": sorted(ex.hidden), "stats": dict(PV.STATS), "assumed": sorted(ex.assumed)}


def clean(f):
    try:
        json.dumps(f)
        return f
    except (TypeError, ValueError):
        return {k: (v if isinstance(v, (str, int, float, bool, list, dict, type(None))) else repr(v))
                for k, v in json.loads(json.dumps(f, default=repr)).items()}


def child(conn, fn, args):
    try:
        resource.setrlimit(resource.RLIMIT_AS, (6 << 30, 6 << 30))
        sys.setrecursionlimit(20000)
        sys.stdout = open(os.devnull, "w")       # what the code under test prints is of no interest
        r = fn(*args)
    except MemoryError:
        r = {"kind": "died", "error": "memory limit"}
    except BaseException:
        r = {"kind": "died", "error": traceback.format_exc()[-1500:]}
    try:
        conn.send(r)
        conn.close()
    except Exception:
        pass
    os._exit(0)


class Pool:
    def __init__(self, n):
        self.n = n
        self.ctx = mp.get_context("fork")
        self.running = []

    def run(self, jobs, deadline, on):
        """jobs: list of (key, fn, args, hard time limit)"""
        jobs = list(jobs)
        while jobs or self.running:
            while jobs and len(self.running) < self.n and time.time() < deadline:
                key, fn, args, lim = jobs.pop(0)
                a, b = self.ctx.Pipe(False)
                p = self.ctx.Process(target=child, args=(b, fn, args), daemon=True)
                p.start()
                b.close()
                self.running.append((key, p, a, time.time() + lim))
            if jobs and time.time() >= deadline:
                for key, *_ in jobs:
                    on(key, {"kind": "died", "error": "no time left"})
                jobs = []
            conns = [r[2] for r in self.running]
            ready = mp.connection.wait(conns, 0.2) if conns else []
            keep = []
            stop = False
            for key, p, a, end in self.running:
                if a in ready:
                    try:
                        r = a.recv()
                    except (EOFError, OSError):
                        r = {"kind": "died", "error": "the process ended"}
                    p.join(2)
                    if p.is_alive():
                        p.kill()
                    stop |= bool(on(key, r))
                elif time.time() > min(end, deadline + 5):
                    p.kill()
                    p.join()
                    stop |= bool(on(key, {"kind": "died", "error": "time limit"}))
                else:
                    keep.append((key, p, a, end))
            self.running = keep
            if stop:
                for key, p, a, end in self.running:
                    p.kill()
                for key, p, a, end in self.running:
                    p.join()
                self.running = []
                return


# ---------------------------------------------------------------- known findings
def known(prop):
    """lines  'known: property=<id> harness=<h> case=<c> label=<obligation>'  (fixed: entries suppress nothing)"""
    out = []
    p = os.path.join(ROOT, "KNOWN_FINDINGS.md")
    if os.path.exists(p):
        for l in open(p):
            if l.startswith("known: property=%s " % prop):
                out.append(l.strip())
    return out


def main(argv=None):
    ap = argparse.ArgumentParser()
    ap.add_argument("prop", nargs="?")
    ap.add_argument("--selftest", action="store_true")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER") or "quick")
    ap.add_argument("--replay")
    ap.add_argument("--only")
    ap.add_argument("--workers", type=int, default=int(os.environ.get("VC_WORKERS", "8")))
    a = ap.parse_args(argv)
    t0 = time.time()
    if a.selftest:
        import numpy, z3, cvc5
        print("numpy", numpy.__version__, "z3", z3.get_version_string(), "cvc5", cvc5.__version__)
        return 0
    seed = int(os.environ.get("VERIF_SEED") or 1)
    prop, tier = a.prop, a.tier if a.tier in ("quick", "thorough") else "quick"
    sys.setrecursionlimit(20000)
    from vc import engine as E
    importlib.import_module("contracts." + prop.lower())
    hs = [h for h in E.REG.get(prop, []) if not a.only or h.name in a.only.split(",")]
    if a.replay:
        return replay(hs, a.replay)
    ck = Check(prop, tier, seed, hs, a.workers, t0)
    return ck.run()


def casestr(c):
    return "" if c is None else repr(c)


class Check:
    def __init__(self, prop, tier, seed, hs, workers, t0):
        self.prop, self.tier, self.seed, self.hs, self.workers, self.t0 = prop, tier, seed, hs, workers, t0
        self.con = {}
        self.sym = {}
        self.viol = None
        self.died = []
        self.errors = []

    def on(self, key, r):
        kind, h, case = key[0], key[1], key[2]
        k = (h.name, casestr(case))
        if r["kind"] == "died":
            self.died.append((kind, k, r["error"]))
            if kind == "sym":
                self.sym[k] = {"results": [], "failed": [], "unsupported": [r["error"]], "covers": {}, "paths": 0,
                               "dead": 0, "funcs": [], "hidden": [], "stats": {}, "assumed": []}
            return False
        if kind == "con":
            c = self.con.setdefault(k, {"runs": 0, "skipped": 0, "decided": 0, "samples": []})
            c["runs"] += r["runs"]
            c["skipped"] += r["skipped"]
            c["decided"] += r["decided"]
            if r["sample"] is not None:
                c["samples"].append(r["sample"])
            if r["error"]:
                self.errors.append((k, r["error"]))
            if r["violation"] and self.viol is None:
                self.viol = ("run", h, case, r["violation"])
                return True
        else:
            self.sym[k] = r
            for f in r["failed"]:
                if f.get("replay") and self.viol is None:
                    v = dict(f["replay"])
                    v["obligation"] = f
                    self.viol = ("proof", h, case, v)
                    return True
        return False

    def run(self):
        quick = self.tier == "quick"
        total = 400 if quick else 820
        deadline = self.t0 + total
        pool = Pool(self.workers)
        jobs = []
        pairs = [(h, c) for h in self.hs for c in h.cases]
        ncon = 600 if quick else 20000
        tcon = (40.0 if quick else 250.0) * self.workers / max(1, len(pairs))
        tcon = min(tcon, 12.0 if quick else 60.0)
        for h, c in pairs:
            n = int(ncon * h.opts.get("con", 300) / 300)
            if n:
                jobs.append((("con", h, c), job_con, (h, c, self.seed, 0, n, tcon), tcon + 30))
        pool.run(jobs, deadline, self.on)
        if self.viol is None:
            jobs = []
            tsym = (250 if quick else 480)
            for h, c in pairs:
                if h.opts.get("sym", True) is False:
                    continue
                jobs.append((("sym", h, c), job_sym, (h, c, self.seed, tsym, self.tier), tsym + 60))
            jobs.sort(key=lambda j: -j[0][1].opts.get("cost", 1))
            pool.run(jobs, deadline, self.on)
        if self.viol is None:
            self.extended(pool, pairs, deadline)
        return self.report()

    def weak(self, k):
        s = self.sym.get(k)
        return s is not None and (s["failed"] or s["unsupported"] or s["hidden"])

    def extended(self, pool, pairs, deadline):
        """a longer concrete search where the proof did not go through"""
        jobs = []
        for h, c in pairs:
            k = (h.name, casestr(c))
            if self.weak(k) or h.opts.get("sym", True) is False:
                for w in range(4):
                    jobs.append((("con", h, c), job_con, (h, c, self.seed, 10**6 * (w + 1), 10**6, 15.0), 45))
        if jobs:
            pool.run(jobs[:64], min(deadline + 60, time.time() + 90), self.on)

    # -- output
    def report(self):
        prop = self.prop
        nob = ndis = 0
        by, hows = {}, {}
        funcs, hidden, nfif, notproved, bounded = set(), set(), [], [], []
        vac = []
        zs = {"z3_calls": 0, "z3_s": 0.0, "cvc5_calls": 0, "cvc5_s": 0.0}
        for h in self.hs:
            for c in h.cases:
                k = (h.name, casestr(c))
                nm = h.name + (" " + k[1] if k[1] else "")
                s = self.sym.get(k)
                if h.opts.get("sym", True) is False:
                    bounded.append(nm + " (concrete only: %s)" % h.opts.get("bounded", "generated inputs"))
                    continue
                if s is None:
                    if self.viol is None:
                        notproved.append(nm + ": not run")
                    continue
                if h.opts.get("bounded"):
                    bounded.append("%s: %s" % (nm, h.opts["bounded"]))
                funcs |= set(s["funcs"])
                hidden |= set(s["hidden"])
                for x in zs:
                    zs[x] += s["stats"].get(x, 0)
                p = 0
                for r in s["results"]:
                    nob += 1
                    if r["status"] == "proved":
                        p += 1
                        hows[r["how"]] = hows.get(r["how"], 0) + 1
                ndis += p
                by[nm] = {"obligations": len(s["results"]), "discharged": p, "paths": s["paths"],
                          "infeasible_paths": s["dead"]}
                if s["covers"]:
                    by[nm]["reached"] = s["covers"]
                if s["unsupported"]:
                    notproved.append("%s: %s" % (nm, "; ".join(dict.fromkeys(x[:300] for x in s["unsupported"]))[:900]))
                elif not s["results"]:
                    vac.append(nm)
                elif not any(r["witness"] for r in s["results"]):
                    vac.append(nm + " (no witness)")
                for f in s["failed"]:
                    if not f.get("replay"):
                        nfif.append((h, c, f))
        runs = sum(c["runs"] for c in self.con.values())
        decided = sum(c["decided"] for c in self.con.values())
        viol_line = None
        if self.viol is not None:
            path = self.write_replay(*self.viol)
            viol_line = "VIOLATION property=%s replay=%s" % (prop, path)
            where, h, c, v = self.viol
            log("%s: %s %s violated on the real code: %s %s" % (prop, h.name, casestr(c), v["label"], v.get("detail")))
        elif nfif:
            h, c, f = nfif[0]
            path = self.write_replay("proof", h, c, {"label": f["label"], "inputs": None, "obligation": f,
                                                     "others": [x[2]["label"] for x in nfif[1:]]})
            viol_line = "VIOLATION property=%s replay=%s no-failing-input-found" % (prop, path)
            log("%s: obligation not discharged: %s %s: %s (%s)" % (prop, h.name, casestr(c), f["label"],
                                                                  f.get("reason")))
        for x in vac:
            log("%s: vacuous: %s" % (prop, x))
        for x in notproved:
            log("%s: not proved: %s" % (prop, x[:1500]))
        for x in self.errors:
            log("%s: harness error %s" % (prop, x))
        if hidden:
            log("%s: new state written: %s" % (prop, sorted(hidden)[:8]))
        if vac and self.viol is None:
            notproved += ["%s: no obligation was reached" % x for x in vac]
        assumptions = list(ASSUME)
        for s in self.sym.values():
            assumptions += s.get("assumed", [])
        assumptions += sorted({n for h in self.hs for n in h.opts.get("assumes", [])})
        assumptions += ["not proved on this tree (bounded concrete stand-in only): " + x for x in notproved]
        ev = {
            "property": prop, "tier": self.tier, "seed": self.seed,
            "level": "other" if prop in PARTLY else "proof",
            "coverage": {
                "obligations": nob, "discharged": ndis,
                "checker_cmd": "/opt/venv/bin/python -m vc.check %s --tier %s" % (prop, self.tier),
                "trusted_base": TRUSTED,
                "functions_under_contract": sorted(funcs),
                "contracts": by, "back_ends": hows,
                "solver": {k: round(v, 2) for k, v in zs.items()},
                "bounded_parts": bounded,
                "explanation": "obligations proved by the verifier for all inputs" + (
                    ", one size at a time: or on samples: the contracts of this property are bounded as listed in bounded_parts"
                    if prop in PARTLY else "; bounded_parts lists what is run on samples only"),
                "concrete_executions_of_the_contracts": runs,
                "concrete_obligations_decided": decided,
                "samples": [{"harness": k[0], "case": k[1], "seed": self.seed, "index": c["samples"][0]}
                            for k, c in list(self.con.items())[:4] if c["samples"]],
            },
            "assumptions": list(dict.fromkeys(assumptions)),
            "wall_s": round(time.time() - self.t0, 2),
            "violations": 1 if viol_line else 0,
        }
        os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(ROOT, "evidence", prop + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
        for l in known(prop):
            print("KNOWN-FINDING: " + l[len("known: "):])
        print("%s %s: %d/%d obligations discharged, %d concrete executions, %d functions, %.1f s" % (
            prop, self.tier, ndis, nob, runs, len(funcs), time.time() - self.t0))
        if viol_line:
            print(viol_line)
        sys.stdout.flush()
        return 1 if viol_line else 0

    def write_replay(self, where, h, case, v):
        d = os.path.join(ROOT, "replays")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s.json" % self.prop)
        o = dict(v)
        o.update(property=self.prop, harness=h.name, case=repr(case), found_by=where, seed=self.seed,
                 how="%s -m vc.check %s --replay %s" % (sys.executable, self.prop, p))
        with open(p, "w") as f:
            json.dump(o, f, indent=1, default=repr)
        return p


def replay(hs, path):
    from vc import engine as E
    o = json.load(open(path))
    for h in hs:
        for c in h.cases:
            if h.name == o["harness"] and repr(c) == o["case"]:
                if o.get("inputs") is None:
                    print("no failing input; failed obligation:", o["label"])
                    return 1
                r = E.con_run(h, c, inputs=None if "index" in o else o["inputs"], seed=o["seed"],
                              index=o.get("index", 0))
                print(r)
                return 1 if r and r[0] == "violation" else 0
    print("no such harness")
    return 0


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        traceback.print_exc()
        rc = 2
    sys.exit(rc)
