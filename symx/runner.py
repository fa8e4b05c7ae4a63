"""Run a check: explore its harnesses symbolically, replay every path on the untouched code, judge, report.

For every job (one bounded input family of one harness) the engine enumerates the feasible paths of the
instrumented package. On each completed path

  1. the harness *settles* the path: it forks until the verdict of the oracle is the same for every
     value left on the path (shape decided, output text lexically uniform, assertions evaluated
     symbolically);
  2. the solver's model of the path condition gives concrete inputs, which are run through the
     untouched package; its observable output must equal the one the encoding predicts;
  3. the oracle judges the real output. A failed oracle is replayed in a new process before it is
     reported.
"""
from __future__ import annotations

import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

from . import core, instrument
from .core import Abort, Engine, PathInfeasible
from .data import concrete, force

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("SYMX_WORKERS", "8"))


class Harness:
    """One family of inputs and the way the public API is driven on them."""

    name = "?"
    #: relative importance when time is short
    root = None

    def __init__(self, prop):
        self.prop = prop

    def jobs(self, tier):
        return [{}]

    def build(self, p):
        """Symbolic inputs (a dict). Deterministic: called again for a pristine copy."""
        raise NotImplementedError

    def run(self, L, inp, p):
        """Drive the public API; returns plain observable data."""
        raise NotImplementedError

    def settle(self, inp, out, p):
        """Fork until the oracle's verdict is constant on the path."""

    def oracle(self, inp, out, p, L):
        """Problems (strings) seen in the real output for concrete inputs."""
        raise NotImplementedError

    def known(self, inp, out, p, problem):
        """Id of the listed finding this failure is an instance of, if any."""
        return None

    def nontrivial(self, inp, out, p):
        return True

    def suspicious(self, predicted, p):
        """The encoding predicts a failure that one ordinary run cannot show (it depends on the process):
        the real code is then run the `hard` way (`p["hard"]`)."""
        return False

    # set up / tear down of the surroundings of one run
    def enter(self, symbolic):
        return None

    def leave(self, symbolic, ctx):
        return None

    def realm(self, symbolic):
        key = (symbolic, self.root)
        r = _REALMS.get(key)
        if r is None:
            r = _REALMS[key] = instrument.Realm(symbolic, self.root)
        return r


_REALMS: dict = {}


class Exc:
    """An exception that reached the caller of the API."""

    def __init__(self, kind, msg, mro=()):
        self.kind = kind
        self.msg = msg
        self.mro = tuple(mro)

    def __eq__(self, o):
        return isinstance(o, Exc) and self.kind == o.kind

    def __repr__(self):
        return f"raised {self.kind}: {self.msg}"

    def _symx_concrete(self, c):
        return self


def guarded(f, *a, **k):
    """Call and turn an exception into an observable outcome."""
    try:
        return f(*a, **k)
    except Exception as e:  # noqa: BLE001
        return Exc(type(e).__name__, _msg(e), [c.__name__ for c in type(e).__mro__])


def _msg(e):
    try:
        s = e.args[0] if e.args else ""
        if type(s) is str:
            return s[:300]
        return f"<{type(s).__name__}>"
    except Exception:  # noqa: BLE001
        return "?"


def execute(h, L, inp, p, symbolic):
    ctx = h.enter(symbolic)
    try:
        with L:
            return guarded(h.run, L, inp, p)
    finally:
        h.leave(symbolic, ctx)


class FixedEngine(Engine):
    """Replays one assignment: every variable has a given value (0 when not listed)."""

    def __init__(self, assignment):
        super().__init__()
        self.assignment = assignment

    def _var(self, name, mk, dom):
        v = self.vars.get(name)
        if v is None:
            v = mk(name)
            self.vars[name] = v
            if name in self.assignment:
                self._base_add(v == self.assignment[name])
            else:
                d = dom(v)
                if d is not None:
                    self._base_add(d)
        return v


def assignment_of(g):
    m = g.ensure_model()
    return {n: m.eval(v, model_completion=True).as_long() for n, v in g.vars.items()}


def real_inputs(h, p, assignment):
    """Concrete inputs of one assignment, rebuilt from the harness."""
    e = FixedEngine(assignment)
    prev, core.ENG = core.ENG, e
    try:
        e.extra = {}
        inp = h.build(p)
        force(list(inp.values()))
        m = e.ensure_model()
        return {k: concrete(v, m) for k, v in inp.items()}
    finally:
        core.ENG = prev


def judge(h, p, assignment):
    """Run the untouched code on one assignment and judge it: (inputs, output, problems)."""
    inp = real_inputs(h, p, assignment)
    L = h.realm(False).current()
    out = execute(h, L, inp, p, False)
    pristine = real_inputs(h, p, assignment)
    return pristine, out, list(h.oracle(pristine, out, p, L))


def show(x, n=600):
    try:
        r = repr(x)
    except Exception:  # noqa: BLE001
        r = f"<{type(x).__name__}>"
    return r if len(r) <= n else r[:n] + "..."


class JobResult(dict):
    pass


def run_job(spec):
    prop, hname, p, deadline, tier = spec
    h = load_harness(prop, hname)
    res = {
        "harness": hname, "params": p, "complete": False, "mismatch": 0, "mismatches": [], "violations": [], "known": {},
        "validated": 0, "nontrivial": 0, "samples": [], "errors": [], "digests": set(), "funcs": [], "vac": 0,
    }
    if time.time() > deadline:
        res["skipped"] = True
        res["stats"] = core.Stats().as_dict()
        res["notes"] = []
        return res
    symR = h.realm(True)
    realR = h.realm(False)
    g = Engine()

    def run():
        inp = h.build(p)
        L = symR.current()
        out = execute(h, L, inp, p, True)
        try:
            fresh = h.build(p)
            h.settle(fresh, out, p)
        except Abort:
            raise
        except Exception as e:  # noqa: BLE001
            res["errors"].append("settle: " + "".join(traceback.format_exception_only(type(e), e)).strip() + _where(e))
        return out

    def on_path(out):
        a = assignment_of(g)
        fresh = h.build(p)
        inp = {k: concrete(v) for k, v in fresh.items()}
        try:
            predicted = concrete(out)
        except Exception as e:  # noqa: BLE001
            predicted = out
            res["errors"].append(f"concretise: {e!r}")
        L = realR.current()
        q = p
        if h.suspicious(predicted, p):
            q = {**p, "hard": True}
        real = execute(h, L, inp, q, False)
        pristine = {k: concrete(v) for k, v in h.build(p).items()}
        if h.same(predicted, real):
            res["validated"] += 1
        else:
            res["mismatch"] += 1
            if len(res["mismatches"]) < 3:
                res["mismatches"].append({"inputs": show(pristine), "predicted": show(predicted, 1500), "real": show(real, 1500), "assignment": a})
        try:
            problems = list(h.oracle(pristine, real, p, L))
            if h.nontrivial(pristine, real, p):
                res["nontrivial"] += 1
                res["digests"].add(hashlib.md5(repr((hname, show(pristine, 4000), show(real, 4000))).encode("utf8", "replace")).hexdigest()[:12])
        except Exception as e:  # noqa: BLE001
            res["errors"].append("oracle: " + "".join(traceback.format_exception_only(type(e), e)).strip() + _where(e))
            problems = []
        if len(res["samples"]) < 1 and g.stats.paths % 7 == 3 or (not res["samples"] and g.stats.paths == 1):
            res["samples"] = [{"harness": hname, "inputs": show(pristine, 400), "output": show(real, 500)}]
        for pr in problems:
            k = h.known(pristine, real, p, pr)
            if k is not None:
                res["known"].setdefault(k, {"problem": pr, "inputs": show(pristine, 300)})
                continue
            res["violations"].append({"problem": pr, "inputs": show(pristine, 2000), "output": show(real, 3000), "assignment": a, "params": q})
            break
        if len(res["violations"]) >= 3:
            return "stop"
        return None

    try:
        res["complete"] = g.explore(run, on_path, deadline=deadline)
    except Exception as e:  # noqa: BLE001
        res["errors"].append("engine: " + "".join(traceback.format_exception(type(e), e, e.__traceback__))[-1500:])
    res["stats"] = g.stats.as_dict()
    res["notes"] = sorted(map(str, g.notes))
    if res["violations"]:
        res["complete"] = False
    res["funcs"] = sorted(instrument.covered())
    return res


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " @ " + " < ".join(f"{os.path.basename(f.filename)}:{f.lineno}" for f in reversed(tb[-4:]))


def same(a, b):
    try:
        return bool(a == b)
    except Exception:  # noqa: BLE001
        return False


Harness.same = staticmethod(same)


# ------------------------------------------------------------------ checks
def load_check(prop):
    sys.path.insert(0, VERIF) if VERIF not in sys.path else None
    return importlib.import_module(f"checks.{prop}")


_HARNESSES: dict = {}


def load_harness(prop, name):
    if (prop, name) not in _HARNESSES:
        for cls in load_check(prop).HARNESSES:
            _HARNESSES[(prop, cls.name)] = cls(prop)
    return _HARNESSES[(prop, name)]


def _worker_init():
    signal.signal(signal.SIGINT, signal.SIG_IGN)
    sys.setrecursionlimit(20000)
    import resource

    lim = 3500 * 1024 * 1024
    resource.setrlimit(resource.RLIMIT_AS, (lim * 2, lim * 2))


def schedule(mod, tier):
    """Jobs of all harnesses, interleaved so that every harness gets its share when time is short."""
    cols = []
    for cls in mod.HARNESSES:
        h = cls(mod.__name__.rsplit(".", 1)[-1])
        cols.append([(cls.name, p) for p in h.jobs(tier)])
    out = []
    n = max((len(c) for c in cols), default=0)
    order = []
    for c in cols:
        for i, j in enumerate(c):
            order.append(((i + 0.5) / len(c) if len(c) else 0, j))
    order.sort(key=lambda t: t[0])
    out = [j for _, j in order]
    return out


def findings(prop):
    path = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(path):
        return {}
    with open(path, encoding="utf-8") as f:
        data = json.load(f)
    return {e["id"]: e for e in data["findings"] if e["property"] == prop and e.get("status", "open") == "open"}


def check(prop, tier=None):
    t0 = time.time()
    tier = tier or os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    mod = load_check(prop)
    budget = float(os.environ.get("SYMX_BUDGET", 0)) or (mod.BUDGET_THOROUGH if tier == "thorough" else mod.BUDGET)
    deadline = t0 + budget
    jobs = schedule(mod, tier)
    per_job = getattr(mod, "JOB_CAP", None)
    listed = findings(prop)
    results = []
    violations = []
    specs = [(prop, n, p, deadline, tier) for n, p in jobs]
    ctx = mp.get_context("fork")
    with ctx.Pool(WORKERS, initializer=_worker_init, maxtasksperchild=40) as pool:
        it = pool.imap_unordered(run_job, specs, chunksize=1)
        for _ in specs:
            try:
                r = it.next(timeout=max(30.0, deadline - time.time() + 120))
            except StopIteration:
                break
            except mp.TimeoutError:
                results.append(_lost("worker did not return in time"))
                break
            results.append(r)
            for v in r["violations"]:
                violations.append((r, v))
            if violations and not os.environ.get("SYMX_ALL"):
                break
        pool.terminate()
    # known findings: only those the file lists are suppressed
    for r in results:
        for k, v in r.get("known", {}).items():
            if k not in listed:
                violations.append((r, {"problem": v["problem"], "inputs": v["inputs"], "output": "", "assignment": None, "finding": k}))
    confirmed = []
    unconfirmed = []
    for r, v in violations[:6]:
        path = write_replay(prop, r, v)
        if v["assignment"] is None or replay_confirms(path):
            confirmed.append((path, v))
            break
        unconfirmed.append((path, v))
    ev = evidence(prop, mod, tier, seed, results, len(jobs), confirmed, unconfirmed, time.time() - t0, listed)
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", f"{prop}.json"), "w", encoding="utf-8") as f:
        json.dump(ev, f, indent=1, ensure_ascii=True)
    for k, e in listed.items():
        if witness_fails(prop, e, results):
            print(f"KNOWN-FINDING: property={prop} {e['what']}")
    c = ev["coverage"]
    print(
        f"{prop} tier={tier} jobs={c['jobs_run']}/{c['jobs']} complete={c['jobs_complete']} paths={c['states']} "
        f"validated={c['traces_validated_against_impl']} mismatch={c['encoding_mismatches']} queries={c['solver_queries']} "
        f"solver={c['solver_seconds']}s errors={len(c['harness_errors'])} exhaustive={c['exhaustive']} wall={ev['wall_s']}s"
    )
    if os.environ.get("SYMX_VERBOSE"):
        for m in c["mismatch_examples"][:3]:
            print("MISMATCH", json.dumps(m, indent=1))
        for m in c["harness_errors"][:5]:
            print("ERROR", m)
        for r in sorted(results, key=lambda r: -r.get("stats", {}).get("paths", 0))[:12]:
            print("  job", r["harness"], r["params"], r["complete"], r.get("stats", {}).get("paths"), r.get("stats", {}).get("infeasible"), r.get("stats", {}).get("cut"))
        print("notes", c["encoding_notes"])
    if confirmed:
        path, v = confirmed[0]
        print(f"  problem: {v['problem']}")
        print(f"  inputs:  {v['inputs']}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    if unconfirmed:
        print(f"counterexample did not reproduce: {unconfirmed[0][1]['problem']} ({unconfirmed[0][0]})")
        return 2
    if c["states"] == 0 or c["traces_validated_against_impl"] == 0:
        print("no path was decided: inconclusive")
        return 2
    return 0


def _lost(why):
    return {"harness": "?", "params": {}, "complete": False, "mismatch": 0, "mismatches": [], "violations": [], "known": {},
            "validated": 0, "nontrivial": 0, "samples": [], "errors": [why], "digests": set(), "funcs": [],
            "stats": core.Stats().as_dict(), "notes": []}


def witness_fails(prop, e, results):
    if any(e["id"] in r.get("known", {}) for r in results):
        return True
    w = e.get("witness")
    if not w:
        return False
    try:
        h = load_harness(prop, w["harness"])
        pristine, out, problems = judge(h, w["params"], w.get("assignment", {}))
        return any(h.known(pristine, out, w["params"], pr) == e["id"] for pr in problems)
    except Exception:  # noqa: BLE001
        return False


def write_replay(prop, r, v):
    d = os.path.join(VERIF, "evidence", "replay")
    os.makedirs(d, exist_ok=True)
    body = {"property": prop, "harness": r["harness"], "params": v.get("params", r["params"]), "assignment": v["assignment"],
            "problem": v["problem"], "inputs": v["inputs"], "output": v["output"],
            "how": f"cd /verif && ./check.sh --replay <this file>"}
    s = json.dumps(body, sort_keys=True)
    path = os.path.join(d, f"{prop}-{hashlib.md5(s.encode()).hexdigest()[:10]}.json")
    with open(path, "w", encoding="utf-8") as f:
        json.dump(body, f, indent=1)
    return path


def replay_confirms(path):
    for _ in range(3):
        r = subprocess.run([sys.executable, "-m", "symx.runner", "--replay", path], cwd=VERIF, capture_output=True, text=True, timeout=120)
        if r.returncode == 1:
            return True
        if os.environ.get("SYMX_VERBOSE"):
            print("replay:", r.returncode, r.stdout[-500:], r.stderr[-1500:])
    return False


def replay(path):
    with open(path, encoding="utf-8") as f:
        b = json.load(f)
    sys.setrecursionlimit(20000)
    h = load_harness(b["property"], b["harness"])
    pristine, out, problems = judge(h, b["params"], b["assignment"])
    listed = findings(b["property"])
    problems = [q for q in problems if h.known(pristine, out, b["params"], q) not in listed or h.known(pristine, out, b["params"], q) is None]
    print("inputs:", show(pristine, 5000))
    print("output:", out if isinstance(out, str) else show(out, 8000))
    for pr in problems:
        print("PROBLEM:", pr)
    return 1 if problems else 0


def evidence(prop, mod, tier, seed, results, njobs, confirmed, unconfirmed, wall, listed):
    tot = core.Stats().as_dict()
    for r in results:
        for k, v in r["stats"].items():
            tot[k] += v
    digests = set().union(*[r["digests"] for r in results]) if results else set()
    funcs = sorted({f for r in results for f in r["funcs"]})
    run = [r for r in results if not r.get("skipped")]
    complete = [r for r in run if r["complete"]]
    errors = [e for r in results for e in r["errors"]]
    samples = [s for r in run for s in r["samples"]]
    step = max(1, len(samples) // 8)
    notes = sorted({n for r in results for n in r["notes"]})
    per = {}
    for r in run:
        d = per.setdefault(r["harness"], {"jobs": 0, "complete": 0, "paths": 0, "queries": 0})
        d["jobs"] += 1
        d["complete"] += bool(r["complete"])
        d["paths"] += r["stats"]["paths"]
        d["queries"] += r["stats"]["queries"]
    exhaustive = len(run) == njobs and len(complete) == njobs and not errors and not any(r["mismatch"] for r in results)
    return {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": getattr(mod, "LEVEL", "model_checking"),
        "coverage": {
            "states": tot["paths"],
            "transitions": tot["branches"],
            "traces_validated_against_impl": sum(r["validated"] for r in results),
            "samples": samples[::step][:8],
            "explanation": "bounded symbolic execution of the package's source (regenerated on this run): states = feasible "
            "paths executed to the end, transitions = symbolic branch points decided by z3, each path's model re-run on the "
            "untouched code and compared with the output the encoding predicts",
            "evaluations": tot["paths"],
            "distinct_nontrivial": len(digests),
            "rule": getattr(mod, "RULE", "one case per feasible path; non-trivial: the harness's own test (see checks/), distinct by concrete inputs and output"),
            "exhaustive": exhaustive,
            "bounds": mod.BOUNDS,
            "jobs": njobs,
            "jobs_run": len(run),
            "jobs_complete": len(complete),
            "jobs_incomplete": [{"harness": r["harness"], "params": show(r["params"], 200)} for r in run if not r["complete"]][:40],
            "per_harness": per,
            "functions_encoded": funcs,
            "solver_queries": tot["queries"],
            "solver_sat": tot["sat"],
            "solver_unsat": tot["unsat"],
            "solver_unknown": tot["unknown"],
            "solver_seconds": round(tot["solver_s"], 2),
            "paths_infeasible": tot["infeasible"],
            "paths_cut": tot["cut"],
            "encoding_mismatches": sum(r["mismatch"] for r in results),
            "mismatch_examples": [m for r in results for m in r["mismatches"]][:3],
            "harness_errors": errors[:20],
            "encoding_notes": notes[:60],
            "nontrivial_paths": sum(r["nontrivial"] for r in results),
            "unconfirmed_counterexamples": [show(v["problem"], 300) for _, v in unconfirmed],
            "known_findings_met": sorted({k for r in results for k in r.get("known", {}) if k in listed}),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(wall, 2),
        "violations": len(confirmed),
    }


def main(argv):
    if argv and argv[0] == "--replay":
        return replay(argv[1])
    prop = argv[0]
    tier = argv[1] if len(argv) > 1 else None
    return check(prop, tier)


if __name__ == "__main__":
    from symx import runner as _r

    sys.setrecursionlimit(20000)
    sys.exit(_r.main(sys.argv[1:]))
