"""Check runner: cases, violations, known findings, evidence, replay.

A check is a list of *cases* (deterministic, independently replayable units of
exhaustive exploration).  Cases run in parallel worker processes; each returns
its own measured coverage.  A case that observes a disagreement raises
Violation with the shortest history it knows.
"""
import argparse
import contextlib
import importlib
import io
import json
import multiprocessing as mp
import os
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EVID = os.environ.get("VERIF_EVID") or os.path.join(VERIF, "evidence")
KNOWN = os.path.join(VERIF, "known_findings.txt")


class Violation(Exception):
    def __init__(self, what, detail=None):
        super().__init__(what)
        self.what = what
        self.detail = detail or {}


class Known(Exception):
    """A recorded, unrepaired defect shows exactly as recorded."""

    def __init__(self, key):
        super().__init__(key)
        self.key = key


class Ctx:
    """Per-case coverage accumulator."""

    def __init__(self, tier, seed):
        self.tier = tier
        self.seed = seed
        self.thorough = tier == "thorough"
        self.states = set()
        self.trans = set()
        self.n_states = 0
        self.n_trans = 0
        self.traces = 0
        self.evals = 0
        self.nontrivial = 0
        self.outcomes = set()
        self.samples = []
        self.notes = {}

    def q(self, quick, thorough):
        return thorough if self.thorough else quick

    def sample(self, s):
        if len(self.samples) < 3:
            self.samples.append(s)

    def fail(self, what, **detail):
        raise Violation(what, detail)

    def check(self, cond, what, **detail):
        self.evals += 1
        if not cond:
            raise Violation(what, detail)

    def stats(self):
        return dict(states=len(self.states) + self.n_states, transitions=len(self.trans) + self.n_trans,
                    traces=self.traces, evals=self.evals, nontrivial=self.nontrivial,
                    outcomes=len(self.outcomes), samples=self.samples, notes=self.notes)


class Case:
    def __init__(self, name, fn, *args, **kw):
        self.name, self.fn, self.args, self.kw = name, fn, args, kw


def jsonable(o):
    import numpy as np
    try:
        import torch
    except Exception:  # pragma: no cover
        torch = None
    if isinstance(o, dict):
        return {str(k): jsonable(v) for k, v in o.items()}
    if isinstance(o, (list, tuple, set)):
        return [jsonable(v) for v in o]
    if isinstance(o, np.ndarray):
        return jsonable(o.tolist()) if o.size <= 400 else repr(o)
    if isinstance(o, (np.integer,)):
        return int(o)
    if isinstance(o, (np.floating,)):
        return float(o)
    if torch is not None and isinstance(o, torch.Tensor):
        return jsonable(o.detach().tolist()) if o.numel() <= 400 else repr(o)
    if isinstance(o, (str, int, float, bool)) or o is None:
        return o
    return repr(o)


_CASES = None
_TIER = None
_SEED = None


def _run_case(i):
    import torch
    torch.set_num_threads(1)
    torch.manual_seed(_SEED)
    import numpy as np
    np.random.seed(_SEED % (2 ** 32))
    case = _CASES[i]
    ctx = Ctx(_TIER, _SEED)
    t0 = time.time()
    buf = io.StringIO()
    res = dict(name=case.name, violation=None, known=[], error=None)
    try:
        with contextlib.redirect_stdout(buf):
            case.fn(ctx, *case.args, **case.kw)
    except Violation as v:
        res["violation"] = dict(what=v.what, detail=jsonable(v.detail))
    except Known as k:
        res["known"].append(k.key)
    except (MemoryError, OSError) as e:
        res["error"] = traceback.format_exc()
    except BaseException as e:  # the code under test raised, or returned something unusable
        tb = traceback.format_exc()
        res["violation"] = dict(what="%s raised on a valid configuration: %s" % (type(e).__name__, str(e)[:300]),
                                detail=dict(traceback=tb[-4000:]))
    res["stats"] = ctx.stats()
    res["wall"] = time.time() - t0
    return i, res


def known_keys(prop):
    keys = []
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if line.startswith("known: property=%s " % prop):
                rest = line.split(" ", 2)[2]
                key, _, text = rest.partition(" -- ")
                keys.append((key.strip(), text.strip()))
    return dict(keys)


def run(prop, argv=None):
    global _CASES, _TIER, _SEED
    ap = argparse.ArgumentParser()
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--case")
    ap.add_argument("--replay")
    ap.add_argument("--jobs", type=int, default=int(os.environ.get("VERIF_JOBS", "0")) or (os.cpu_count() or 4))
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args(argv)
    tier = "thorough" if a.tier == "thorough" else "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = a.case
    if a.replay:
        r = json.load(open(a.replay))
        only, tier = r["case"], r["tier"]
        seed = r.get("seed", seed)
    _TIER, _SEED = tier, seed
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    level = "exploration"
    results = []
    try:
        from . import repo
        try:
            repo.load()
            import torch
            torch.set_num_threads(1)
        except (MemoryError, OSError):
            raise
        except BaseException as e:
            results = [dict(name="import", known=[], error=None, wall=0, stats=Ctx(tier, seed).stats(),
                            violation=dict(what="the package cannot be imported: %r" % (e,),
                                           detail=dict(traceback=traceback.format_exc()[-4000:])))]
        mod = None
        if not results:
            mod = importlib.import_module("mc.checks." + prop.lower())
            level = mod.LEVEL
            cases = mod.cases(tier)
            names = [c.name for c in cases]
            assert len(set(names)) == len(names), "duplicate case names"
            if only:
                cases = [c for c in cases if c.name == only]
                assert cases, "no such case"
            _CASES = cases
            jobs = max(1, min(a.jobs, len(cases)))
            res = [None] * len(cases)
            if jobs == 1:
                for i in range(len(cases)):
                    _, res[i] = _run_case(i)
            else:
                with mp.get_context("fork").Pool(jobs) as pool:
                    for i, r in pool.imap_unordered(_run_case, range(len(cases)), chunksize=1):
                        res[i] = r
            results = res
    except Exception:
        traceback.print_exc()
        print("ERROR: harness failure in check %s" % prop)
        return 2

    errors = [r for r in results if r["error"]]
    viols = [r for r in results if r["violation"]]
    known = known_keys(prop)
    seen_known = []
    for r in results:
        for k in r["known"]:
            if k in known:
                if k not in seen_known:
                    seen_known.append(k)
            else:
                r["violation"] = dict(what="defect not in the known-findings file: " + k, detail={})
                viols.append(r)
    tot = {k: sum(r["stats"][k] for r in results) for k in ("states", "transitions", "traces", "evals", "nontrivial", "outcomes")}
    samples = []
    for r in results:
        for s in r["stats"]["samples"]:
            if len(samples) < 12:
                samples.append(jsonable(dict(case=r["name"], sample=s)))
    rule = getattr(mod, "RULE", "") if mod else ""
    cov = dict(cases=len(results), case_names=[r["name"] for r in results][:200], distinct_outcomes=tot["outcomes"],
               exhaustive=True, samples=samples or ["none"], bounds=getattr(mod, "BOUNDS", "") if mod else "", rule=rule)
    if level == "model_checking":
        cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"],
                   evaluations=tot["evals"])
    else:
        cov.update(evaluations=tot["evals"], distinct_nontrivial=tot["nontrivial"])
        if tot["states"]:
            cov.update(states=tot["states"], transitions=tot["transitions"], traces_validated_against_impl=tot["traces"])
    notes = {}
    for r in results:
        for k, v in r["stats"]["notes"].items():
            notes[r["name"] + ": " + k] = jsonable(v)
    if notes:
        cov["notes"] = dict(list(notes.items())[:60])
    ev = dict(property=prop, tier=tier, seed=seed, level=level, coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])) if mod else [],
              wall_s=round(time.time() - t0, 2), violations=len(viols))
    if not only:
        tmp = os.path.join(EVID, ".%s.%d" % (prop, os.getpid()))
        json.dump(ev, open(tmp, "w"), indent=1)
        os.replace(tmp, os.path.join(EVID, prop + ".json"))
    if a.v:
        for r in sorted(results, key=lambda r: -r["wall"])[:15]:
            print("  %6.1fs %s" % (r["wall"], r["name"]), {k: v for k, v in r["stats"].items() if k not in ("samples", "notes")})
    for k in seen_known:
        print("KNOWN-FINDING: property=%s %s -- %s" % (prop, k, known[k]))
    shown = 0
    for n, r in enumerate(viols):
        if shown >= 5:
            print("... and %d more violating cases" % (len(viols) - shown))
            break
        shown += 1
        path = os.path.join(EVID, "replay-%s-%d.json" % (prop, n))
        json.dump(dict(property=prop, case=r["name"], tier=tier, seed=seed, what=r["violation"]["what"],
                       detail=r["violation"]["detail"],
                       replay_cmd="cd /verif && ./check %s --replay %s" % (prop, path)), open(path, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  case %s: %s" % (r["name"], r["violation"]["what"]))
    print("%s %s: %d cases, %d states, %d transitions, %d impl traces, %d evaluations, %d outcomes, %.1fs -> %s" % (
        prop, tier, len(results), tot["states"], tot["transitions"], tot["traces"], tot["evals"], tot["outcomes"],
        time.time() - t0, "VIOLATED" if viols else ("ERROR" if errors else "held")))
    if viols:
        return 1
    if errors:
        print(errors[0]["error"])
        return 2
    return 0
