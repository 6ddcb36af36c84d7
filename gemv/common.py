"""Shared machinery: job runner, monitors' result records, evidence, violations, known findings.

A check is a module ``gemv.checks.cXX`` with

    PROPERTY, LEVEL, RULE, ASSUMPTIONS      -- constants
    REQUIRE                                 -- {counter: minimum}: what the monitors must have observed
    def jobs(tier, seed): -> list[(function_name, kwargs)]
    def <function_name>(res, **kwargs)      -- runs the real code and reports into ``res`` (a Result)

Jobs are pure functions of their keyword arguments, which makes ``replay`` files simple: function + kwargs.
"""
import hashlib
import json
import os
import signal
import sys
import time
import traceback
from collections import Counter

import numpy as np

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("GEMV_REPO", "/repo")
SRC = os.path.join(REPO, "src")


class Stop(Exception):
    """Raised to end a job after too many violations."""


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple, set)):
        return [jsonable(v) for v in x]
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    if isinstance(x, np.generic):
        return jsonable(x.item())
    if isinstance(x, float) and (x != x or x in (float("inf"), float("-inf"))):
        return repr(x)
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


class Result:
    """What one job's monitors observed."""

    MAX_VIOL = 6

    def __init__(self):
        self.evaluations = 0
        self.keys = set()
        self.counters = Counter()
        self.samples = []
        self.violations = []  # (mechanism key, message)
        self._seen = Counter()

    def case(self, key=None, n=1):
        """``n`` oracle evaluations; ``key`` (hashable) identifies a distinct nontrivial case."""
        self.evaluations += n
        if key is not None:
            self.keys.add(hashlib.blake2b(repr(key).encode(), digest_size=8).hexdigest())

    def count(self, name, n=1):
        self.counters[name] += n

    def sample(self, obj):
        if len(self.samples) < 3:
            self.samples.append(jsonable(obj))

    def violation(self, key, message):
        self._seen[key] += 1
        if self._seen[key] <= 2:
            self.violations.append((key, str(message)[:1500]))
        if sum(1 for _ in self.violations) >= 40:
            raise Stop()

    def check(self, ok, key, message, case=None):
        """One oracle evaluation."""
        self.case(case)
        if not ok:
            self.violation(key, message() if callable(message) else message)
        return bool(ok)

    def close(self, a, b, key, what, rtol=1e-9, atol=1e-12, case=None):
        """Numeric agreement of the observed ``a`` with the oracle's ``b``."""
        a = np.asarray(a, dtype=float)
        b = np.asarray(b, dtype=float)
        self.case(case)
        ok = a.shape == b.shape
        if ok:
            with np.errstate(invalid="ignore"):
                ok = bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))
        if not ok:
            self.violation(key, f"{what() if callable(what) else what}: observed {a.tolist()} expected {b.tolist()}")
        return ok


def load_check(prop):
    import importlib

    return importlib.import_module(f"gemv.checks.{prop.lower()}")


def _in_repo(tb):
    for fr in traceback.extract_tb(tb):
        if os.path.abspath(fr.filename).startswith(SRC + os.sep):
            return True
    return False


class JobTimeout(Exception):
    pass


def _alarm(*_):
    raise JobTimeout()


def run_job(prop, fn, kwargs, limit):
    """Runs in a worker process. Returns a picklable dict."""
    mod = load_check(prop)
    res = Result()
    err = None
    t0 = time.time()
    if limit:
        signal.signal(signal.SIGALRM, _alarm)
        signal.setitimer(signal.ITIMER_REAL, limit)
    try:
        with np.errstate(all="ignore"):
            getattr(mod, fn)(res, **kwargs)
    except Stop:
        pass
    except JobTimeout:
        err = f"job {fn} {kwargs} exceeded {limit} s"
    except BaseException as e:  # noqa
        tb = traceback.format_exc()
        if _in_repo(e.__traceback__):
            last = [f for f in traceback.extract_tb(e.__traceback__) if f.filename.startswith(SRC)][-1]
            res.violation(f"exception:{type(e).__name__}:{os.path.basename(last.filename)}:{last.name}",
                          f"the code under test raised {e!r} on an in-contract workload\n{tb[-1200:]}")
        else:
            err = f"harness error in {fn} {kwargs}: {tb}"
    finally:
        if limit:
            signal.setitimer(signal.ITIMER_REAL, 0)
    return dict(fn=fn, kwargs=kwargs, evaluations=res.evaluations, keys=res.keys, counters=res.counters,
                samples=res.samples, violations=res.violations, error=err, wall=time.time() - t0)


def known_findings(prop):
    path = os.path.join(ROOT, "known_findings.json")
    with open(path) as f:
        data = json.load(f)
    return {e["key"]: e for e in data["known"] if e["property"] == prop}


def run_check(prop, tier, seed, workers=8):
    import concurrent.futures as cf
    import multiprocessing as mp

    import gym_electric_motor

    loc = os.path.abspath(gym_electric_motor.__file__)
    if not loc.startswith(SRC + os.sep):
        print(f"harness error: gym_electric_motor imported from {loc}, not from {SRC}")
        return 2
    mod = load_check(prop)
    t0 = time.time()
    jobs = list(mod.jobs(tier, seed))
    limit = getattr(mod, "JOB_LIMIT", {}).get(tier, 300 if tier == "quick" else 1500)
    ctx = mp.get_context("fork")
    outs = []
    errors = []
    with cf.ProcessPoolExecutor(max_workers=workers, mp_context=ctx) as pool:
        futs = [pool.submit(run_job, prop, fn, kw, limit) for fn, kw in jobs]
        for f in futs:
            try:
                outs.append(f.result())
            except Exception as e:  # a worker died
                errors.append(f"worker died: {e!r}")
    known = known_findings(prop)
    evaluations = sum(o["evaluations"] for o in outs)
    keys = set().union(*[o["keys"] for o in outs]) if outs else set()
    counters = Counter()
    samples = []
    viol = []
    hits = Counter()
    seen_keys = Counter()
    for o in outs:
        counters.update(o["counters"])
        if o["samples"] and len(samples) < 8:
            samples.append(dict(job=o["fn"], kwargs=jsonable(o["kwargs"]), observed=o["samples"][0]))
        if o["error"]:
            errors.append(o["error"])
        for key, msg in o["violations"]:
            if key in known:
                hits[key] += 1
                continue
            seen_keys[key] += 1
            if seen_keys[key] <= 3:
                viol.append((key, msg, o["fn"], o["kwargs"]))
    # end-of-run conditions over the union of the jobs (e.g. coverage of states that a single job cannot judge)
    wall = time.time() - t0
    for key, e in known.items():
        if hits[key]:
            print(f"KNOWN-FINDING: property={prop} {e['what']} [{key}] (observed {hits[key]}x)")
        else:
            print(f"KNOWN-FINDING: property={prop} {e['what']} [{key}] (not observed in this run)")
    rdir = os.path.join(ROOT, "replays")
    os.makedirs(rdir, exist_ok=True)
    for i, (key, msg, fn, kw) in enumerate(viol[:25]):
        path = os.path.join(rdir, f"{prop}-{i}.json")
        with open(path, "w") as f:
            json.dump(dict(property=prop, key=key, message=msg, fn=fn, kwargs=jsonable(kw), seed=seed, tier=tier), f,
                      indent=1)
        print(f"VIOLATION property={prop} replay={path}")
        print(f"   {key}: {msg[:600]}")
    require = dict(getattr(mod, "REQUIRE", {}))
    missing = {k: (counters.get(k, 0), v) for k, v in require.items() if counters.get(k, 0) < v}
    cov = dict(evaluations=int(evaluations), distinct_nontrivial=len(keys), rule=mod.RULE, samples=samples,
               observed={k: int(v) for k, v in sorted(counters.items())}, jobs=len(jobs),
               known_findings_observed={k: int(v) for k, v in hits.items()},
               slowest_job_s=round(max([o["wall"] for o in outs], default=0), 2))
    ev = dict(property=prop, tier=tier, seed=seed, level=getattr(mod, "LEVEL", "exploration"), coverage=cov,
              assumptions=list(getattr(mod, "ASSUMPTIONS", [])), wall_s=round(wall, 2), violations=len(viol))
    os.makedirs(os.path.join(ROOT, "evidence"), exist_ok=True)
    with open(os.path.join(ROOT, "evidence", f"{prop}.json"), "w") as f:
        json.dump(jsonable(ev), f, indent=1)
    print(f"{prop} tier={tier} seed={seed}: {evaluations} oracle evaluations, {len(keys)} distinct nontrivial cases, "
          f"{len(jobs)} jobs, {wall:.1f} s, counters {dict(sorted(counters.items()))}")
    if viol:
        return 1
    if errors:
        for e in errors[:5]:
            print("INCONCLUSIVE:", e)
        return 2
    if missing:
        print(f"INCONCLUSIVE: the monitors observed too little: {missing}")
        return 2
    print(f"{prop}: held on everything observed")
    return 0
