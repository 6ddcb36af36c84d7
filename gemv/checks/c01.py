"""C01: the same seed and the same actions reproduce the whole interaction exactly."""
import json
import os
import random
import subprocess
import sys

import numpy as np

from .. import envrun as E
from .. import zoo

PROPERTY = "C01"
RULE = ("random environments; the complete interaction (observations, references, rewards, termination over several episodes) of"
        " a seeded run is compared bit for bit with: a second instance, an instance that was used before it was seeded, a run"
        " with the global random generators disturbed and other environments stepped in between, and a second process with"
        " another hash seed; distinct = environment configuration")
ASSUMPTIONS = ["bitwise equality is required on one machine with single-threaded BLAS",
               "rotating induction machines with random initial currents are excluded from 'used before seeding' (known finding C02)"]
REQUIRE = {"runs_compared": 150, "steps": 5000, "random_configs": 30, "used_instances": 30, "subprocess": 8}


def jobs(tier, seed):
    n, m = (24, 5) if tier == "quick" else (160, 10)
    return [("twice", dict(seed=[seed, j], n=m, proc=True)) for j in range(n)]


def run(cfg, s, aseed, episodes, steps, disturb=None, used=0, seeds2=None):
    env = zoo.make(cfg)
    arng = np.random.default_rng(aseed)
    if used:
        env.reset(seed=12345 + used)
        for a in E.action_list(env.action_space, np.random.default_rng(used), used):
            if env.step(a)[2]:
                env.reset()
    trace = []
    o = env.reset(seed=s)
    trace.append(E.freeze(o[0]))
    n = 0
    for ep in range(episodes):
        if ep:
            o = env.reset() if seeds2 is None else env.reset(seed=seeds2)
            trace.append(E.freeze(o[0]))
        for a in E.action_list(env.action_space, arng, steps):
            out = env.step(a)
            n += 1
            trace.append(E.freeze(out[:4]))
            if disturb:
                disturb()
            if out[2]:
                break
    return trace, n


def digest_main():
    """Subprocess entry: prints the digests of the runs described on stdin."""
    for cfg, s, aseed, eps, steps in json.load(sys.stdin):
        print(E.bits(run(cfg, s, aseed, eps, steps)[0]))


def disturber(rng, other):
    oact = E.action_list(other.action_space, rng, 1)[0]
    other.reset()

    def f():
        m = int(rng.integers(6))
        if m == 0:
            np.random.seed(int(rng.integers(1000)))
        elif m == 1:
            np.random.normal(size=3)
        elif m == 2:
            random.random()
        elif m == 3:
            other.reset()
        else:
            try:
                if other.step(oact)[2]:
                    other.reset()
            except AssertionError:
                other.reset()
    return f


def twice(res, seed, n, proc):
    rng = np.random.default_rng(seed)
    todo, want = [], []
    for c in range(n):
        cfg = zoo.random_cfg(rng)
        s = int(rng.integers(2**31)) if rng.random() < 0.8 else int(rng.integers(3))
        aseed = int(rng.integers(2**31))
        eps, steps = int(rng.integers(2, 4)), int(rng.integers(20, 60))
        a, na = run(cfg, s, aseed, eps, steps)
        res.count("steps", na)
        key = zoo.tag(cfg)

        def comp(name, b):
            res.count("runs_compared")
            res.check(E.bits(a) == E.bits(b), f"irreproducible:{name}", lambda: f"seed {s}: {E.first_difference(a, b)} cfg {cfg}", case=key)

        st = np.random.get_state()[1].tobytes(), repr(random.getstate())
        comp("same-seed", run(cfg, s, aseed, eps, steps)[0])
        st2 = np.random.get_state()[1].tobytes(), repr(random.getstate())
        res.check(st == st2, "global-generator-consumed", f"the run consumed the global random generators, cfg {cfg}")
        other = zoo.make(zoo.random_cfg(rng, kind=cfg["kind"] if rng.random() < 0.5 else None))
        comp("disturbed", run(cfg, s, aseed, eps, steps, disturb=disturber(rng, other))[0])
        comp("used-before", run(cfg, s, aseed, eps, steps, used=int(rng.integers(1, 40)))[0])
        res.count("used_instances")
        # seeding again restarts the sequence: every re-seeded episode equals the first one
        env = zoo.make(cfg)
        acts = E.action_list(env.action_space, np.random.default_rng(aseed), steps)
        traces = []
        for j in range(3):
            t = [E.freeze(env.reset(seed=s, **({}, dict(options=dict(a=1)), dict(options={}))[j])[0])]
            E.episode(env, acts, t, int(rng.integers(1, 4)) if len(traces) == 1 else steps)
            traces.append(t)
        k = min(len(t) for t in traces)
        res.check(all(E.bits(t[:k]) == E.bits(traces[0][:k]) for t in traces) and E.bits(traces[2]) == E.bits(traces[0]),
                  "irreproducible:reseeded", lambda: f"seed {s}: {E.first_difference(traces[0], traces[2])} cfg {cfg}", case=key)
        # another seed gives another sequence, where anything is random
        for s2 in (s + 1, s + 2 ** int(rng.integers(6, 70)), s + 10 ** int(rng.integers(2, 12))):
            b, _ = run(cfg, s2, aseed, eps, steps)
            differ = E.bits(a) != E.bits(b)
            res.count("random_configs", int(differ))
            res.check(differ or not surely_random(cfg), "seed-ignored", f"seeds {s} and {s2} give the same interaction although references or noise are random: cfg {cfg}")
        todo.append([cfg, s, aseed, eps, steps])
        want.append(E.bits(a))
        if c == 0:
            res.sample(dict(cfg=cfg, seed=s, digest=want[-1], entries=len(a)))
    if proc:
        e = dict(os.environ, PYTHONHASHSEED=str(int(rng.integers(1, 4e9))))
        p = subprocess.run([sys.executable, "-W", "ignore", "-c", "import numpy as np\nfrom gemv.checks import c01\n"
                            "with np.errstate(all='ignore'):\n    c01.digest_main()"], input=json.dumps(todo), text=True,
                           capture_output=True, env=e)
        if p.returncode != 0:
            raise RuntimeError(p.stderr[-2000:])
        res.count("subprocess")
        got = p.stdout.split()
        for w, g, t in zip(want, got, todo):
            res.check(w == g, "irreproducible:other-process", f"another process gave another interaction: {t}")


def surely_random(cfg):
    def r(x):
        if x is None:
            return True  # every default reference generator is random
        if x["cls"] in ("Zero", "Const"):
            return False
        if x["cls"] == "Multiple":
            return any(r(y) for y in x["subs"])
        if x["cls"] == "Switched":
            return all(r(y) for y in x["subs"])
        return x["cls"] in ("Wiener", "Laplace")
    return r(cfg.get("ref")) or any(w["w"] == "noise" for w in cfg.get("wrappers", []))
