"""C34: running an environment or a controller for a long time needs bounded memory; dropped environments are freed."""
import gc
import sys
import weakref

import numpy as np

from .. import ctrl as K
from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C34"
RULE = ("random environments (all motors, converters, loads, supplies, references, wrappers, solvers) and tuned controllers are run for thousands of steps, with long episodes and with many short"
        " ones; after a warm-up the allocated memory blocks (allocator statistics) and the bytes of all containers and arrays are read after each of several equally long windows: a quantity that grows in"
        " every window by at least one block (or 8 bytes) per 8 steps or per 2 episodes is a leak; (dropped) environments and controllers that were built, played and dropped must be collected"
        " and their number must not matter for the memory in use; distinct = configuration x kind of load")
ASSUMPTIONS = ["the Euler solver is used (the solvers of SciPy lose memory at every reset themselves)", "visualizations, which keep a history by intention, are not attached"]
REQUIRE = {"windows": 500, "steps": 70000, "episodes": 25000, "dropped": 300, "controllers": 20}
WINDOWS = 4


def jobs(tier, seed):
    n, m = (16, 3) if tier == "quick" else (64, 12)
    js = [("steps", dict(seed=[seed, j], n=m, steps=400 if tier == "quick" else 3000)) for j in range(n)]
    js += [("episodes", dict(seed=[seed, 300 + j], n=m, count=150 if tier == "quick" else 400)) for j in range(n)]
    js += [("dropped", dict(seed=[seed, 600 + j], n=m + 1)) for j in range(n // 2)]
    js += [("controllers", dict(seed=[seed, 900 + j], n=m, steps=400 if tier == "quick" else 2000)) for j in range(n // 2)]
    return js


def gauges():
    """Memory blocks of the interpreter; bytes of all its containers and of the arrays they refer to.

    (What existed at the start of the job is frozen: it is not looked at.)
    """
    gc.collect()
    gc.collect()
    blocks, size, arrays = sys.getallocatedblocks(), 0, {}
    for o in gc.get_objects():
        size += sys.getsizeof(o)
        for r in gc.get_referents(o):
            if type(r) is np.ndarray:
                arrays[id(r)] = r.nbytes
    return blocks, size + sum(arrays.values())


def measure(work):
    """-> gauges after every window of ``work(i)``"""
    out = np.zeros((WINDOWS + 1, 2))
    gauges()
    for i in range(WINDOWS + 1):
        if i:
            work(i)
        out[i] = gauges()
    return out


def judge(res, key, what, g, n, per, case):
    """A leak grows in every window, by at least one block (or 8 bytes) per ``per`` of the ``n`` events of a window."""
    res.count("windows", WINDOWS)
    lb = n / per
    for j, (name, least) in enumerate((("blocks", max(lb, 12)), ("bytes", max(8 * lb, 600 if key != "construction-leak" else 1000 * n)))):
        d = np.diff(g[:, j])
        res.check(not (d > least).all(), f"{key}-{name}", lambda: f"{what}: the memory in use ({name}) grows by {[int(x) for x in d]} in {WINDOWS} windows of {n} events each", case=case)


def mk(rng, c, **kw):
    cfg = zoo.random_cfg(rng, kind=S.KINDS[c % 9], solver="euler", **kw)
    if rng.random() < 0.5:
        cfg.pop("monitor", None)
        cfg["constraints"] = []
    if cfg.get("init") not in (None, "uniform"):  # truncnorm of SciPy keeps memory itself
        cfg["init"] = "uniform"
    if (cfg.get("load") or {}).get("init") not in (None, "uniform"):
        cfg["load"]["init"] = "uniform"
    return cfg


def steps(res, seed, n, steps):
    gc.freeze()
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = mk(rng, c + seed[-1])
        env = zoo.make(cfg)
        acts = E.action_list(env.action_space, rng, 64)
        env.reset(seed=int(rng.integers(2**31)))
        p = [0]

        def work(i, k=steps):
            step, reset = env.step, env.reset
            for q in range(k):
                if step(acts[q & 63])[2]:
                    reset()
                    p[0] += 1

        work(0, 1100)  # warm-up: buffers are filled and caches are warm
        g = measure(work)
        res.count("steps", steps * WINDOWS)
        judge(res, "step-leak", f"{cfg['env']} while stepping", g, steps, 8, zoo.tag(cfg))
        if c == 0:
            res.sample(dict(env=cfg["env"], blocks=[int(x) for x in g[:, 0]], bytes=[int(x) for x in g[:, 1]], terminations=p[0]))


def episodes(res, seed, n, count):
    gc.freeze()
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = mk(rng, c + seed[-1])
        env = zoo.make(cfg)
        acts = E.action_list(env.action_space, rng, 8)
        seeded = rng.random() < 0.3
        k = int(rng.integers(1, 4))

        def work(i, m=count):
            for q in range(m):
                env.reset(seed=q) if seeded else env.reset()
                for j in range(k):
                    if env.step(acts[(q + j) & 7])[2]:
                        break

        env.reset(seed=1)
        work(0, 60)
        g = measure(work)
        res.count("episodes", count * WINDOWS)
        judge(res, "reset-leak", f"{cfg['env']} over episodes of {k} steps{' (seeded)' if seeded else ''}", g, count, 2, zoo.tag(cfg) + ("episodes",))


def dropped(res, seed, n):
    gc.freeze()
    rng = np.random.default_rng(seed)
    for c in range(n):
        if c % 4 == 3:
            s = K.random_spec(rng)
        else:
            s, cfg = None, mk(rng, c + seed[-1])
        alive = []

        def keep(x):
            if len(alive) < 20:  # (in the warm-up only: the references themselves need memory)
                alive.append(weakref.ref(x))

        def work(i, m=5):
            for q in range(m):
                if s is not None:
                    env = K.build(s)
                    ctl = K.controller(s, env)
                    ctl.control(*K.random_obs(np.random.default_rng(q), env, 0))
                    keep(ctl)
                    del ctl
                else:
                    env = zoo.make(cfg)
                    env.reset(seed=q)
                    env.step(env.action_space.sample())
                    env.close()
                keep(env)
                res.count("dropped")
                del env

        work(0)
        work(0)
        g = measure(work)
        left = sum(a() is not None for a in alive)
        what = f"controller of {s['motor']}" if s is not None else cfg["env"]
        case = (s["motor"], s["task"], "dropped") if s is not None else zoo.tag(cfg) + ("dropped",)
        res.check(left == 0, "not-freed", lambda: f"{what}: {left} of {len(alive)} dropped objects are still in memory", case=case)
        judge(res, "construction-leak", f"building {what}", g, 5, 0.2, case)


def controllers(res, seed, n, steps):
    gc.freeze()
    rng = np.random.default_rng(seed)
    ms = K.DC + K.AC[:3]
    for c in range(n):
        s = K.random_spec(rng, motor=ms[(c + seed[-1]) % len(ms)])
        env = K.build(s)
        ctl = K.controller(s, env)
        obs = [K.random_obs(rng, env, 0) for _ in range(32)]
        res.count("controllers")

        def work(i, m=steps):
            for q in range(m):
                ctl.control(*obs[q & 31])
                if q % 50 == 49:
                    ctl.reset()

        work(0, 200)
        g = measure(work)
        judge(res, "controller-leak", f"controller of {s['motor']} {s['task']}", g, steps, 8, (s["motor"], s["task"], s["finite"], s["cc"]))
