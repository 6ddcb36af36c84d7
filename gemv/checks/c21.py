"""C21: no step without a preceding reset; a refused step has no effect."""
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C21"
RULE = ("random call sequences of step, reset, replacement of the reference generator / reward function, resets that fail in one of the components (injected fault) and termination on random"
        " environments: a step is accepted exactly in the state 'running' of the reference automaton; a refused step raises, reaches no"
        " callback, and leaves the following episodes bit-identical to those of a twin that never tried; distinct = automaton"
        " transition x motor")
ASSUMPTIONS = ["the type of the raised exception is not part of the claim"]
REQUIRE = {"refused": 400, "accepted": 4000, "refused_terminated": 100, "refused_initial": 60, "refused_replaced": 60, "refused_failed-reset": 60, "resumed": 200}


def jobs(tier, seed):
    n, m, st = (24, 8, 60) if tier == "quick" else (120, 20, 200)
    return [("automaton", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]


def refuse(res, env, log, action, why, key):
    n = len(log)
    k = env.physical_system.k if why != "initial" else None
    try:
        out = env.step(action)
    except Exception:
        out = None
    res.count("refused")
    res.count("refused_" + why)
    if out is not None:
        res.violation(f"accepted:{why}", f"a step was accepted although a reset is required ({why}): {out}")
        return
    res.check(len(log) == n, f"refused-step-reached-callbacks:{why}", lambda: f"{log[n:]}", case=(why, key))
    if k is not None:
        res.check(env.physical_system.k == k, f"refused-step-advanced:{why}", f"k {k} -> {env.physical_system.k}")


def failing_reset(res, env, twin, rng):
    """The same fault in both environments: a component raises in its reset."""
    where = str(rng.choice(["physical_system", "reference_generator", "reward_function"]))
    for e in (env, twin):
        obj = getattr(e, where)

        def boom(*a, **k):
            raise RuntimeError("injected fault")

        obj.reset = boom
        try:
            e.reset()
            res.violation("fault-swallowed", f"a failing reset of the {where} was not reported")
        except RuntimeError:
            pass
        finally:
            del obj.reset
    return where


def automaton(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng)
        log, tlog = [], []
        env = zoo.make(cfg, callbacks=(E.mk_recorder(log, "a"),))
        twin = zoo.make(cfg, callbacks=(E.mk_recorder(tlog, "a"),))
        act = S.Actions(env.action_space, rng)
        key = cfg["kind"]
        refuse(res, env, log, act(), "initial", key)
        s = int(rng.integers(2**31))
        trace, ttrace = [E.freeze(env.reset(seed=s)[0])], [E.freeze(twin.reset(seed=s)[0])]
        running = True
        for _ in range(steps):
            m = rng.random()
            if not running or m < 0.04:
                if not running:
                    for _ in range(int(rng.integers(1, 3))):
                        refuse(res, env, log, act(), "terminated", key)
                res.count("resumed", int(not running))
                trace.append(E.freeze(env.reset()[0]))
                ttrace.append(E.freeze(twin.reset()[0]))
                running = True
                continue
            if 0.08 <= m < 0.1:
                where = failing_reset(res, env, twin, rng)
                refuse(res, env, log, act(), "failed-reset", (key, where))
                trace.append(E.freeze(env.reset()[0]))
                ttrace.append(E.freeze(twin.reset()[0]))
                continue
            if m < 0.08:
                # replacing a component of a running environment requires a reset
                if rng.random() < 0.5:
                    env.reference_generator = env.reference_generator
                    twin.reference_generator = twin.reference_generator
                else:
                    env.reward_function = env.reward_function
                    twin.reward_function = twin.reward_function
                refuse(res, env, log, act(), "replaced", key)
                trace.append(E.freeze(env.reset()[0]))
                ttrace.append(E.freeze(twin.reset()[0]))
                continue
            a = act()
            try:
                o = env.step(a)
            except AssertionError as e:
                res.violation("refused-while-running", f"{e!r} at a running episode")
                break
            t = twin.step(a)
            res.count("accepted")
            trace.append(E.freeze(o[:4]))
            ttrace.append(E.freeze(t[:4]))
            running = not o[2]
        res.check(E.bits(trace) == E.bits(ttrace), f"refused-step-has-effect:{key}", lambda: E.first_difference(ttrace, trace) + f" cfg {cfg}", case=("twin", key))
        if c == 0:
            res.sample(dict(env=cfg["env"], calls=len(trace)))
