"""C02: the random course of an episode depends on the seed and its number only, not on how long the earlier ones ran."""
import numpy as np

from .. import envrun as E
from .. import zoo

PROPERTY = "C02"
RULE = ("random environments are seeded and led through different histories (lengths, actions, terminations) before episode n;"
        " from there both get the same actions and the recorded episodes (states, references, rewards, terminations) must be"
        " identical bit for bit; distinct = configuration x episode number x kind of history")
ASSUMPTIONS = ["callbacks that change the environment depending on the number of steps (RampingLimitMargin 'step') are excluded by design",
               "loads and noise are part of the comparison, i.e. also their draws restart at the episode boundaries"]
REQUIRE = {"pairs": 150, "steps": 5000, "different_histories": 150, "random_inits": 15, "random_loads": 10}


def jobs(tier, seed):
    n, m = (24, 9) if tier == "quick" else (160, 16)
    return [("histories", dict(seed=[seed, j], n=m)) for j in range(n)] + [("induction", dict(seed=[seed, 900]))]


def play(cfg, s, n_before, last, hist_seed, mode, steps):
    """-> (trace of episode number n_before, number of steps before)"""
    env = zoo.make(cfg)
    rng = np.random.default_rng(hist_seed)
    first = env.reset(seed=s)[0]
    before = 0
    for _ in range(n_before):
        n = dict(none=0, one=1, short=int(rng.integers(2, 8)), long=int(rng.integers(30, 90)))[mode]
        for a in E.action_list(env.action_space, rng, n):
            before += 1
            if env.step(a)[2]:
                break
        first = env.reset()[0]
    trace = [E.freeze(first)]
    E.episode(env, last(env), trace, steps)
    return trace, before


def histories(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng)
        s = int(rng.integers(2**31))
        nb = int(rng.integers(1, 4))
        aseed = int(rng.integers(2**31))
        steps = int(rng.integers(30, 90))

        def last(env):
            return E.action_list(env.action_space, np.random.default_rng(aseed), steps)

        ref = None
        for mode in ("none", "one", "short", "long"):
            t, before = play(cfg, s, nb, last, int(rng.integers(2**31)), mode, steps)
            res.count("steps", before + len(t))
            if ref is None:
                ref = t
                continue
            res.count("pairs")
            res.count("different_histories", int(before > 0))
            res.check(E.bits(t) == E.bits(ref), f"history-dependent:{where(ref, t, cfg)}",
                      lambda: f"episode {nb} of seed {s} differs after a '{mode}' history: {E.first_difference(ref, t)} cfg {cfg}",
                      case=(zoo.tag(cfg), nb, mode))
        # successive episodes are not all the same
        res.count("random_inits", int(bool(cfg.get("init")) or bool((cfg.get("load") or {}).get("init"))))
        res.count("random_loads", int((cfg.get("load") or {}).get("kind") == "ou"))
        if c == 0:
            res.sample(dict(cfg=cfg, seed=s, episode=nb, first=ref[0]))


def where(a, b, cfg):
    """Which part of the interaction differs first."""
    for i, (x, y) in enumerate(zip(a, b)):
        if E.bits(x) != E.bits(y):
            o1, o2 = (x, y) if i == 0 else (x[0], y[0])
            when = "initial" if i == 0 else "step"
            if E.bits(o1[0]) != E.bits(o2[0]):
                return when + "-state"
            if E.bits(o1[1]) != E.bits(o2[1]):
                return when + "-reference:" + cfg.get("ref", {}).get("cls", "default")
            return when + "-reward-or-termination"
    return "length"


def induction(res, seed):
    """Rotating induction machine with random initial currents: the flux bound uses the previous episode's currents."""
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for c in range(6):
        init = []
        for mode in range(2):
            env = gem.make("Cont-CC-SCIM-v0", visualization=(), load=ps.ConstantSpeedLoad(omega_fixed=-60.0 - 10 * c),
                           motor=dict(motor_initializer=dict(random_init="uniform"))).unwrapped
            if mode:
                env.reset()
                env.reset()
            env.reset(seed=c)
            init.append(np.array(env.physical_system.unwrapped._ode_solver.y))
        same = np.array_equal(init[0], init[1])
        res.check(same, "induction-random-init-flux-bound", f"initial ODE state {init[0].tolist()} vs {init[1].tolist()} after earlier episodes")
