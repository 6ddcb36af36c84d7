"""C15: a dead time of n steps delays every action by exactly n steps within its episode."""
from collections import deque

import numpy as np

from .. import envrun as E
from .. import probe as PB
from .. import systems as S
from .. import zoo

PROPERTY = "C15"
RULE = ("random environments with dead time (one or two processors, random positions in wrapper stacks, single and multi converters, default and"
        " user-defined reset actions): a probe below each processor records the action that arrives, a queue model predicts it; the caller reuses one"
        " action buffer; plus: the drive with dead time and the drive without that gets the delayed sequence must evolve bit-identically;"
        " distinct = motor x action type x dead time x position x reset action kind")
ASSUMPTIONS = ["the order in which user-defined, non-constant reset actions are applied is not documented and not claimed"]
REQUIRE = {"delayed": 3000, "initial": 1500, "resets": 300, "twin_steps": 3000, "custom": 100, "stacked": 25, "short_episodes": 60}


def jobs(tier, seed):
    n, m, st = (16, 14, 50) if tier == "quick" else (96, 40, 150)
    return [("queue", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)] + [("twin", dict(seed=[seed, 300 + j], n=m // 2, steps=st)) for j in range(n)]


def same(a, b):
    a, b = np.asarray(a), np.asarray(b)
    return a.shape == b.shape and np.array_equal(a, b)


def zero(space):
    from gymnasium import spaces

    if isinstance(space, spaces.Discrete):
        return 0
    if isinstance(space, spaces.MultiDiscrete):
        return np.zeros(len(space.nvec), int)
    return np.zeros(space.shape)


def base_cfg(rng, c):
    kind = S.KINDS[c % 9]
    cont = bool(rng.integers(2))
    cfg = zoo.random_cfg(rng, kind=kind, cont=cont, wrappers=False, reward=False, constraints=False, state_filter=False, refs=False)
    cfg["constraints"] = []
    return cfg


def queue(res, seed, n, steps):
    import gym_electric_motor as gem
    from gym_electric_motor import physical_system_wrappers as pw

    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = base_cfg(rng, c)
        log, wrappers, dead = [], [], []  # dead: (layer index of the processor, steps, custom)
        wrappers.append(PB.mk_probe(log, 0))
        plan = ["dead"] + [str(x) for x in rng.choice(["dead", "csum", "cossin", "noise"], size=int(rng.integers(0, 3)))]
        plan = [str(x) for x in rng.permutation(plan)]
        names = list(cfg["names"])
        layer = 0
        done = set()
        custom_kind = None
        for p in plan:
            if p == "dead":
                if len(dead) == 2:
                    continue
                st = int(rng.integers(1, 7))
                r = rng.random()
                kw = {}
                if r < 0.35:
                    dummy = {}
                    rr = np.random.default_rng([*seed, c, len(dead)])
                    const = rng.random() < 0.5

                    def mk(st=st, rr=rr, const=const, dummy=dummy):
                        a = [E.freeze(dummy["act"]()) for _ in range(st)]
                        a = [a[0]] * st if const else a
                        dummy["list"] = [E.freeze(v) for v in a]
                        return a

                    kw = dict(reset_action=mk)
                    custom_kind = "const" if const else "list"
                    wrappers.append(pw.DeadTimeProcessor(steps=st, **kw))
                    dead.append((layer, st, dummy, rr))
                else:
                    wrappers.append(pw.DeadTimeProcessor(steps=st))
                    dead.append((layer, st, None, None))
            elif p in done:
                continue
            elif p == "csum" and "i_sum" not in names and len([x for x in names if x.startswith("i_")]) > 1:
                wrappers.append(pw.CurrentSumProcessor(currents=[x for x in names if x.startswith("i_")][:2]))
                names.append("i_sum")
            elif p == "cossin" and "epsilon" in names:
                wrappers.append(pw.CosSinProcessor())
            elif p == "noise":
                wrappers.append(pw.StateNoiseProcessor(states=[names[0]], random_dist="normal", random_kwargs=dict(scale=1e-3)))
            else:
                continue
            done.add(p)
            layer += 1
            wrappers.append(PB.mk_probe(log, layer))
        layers = layer + 1
        kw = zoo.kwargs(cfg)
        kw["physical_system_wrappers"] = tuple(wrappers)
        env = gem.make(cfg["env"], **kw).unwrapped
        act = S.Actions(env.action_space, rng)
        z = zero(env.action_space)
        for _, st, dummy, rr in dead:
            if dummy is not None:
                dummy["act"] = S.Actions(env.action_space, rr)
        if len(dead) == 2:
            res.count("stacked")
        buf = np.array(act(), copy=True) if isinstance(act(), np.ndarray) else None
        step_no = 0
        ep_len = 0
        while step_no < steps:
            log.clear()
            for d in dead:
                if d[2] is not None:
                    d[2].pop("list", None)
            env.reset(seed=int(rng.integers(2**31))) if rng.random() < 0.3 else env.reset()
            res.count("resets")
            queues = []
            for _, st, dummy, _ in dead:
                if dummy is None:
                    queues.append(deque([z] * st))
                else:
                    res.count("custom")
                    if not res.check("list" in dummy, "custom-reset-actions-not-used", lambda: f"the configured reset actions of a dead time of {st} steps were not asked for at the reset of {cfg['env']}"):
                        return
                    queues.append(deque(dummy["list"]))
            bags = [None if d[2] is None else list(d[2]["list"]) for d in dead]
            if PB.call(log, layers) is None:
                res.violation("inner-reset-count", f"a reset reached the layers not exactly once: {[(e[0], e[1]) for e in log]}")
            ep_len = int(rng.integers(1, 4)) if rng.random() < 0.3 else int(rng.integers(2, 25))
            if ep_len < max(d[1] for d in dead):
                res.count("short_episodes")
            k = 0
            for _ in range(ep_len):
                a = E.freeze(act())
                log.clear()
                if buf is not None:
                    buf[...] = a
                    term = env.step(buf)[2]
                    buf[...] = 1
                else:
                    term = env.step(a)[2]
                step_no += 1
                rec = PB.call(log, layers)
                if rec is None:
                    res.violation("inner-step-count", f"a step reached the layers not exactly once: {[(e[0], e[1]) for e in log]}")
                    break
                for i, (lay, st, dummy, _) in enumerate(dead):
                    inner, outer = rec[lay], rec[lay + 1]
                    queues[i].append(outer[1])
                    want = queues[i].popleft()
                    what = "initial" if k < st else "delayed"
                    res.count(what)
                    key = (cfg["env"], st, lay, dummy is None)
                    if k < st and dummy is not None:
                        hit = [j for j, b in enumerate(bags[i]) if same(b, inner[1])]
                        res.check(bool(hit), "custom-reset-action", lambda: f"step {k} of a dead time of {st}: applied {inner[1]}, user-defined reset actions left {bags[i]}", case=key)
                        if hit:
                            bags[i].pop(hit[0])
                    else:
                        res.check(same(want, inner[1]), f"{what}-action", lambda: f"{cfg['env']} step {k} of the episode, dead time {st}: the drive got {inner[1]}, expected {want}", case=key)
                    res.check(np.array_equal(inner[2], outer[2]), "state-changed", "the dead time processor modifies the state")
                k += 1
                if term or rec is None:
                    break
        if c == 0:
            res.sample(dict(env=cfg["env"], dead=[(d[0], d[1], d[2] is not None) for d in dead]))


def twin(res, seed, n, steps):
    """Dead time environment fed with a == plain environment fed with the delayed sequence (bitwise)."""
    import gym_electric_motor as gem
    from gym_electric_motor import physical_system_wrappers as pw

    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = base_cfg(rng, c + int(seed[1]) * n)
        if cfg.get("load", {}).get("kind") == "ou":
            cfg.pop("load")
        cfg.pop("supply", None)
        cfg.pop("init", None)
        if "load" in cfg:
            cfg["load"]["init"] = None
        st = int(rng.integers(1, 6))
        kw = zoo.kwargs(cfg)
        kw["physical_system_wrappers"] = (pw.DeadTimeProcessor(steps=st),)
        env = gem.make(cfg["env"], **kw).unwrapped
        ref = gem.make(cfg["env"], **zoo.kwargs(cfg)).unwrapped
        res.check(env.action_space == ref.action_space and env.observation_space == ref.observation_space, "space-changed",
                  lambda: f"{cfg['env']}: {env.action_space} {ref.action_space}")
        acts = E.action_list(env.action_space, rng, steps)
        z = zero(env.action_space)
        eps = [int(rng.integers(1, steps // 2)), steps]
        pos = 0
        for e, ln in enumerate(eps):
            s = int(rng.integers(2**31))
            s1, s2 = env.reset(seed=s)[0], ref.reset(seed=s)[0]
            res.check(np.array_equal(s1[0], s2[0]), "initial-state", lambda: f"{s1[0]} {s2[0]}")
            seq = [z] * st + acts
            for k in range(min(ln, steps)):
                o1, o2 = env.step(E.freeze(acts[k])), ref.step(E.freeze(seq[k]))
                res.count("twin_steps")
                if not res.check(np.array_equal(o1[0][0], o2[0][0], equal_nan=True), "twin", lambda: f"{cfg['env']} dead time {st} episode {e} step {k}: {o1[0][0]} != {o2[0][0]}", case=(cfg["env"], st)):
                    break
                if o1[2] or o2[2]:
                    break
