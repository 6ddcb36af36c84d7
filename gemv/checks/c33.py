"""C33: copied, wrapped and vectorised environments behave exactly like the environment they were made from."""
import copy
import pickle

import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C33"
RULE = ("(copies) a random environment is played for random episodes and deep-copied (and pickled, where its components can be pickled) before the first reset, in the middle of an episode, after a"
        " termination; original, copy and a never copied twin are then stepped, reset and re-seeded in a random interleaving, sometimes with other"
        " actions for one of them, and every returned value must be bit-identical to a solo run; (wrapped) the same environment behind the wrappers of Gymnasium (time limit, flattening, action"
        " rescaling and clipping, statistics, autoreset) against a plain twin, truncation exactly at the time limit; (vector) vectorised environments with automatic resets against plain twins;"
        " distinct = configuration x moment of the copy / wrappers / number of environments")
ASSUMPTIONS = ["visualizations are not copied", "components of the user (callables) are copyable"]
REQUIRE = {"copies": 150, "copied_steps": 6000, "mid_episode": 80, "pickled": 20, "diverged": 60, "wrapped_steps": 4000, "truncated": 100, "vector_steps": 3000, "autoresets": 60}


def jobs(tier, seed):
    n, m = (16, 14) if tier == "quick" else (80, 24)
    js = [("copies", dict(seed=[seed, j], n=m)) for j in range(n)]
    js += [("wrapped", dict(seed=[seed, 300 + j], n=m)) for j in range(n // 2)]
    js += [("vector", dict(seed=[seed, 500 + j], n=m // 2)) for j in range(n // 2)]
    return js


class Player:
    """Plays one environment step by step (resets after terminations) and records what it returns."""

    def __init__(self, env, trace=None, done=True):
        self.env, self.trace, self.done = env, list(trace or []), done

    def reset(self, seed=None):
        self.trace.append(E.freeze(self.env.reset(seed=seed)[0]))
        self.done = False

    def play(self, ev):
        """ev: ("reset", seed) or ("step", action)"""
        if ev[0] == "reset":
            self.reset(ev[1])
            return
        if self.done:
            self.reset()
        out = self.env.step(ev[1])
        self.trace.append(E.freeze(out[:4]))
        self.done = bool(out[2])


def events(env, rng, n):
    acts = E.action_list(env.action_space, rng, n)
    out = []
    for a in acts:
        if rng.random() < 0.06:
            out.append(("reset", int(rng.integers(2**31)) if rng.random() < 0.4 else None))
        out.append(("step", a))
    return out


def copies(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[(c + seed[-1]) % 9]
        cfg = zoo.random_cfg(rng, kind=kind, solver="dopri5" if rng.random() < 0.2 else None)
        s = int(rng.integers(2**31))
        env = zoo.make(cfg)
        prefix = [] if rng.random() < 0.1 else [("reset", s)] + events(env, rng, int(rng.integers(1, 50)))
        tail = [("reset", s + 1)] if not prefix else []
        tail += events(env, rng, int(rng.integers(15, 45)))
        other = ([("reset", s + 2)] if not prefix else []) + events(env, rng, len(tail))
        twin = Player(zoo.make(cfg))
        for ev in prefix + tail:
            twin.play(ev)
        a = Player(env)
        for ev in prefix:
            a.play(ev)
        moment = "new" if not prefix else "ended" if a.done else "running"
        how = "deepcopy"
        try:
            if rng.random() < 0.4:
                dup = pickle.loads(pickle.dumps(env))
                how = "pickle"
                res.count("pickled")
            else:
                dup = copy.deepcopy(env)
        except (pickle.PicklingError, AttributeError, TypeError) as e:
            if "ickle" not in str(e) and "local object" not in str(e):
                raise
            res.count("not_picklable")
            dup = copy.deepcopy(env)
        b = Player(dup, a.trace, a.done)
        res.count("copies")
        if moment == "running":
            res.count("mid_episode")
        diverge = rng.random() < 0.5
        eb = other if diverge else tail
        i = j = 0
        while i < len(tail) or j < len(eb):
            if j >= len(eb) or (i < len(tail) and rng.random() < 0.5):
                a.play(tail[i])
                i += 1
            else:
                b.play(eb[j])
                j += 1
            res.count("copied_steps")
        case = zoo.tag(cfg) + (moment, how)
        res.check(E.bits(a.trace) == E.bits(twin.trace), f"original-changed:{kind}", lambda: f"an environment does not continue like its never copied twin ({how}, {moment}): {E.first_difference(twin.trace, a.trace)} cfg {cfg}", case=case)
        if diverge:
            res.count("diverged")
            ref = Player(zoo.make(cfg))
            for ev in prefix + other:
                ref.play(ev)
        else:
            ref = twin
        res.check(E.bits(b.trace) == E.bits(ref.trace), f"copy-differs:{kind}", lambda: f"a copy ({how}, {moment}) does not continue like the original: {E.first_difference(ref.trace, b.trace)} cfg {cfg}", case=case)
        if c == 0:
            res.sample(dict(env=cfg["env"], moment=moment, how=how, steps=len(b.trace), diverged=diverge))


def flat(x):
    return np.concatenate([np.asarray(v, float).ravel() for v in x])


def wrapped(res, seed, n):
    import gym_electric_motor as gem
    from gymnasium import spaces
    from gymnasium import wrappers as gw

    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, kind=S.KINDS[(c + seed[-1]) % 9])
        limit = int(rng.integers(1, 30)) if rng.random() < 0.7 else None
        kw = zoo.kwargs(cfg)
        if limit:
            kw["max_episode_steps"] = limit
        env = gem.make(cfg["env"], **kw)
        twin = zoo.make(cfg)
        box = isinstance(twin.action_space, spaces.Box)
        used, scale, flatten, clip = [], False, False, False
        if rng.random() < 0.5:
            env, flatten = gw.FlattenObservation(env), True
            used.append("flat")
        if box and rng.random() < 0.5:
            env, scale = gw.RescaleAction(env, -3.0, 5.0), True
            used.append("rescale")
        elif box and rng.random() < 0.5:
            env, clip = gw.ClipAction(env), True
            used.append("clip")
        if rng.random() < 0.5:
            env = gw.RecordEpisodeStatistics(env)
            used.append("stats")
        s = int(rng.integers(2**31))
        lo, hi = (twin.action_space.low, twin.action_space.high) if box else (None, None)
        acts = E.action_list(twin.action_space, rng, 60)
        want, got = [], []

        def put(o, p):
            if flatten:
                want.append(flat(p)), got.append(np.asarray(o, float).ravel())
            else:
                want.append(E.freeze(p)), got.append(E.freeze(o))

        put(env.reset(seed=s)[0], twin.reset(seed=s)[0])
        k, total = 0, 0.0
        for a in acts:
            b = a
            if scale:  # the action that the wrapper is documented to map to ``a``
                b = (np.asarray(a, float) - lo) / (hi - lo) * 8.0 - 3.0
                b = np.asarray(b, env.action_space.dtype)
                a = env.action(b) if hasattr(env, "action") else find(env, gw.RescaleAction).action(b)
            elif clip:
                b = np.asarray(a, float) + np.where(np.asarray(a) >= hi, 0.5, 0.0)
                a = np.clip(b, lo, hi)
            out, ref = env.step(b), twin.step(a)
            k += 1
            total += float(ref[1])
            res.count("wrapped_steps")
            put(out[0], ref[0])
            trunc = limit is not None and k >= limit
            want.append((float(ref[1]), bool(ref[2]), trunc)), got.append((float(out[1]), bool(out[2]), bool(out[3])))
            if ref[2] or trunc:
                res.count("truncated", int(trunc))
                if "stats" in used:
                    e = out[4].get("episode", {})
                    res.close(float(np.ravel(e.get("r", np.nan))[0]), total, "episode-statistics", f"return of an episode of {cfg['env']}", 1e-9, 1e-9)
                    res.check(int(np.ravel(e.get("l", -1))[0]) == k, "episode-length", f"{cfg['env']}: recorded length {e.get('l')} of {k} steps")
                k, total = 0, 0.0
                put(env.reset()[0], twin.reset()[0])
        res.check(E.bits(want) == E.bits(got), f"wrapped-differs:{cfg['kind']}", lambda: f"{cfg['env']} behind {used} with time limit {limit}: {E.first_difference(want, got)} cfg {cfg}",
                  case=zoo.tag(cfg) + (tuple(used), limit is not None))
        if c == 0:
            res.sample(dict(env=cfg["env"], wrappers=used, limit=limit, values=len(want)))


def find(env, cls):
    while not isinstance(env, cls):
        env = env.env
    return env


def vector(res, seed, n):
    import gymnasium
    import gym_electric_motor as gem

    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, kind=S.KINDS[(c + seed[-1]) % 9], wrappers=bool(rng.integers(2)))
        k = int(rng.integers(2, 5))
        vec = gymnasium.vector.SyncVectorEnv([lambda: gem.make(cfg["env"], **zoo.kwargs(cfg)) for _ in range(k)])
        twins = [zoo.make(cfg) for _ in range(k)]
        seeds = [int(rng.integers(2**31)) for _ in range(k)]
        obs = vec.reset(seed=seeds)[0]
        last = [t.reset(seed=s)[0] for t, s in zip(twins, seeds)]
        ended = [False] * k
        acts = [E.action_list(twins[0].action_space, rng, 40) for _ in range(k)]
        ok, what = True, None
        for j in range(k):
            if not all(np.array_equal(np.asarray(o[j], float), np.asarray(l, float), equal_nan=True) for o, l in zip(obs, last[j])):
                ok, what = False, ("reset", j)
        for q in range(40):
            joint = [acts[j][q] for j in range(k)]
            out = vec.step(np.array(joint))
            for j in range(k):
                res.count("vector_steps")
                if ended[j]:  # the step after the end of an episode is its automatic reset
                    o, rew, term = twins[j].reset()[0], 0.0, False
                    res.count("autoresets")
                else:
                    o, rew, term, _, _ = twins[j].step(joint[j])
                ended[j] = bool(term)
                same = all(np.array_equal(np.asarray(x[j], float), np.asarray(y, float), equal_nan=True) for x, y in zip(out[0], o))
                same &= float(out[1][j]) == float(rew) and bool(out[2][j]) == bool(term) and not out[3][j]
                if ok and not same:
                    ok, what = False, (q, j, [x[j] for x in out[0]], o, out[1][j], rew, out[2][j], term)
        res.check(ok, f"vectorised-differs:{cfg['kind']}", lambda: f"{k} vectorised environments: (step, environment, ...) {what} cfg {cfg}", case=zoo.tag(cfg) + ("vector", k))
        vec.close()
