"""C06: the reference the reward is computed with is the reference that was observed before the action."""
import numpy as np

from .. import envrun as E
from .. import oracles as O
from .. import systems as S
from .. import zoo
from ..session import Session

PROPERTY = "C06"
RULE = ("every step of random and default environments: the full reference array handed to callbacks (and to the reward) equals, at the"
        " referenced states and in the announced order, the reference observation returned by the previous step or reset, and is zero"
        " elsewhere; names, masks and spaces agree with the configured generators; distinct = generator structure x motor")
ASSUMPTIONS = ["the recording callback sees the reference array that the reward function gets"]
REQUIRE = {"steps": 8000, "resets": 300, "multi_refs": 1500, "switched": 300, "reward_saw_reference": 1000, "default_envs": 54, "reward_resets": 150}


def jobs(tier, seed):
    n, m, st = (24, 10, 120) if tier == "quick" else (160, 16, 400)
    js = [("envs", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]
    ids = S.ENV_IDS
    js += [("defaults", dict(seed=[seed, 400 + j], ids=ids[j::9], steps=60 if tier == "quick" else 600)) for j in range(9)]
    js += [("reward_view", dict(seed=[seed, 600 + j], n=6 if tier == "quick" else 30)) for j in range(8)]
    return js


def judge(res, cfg, s, rec, key):
    names, refd = s.names, O.referenced(cfg)
    idx = [names.index(n) for n in refd]
    if rec["type"] == "reset":
        res.count("resets")
        end = [e for e in rec["events"] if e[1] == "reset_end"]
        if len(end) != 1:
            res.violation(f"no-reset-event:{key}", f"{[e[:2] for e in rec['events']]}")
            return
        ref = end[0][3]
        res.check(len(rec["obs"][1]) == len(refd), f"reset-shape:{key}", f"reference observation {rec['obs'][1]} for {refd}")
        res.check(np.shape(ref) == (len(names),) and np.all(np.delete(ref, idx) == 0), f"reset-reference:{key}", f"reference {ref} references {refd} only")
        return
    ref = rec.get("reference")
    if ref is None:
        res.violation(f"no-step-event:{key}", f"{[e[:2] for e in rec['events']]}")
        return
    seen = rec["before"][1]
    ok = np.shape(ref) == (len(names),) and np.array_equal(np.asarray(ref)[idx], seen)
    res.count("steps")
    res.count("multi_refs", int(len(refd) > 1))
    res.count("switched", int(cfg.get("ref", {}).get("cls") == "Switched"))
    res.check(ok, f"judged-by-other-reference:{key}", lambda: f"observed reference {dict(zip(refd, seen))} before step {rec['k']}, judged by {ref} ({names}) cfg {cfg}",
              case=(cfg["kind"], key, tuple(sub["cls"] for sub in cfg.get("ref", {}).get("subs", []))))
    res.check(np.all(np.delete(ref, idx) == 0), f"unreferenced-nonzero:{key}", lambda: f"{dict(zip(names, ref))} references {refd}")


def static(res, cfg, s, key):
    env, refd = s.env, O.referenced(cfg)
    res.check(list(env.reference_names or []) == refd, f"names:{key}", f"reference_names {env.reference_names!r} expected {refd}")
    mask = np.isin(s.names, refd)
    res.check(np.array_equal(np.asarray(env.reference_generator.referenced_states, dtype=bool), mask), f"mask:{key}", f"{env.reference_generator.referenced_states} expected {mask}")
    res.check(env.observation_space[1].shape == (len(refd),) and env.observation_space[1] == env.reference_generator.reference_space, f"space:{key}",
              f"{env.observation_space[1]} vs {env.reference_generator.reference_space}")


def envs(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, spec_prob=0.3)
        if cfg.get("ref") and cfg["ref"]["cls"] == "Multiple" and rng.random() < 0.3:
            cfg["ref"]["subs"] = [zoo.random_ref(rng, [], state=x["state"]) for x in cfg["ref"]["subs"]]
        if rng.random() < 0.5:
            cfg["constraints"] = []
        key = cfg.get("ref", {}).get("cls", "default")
        s = Session(cfg, rng)
        static(res, cfg, s, key)
        for rec in s.run(steps, reset_prob=0.02):
            judge(res, cfg, s, rec, key)
            if rec["type"] == "step" and rec["k"] == 2 and c == 0:
                res.sample(dict(env=cfg["env"], ref=cfg.get("ref"), before=rec["before"][1], judged=rec.get("reference")))


def defaults(res, seed, ids, steps):
    rng = np.random.default_rng(seed)
    for i in ids:
        m, t, kind, _ = i.split("-")
        cfg = dict(env=i, kind=kind, cont=m == "Cont", names=zoo.default_names(kind, m == "Cont"))
        s = Session(cfg, rng)
        static(res, cfg, s, f"default-{t}")
        for rec in s.run(steps):
            judge(res, cfg, s, rec, f"default-{t}")
        res.count("default_envs")


def reward_view(res, seed, n):
    """What a user-defined reward function receives: state and reference of the step, step counter, action, degree."""
    from gym_electric_motor.core import RewardFunction

    rng = np.random.default_rng(seed)

    class Recording(RewardFunction):
        reward_range = (-1.0, 0.0)

        def __init__(self):
            self.log = []

        def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
            self.log.append((E.freeze(state), E.freeze(reference), k, E.freeze(action), violation_degree))
            return -0.25

        def reset(self, initial_state=None, initial_reference=None):
            self.log.append(("reset", E.freeze(initial_state), E.freeze(initial_reference)))

    import gym_electric_motor as gem

    for c in range(n):
        cfg = zoo.random_cfg(rng, reward=False, spec_prob=0.2)
        key = cfg.get("ref", {}).get("cls", "default")
        rf, log = Recording(), []
        kw = zoo.kwargs(cfg, callbacks=(E.mk_recorder(log, "r"),))
        kw["reward_function"] = rf
        env = gem.make(cfg["env"], **kw).unwrapped
        names = list(env.physical_system.state_names)
        refd = O.referenced(cfg)
        idx = [names.index(x) for x in refd]
        obs, _ = env.reset(seed=int(rng.integers(2**31)))
        reset_seen(res, rf, log, key, cfg)
        act = S.Actions(env.action_space, rng)
        k = 0
        for _ in range(60):
            a = act()
            rf.log.clear()
            prev = E.freeze(obs)
            obs, r, term, _, _ = env.step(a)
            k += 1
            ok = len(rf.log) == 1
            if ok:
                st, ref, kk, aa, d = rf.log[0]
                full = [e for e in log if e[1] == "step_end"][-1][3]
                want, margin = O.violation(cfg, names, full)
                ok = (np.array_equal(st, full) and np.array_equal(ref[idx], prev[1]) and kk == k and E.bits(aa) == E.bits(E.freeze(a))
                      and (d == want or margin < 1e-9) and r == -0.25)
            res.count("reward_saw_reference")
            res.check(ok, f"reward-function-arguments:{key}", lambda: f"step {k}: reward function saw {rf.log}, previous reference {prev[1]} ({refd}), action {a}, state {full}, degree {want}",
                      case=(cfg["kind"], "reward", key))
            if term or rng.random() < 0.04:
                rf.log.clear()
                obs, _ = env.reset()
                k = 0
                reset_seen(res, rf, log, key, cfg)


def reset_seen(res, rf, log, key, cfg):
    """The reward function's reset: once, with the episode's initial state and reference array (those the callbacks get)."""
    end = [e for e in log if e[1] == "reset_end"][-1]
    res.count("reward_resets")
    ok = len(rf.log) == 1 and rf.log[0][0] == "reset" and E.bits(rf.log[0][1]) == E.bits(end[2]) and E.bits(rf.log[0][2]) == E.bits(end[3])
    res.check(ok, f"reward-function-reset:{key}", lambda: f"reward function's resets {rf.log}, the reset's state {end[2]} and reference {end[3]}",
              case=(cfg["kind"], "reward-reset", key))
