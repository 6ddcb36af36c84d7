"""C07: rewards follow the documented weighted sum of errors, its range and the violation penalty."""
import numpy as np

from .. import envrun as E
from .. import oracles as O
from .. import systems as S
from .. import zoo
from ..session import Session

PROPERTY = "C07"
RULE = ("every step of random and default environments: the returned reward against an independent evaluation of the documented formula"
        " on the recorded full state and reference and the violation degree; reward range containment; direct calls on random"
        " state/reference/degree triples; distinct = reward configuration x motor x violated/partial/regular")
ASSUMPTIONS = ["errors are normalised with the width of the declared state space (documented)"]
REQUIRE = {"steps": 8000, "violated": 300, "partial": 200, "powers": 500, "biased": 500, "direct": 4000, "default_envs": 54, "in_range": 2000}


def jobs(tier, seed):
    n, m, st = (24, 10, 120) if tier == "quick" else (160, 16, 400)
    js = [("envs", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]
    ids = S.ENV_IDS
    js += [("defaults", dict(seed=[seed, 400 + j], ids=ids[j::9], steps=60 if tier == "quick" else 600)) for j in range(9)]
    js += [("direct", dict(seed=[seed, 600 + j], n=40 if tier == "quick" else 200)) for j in range(8)]
    return js


def judge(res, cfg, s, rec, oracle, key):
    st, ref = rec.get("state"), rec.get("reference")
    if st is None:
        res.violation(f"no-step-event:{key}", f"{[e[:2] for e in rec['events']]}")
        return
    if not np.all(np.isfinite(st)):
        return
    d, margin = O.violation(cfg, s.names, st)
    if margin < 1e-9:
        return
    want = oracle(st, ref, d)
    res.count("steps")
    res.count("violated", int(d >= 1))
    res.count("partial", int(0 < d < 1))
    rw = cfg.get("reward") or {}
    res.count("powers", int("reward_power" in rw))
    res.count("biased", int("bias" in rw))
    res.close(rec["reward"], want, f"reward:{key}:{'violated' if d >= 1 else 'partial' if d > 0 else 'regular'}",
              lambda: f"state {dict(zip(s.names, st))} reference {ref} degree {d} reward function {rw} cfg {cfg['env']}", rtol=1e-9, atol=1e-10,
              case=(cfg["kind"], key, tuple(sorted(rw)), d >= 1, d > 0, rw.get("bias") == "positive"))
    sp = s.env.physical_system.state_space
    inside = np.all(st >= sp.low) and np.all(st <= sp.high) and np.all(ref >= np.minimum(sp.low, 0)) and np.all(ref <= sp.high)
    used = [j for j in range(len(st)) if oracle.w[j]]
    inside = all(sp.low[j] <= st[j] <= sp.high[j] and sp.low[j] <= ref[j] <= sp.high[j] for j in used)
    if inside and d == 0:
        lo, hi = s.env.reward_range
        res.count("in_range")
        res.check(lo - 1e-9 <= rec["reward"] <= hi + 1e-9, f"range:{key}", lambda: f"reward {rec['reward']} outside of {(lo, hi)} {rw}")


def static(res, env, oracle, key):
    res.close(env.reward_range, oracle.range, f"reward-range:{key}", "declared reward range", rtol=1e-9, atol=1e-10)


def envs(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, spec_prob=0.3)
        if rng.random() < 0.5:
            cfg["monitor"] = zoo.random_monitor(rng, cfg["names"])
        s = Session(cfg, rng)
        sp = s.env.physical_system.state_space
        oracle = O.reward(cfg, s.names, sp.low, sp.high)
        key = "configured" if cfg.get("reward") else "default"
        static(res, s.env, oracle, key)
        for rec in s.run(steps, reset_prob=0.02):
            if rec["type"] == "step":
                judge(res, cfg, s, rec, oracle, key)
                if rec["k"] == 2 and c == 0:
                    res.sample(dict(env=cfg["env"], reward=cfg.get("reward"), observed=rec["reward"], expected=oracle(rec["state"], rec["reference"], O.violation(cfg, s.names, rec["state"])[0])))


def defaults(res, seed, ids, steps):
    rng = np.random.default_rng(seed)
    for i in ids:
        m, t, kind, _ = i.split("-")
        cfg = dict(env=i, kind=kind, cont=m == "Cont", names=zoo.default_names(kind, m == "Cont"))
        s = Session(cfg, rng)
        sp = s.env.physical_system.state_space
        oracle = O.reward(cfg, s.names, sp.low, sp.high)
        static(res, s.env, oracle, f"default-{t}")
        for rec in s.run(steps):
            if rec["type"] == "step":
                judge(res, cfg, s, rec, oracle, f"default-{t}")
        res.count("default_envs")


def direct(res, seed, n):
    """The reward function object of an environment called on arbitrary triples, weights as dict, list or array."""
    import gym_electric_motor as gem
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[rng.integers(len(S.KINDS))]
        cont = bool(rng.integers(2))
        env_id = f"{'Cont' if cont else 'Finite'}-{S.TASKS[rng.integers(3)]}-{kind}-v0"
        names = zoo.default_names(kind, cont)
        rw = {}
        if rng.random() < 0.8:
            w = {nm: float(rng.uniform(0.05, 2)) for nm in rng.choice(names, size=int(rng.integers(1, len(names))), replace=False)}
            rw["reward_weights"] = w
        if rng.random() < 0.6:
            rw["reward_power"] = float(rng.choice([0.5, 1, 2, 3])) if rng.random() < 0.5 else {nm: float(rng.choice([0.5, 1, 2, 3])) for nm in names}
        if rng.random() < 0.5:
            rw["normed_reward_weights"] = True
        if rng.random() < 0.5:
            rw["bias"] = "positive" if rng.random() < 0.5 else float(rng.uniform(-1, 1))
        if rng.random() < 0.5:
            rw["gamma"] = float(rng.uniform(0, 0.999))
        if rng.random() < 0.4:
            rw["violation_reward"] = float(rng.uniform(-50, 5))
        arg = dict(rw)
        if "reward_weights" in rw and rng.random() < 0.4:
            full = [rw["reward_weights"].get(nm, 0.0) for nm in names]
            arg["reward_weights"] = full if rng.random() < 0.5 else np.array(full)
        rg = None
        kw = {}
        cfg = dict(env=env_id, kind=kind)
        if rng.random() < 0.5:
            cfg["ref"] = zoo.random_refs(rng, names)
            kw["reference_generator"] = zoo.mk_ref(cfg["ref"])
        rf = WeightedSumOfErrors(**arg)
        env = gem.make(env_id, visualization=(), reward_function=rf, **kw).unwrapped
        sp = env.physical_system.state_space
        oracle = O.Reward(rw, names, sp.low, sp.high, O.referenced(cfg))
        static(res, env, oracle, "direct")
        for _ in range(25):
            st = rng.uniform(-1.2, 1.2, len(names))
            ref = rng.uniform(-1, 1, len(names)) * (rng.random(len(names)) < 0.4)
            d = float(rng.choice([0.0, 1.0, rng.random()]))
            k1, k2 = st.copy(), ref.copy()
            got = env.reward_function.reward(st, ref, 3, None, d)
            res.count("direct")
            res.close(got, oracle(st, ref, d), f"reward:direct:{'full' if d == 1 else 'partial' if d else 'none'}", lambda: f"state {st} ref {ref} degree {d} {rw}", rtol=1e-9, atol=1e-10,
                      case=(kind, tuple(sorted(rw)), type(arg.get("reward_weights")).__name__))
            res.check(np.array_equal(st, k1) and np.array_equal(ref, k2), "reward:mutates-arguments", "reward modified its arguments")
