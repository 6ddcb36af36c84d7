"""C05: an episode ends exactly when the configured constraints are fully violated."""
import numpy as np

from .. import envrun as E
from .. import oracles as O
from .. import systems as S
from .. import zoo
from ..session import Session

PROPERTY = "C05"
RULE = ("every step of random and of all default environments: the returned termination flag against the violation degree that an"
        " independent evaluation of the configured constraints gives for the recorded full state; monitors are also called directly on"
        " random and on boundary states; distinct = constraint set x motor x outcome")
ASSUMPTIONS = ["decisions within 1e-9 of the boundary are not judged in simulated states (exact boundary states are judged directly)",
               "a NaN state is outside of the claim"]
REQUIRE = {"steps": 8000, "terminations": 400, "near_violations": 300, "soft_partial": 300, "direct": 4000, "boundary": 500, "default_envs": 54}


def jobs(tier, seed):
    n, m, st = (24, 10, 120) if tier == "quick" else (160, 16, 400)
    js = [("envs", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]
    js += [("direct", dict(seed=[seed, 300 + j], n=12 if tier == "quick" else 60)) for j in range(8)]
    ids = S.ENV_IDS
    js += [("defaults", dict(seed=[seed, 400 + j], ids=ids[j::9], steps=150 if tier == "quick" else 1500)) for j in range(9)]
    return js


def judge(res, cfg, names, rec, key):
    if "state" not in rec:
        res.violation(f"no-step-event:{key}", f"{[e[:2] for e in rec['events']]}")
        return
    st = rec["state"]
    if not np.all(np.isfinite(st)):
        return
    d, margin = O.violation(cfg, names, st)
    res.count("steps")
    res.count("near_violations", int(margin < 0.2))
    if margin < 1e-9 or abs(d - 1.0) < 1e-12 and d != 1.0:
        res.count("skipped_boundary")
        return
    want = d >= 1.0
    res.count("terminations", int(want))
    res.count("soft_partial", int(0 < d < 1))
    res.check(bool(rec["terminated"]) == want and not rec["truncated"], f"termination:{key}:{'missed' if want else 'spurious'}",
              lambda: f"violation degree {d}, terminated={rec['terminated']} truncated={rec['truncated']} state {dict(zip(names, st))} constraints {cfg.get('monitor') or O.constraints(cfg)}",
              case=(key, cfg["kind"], want, str(cfg.get("monitor", cfg.get("constraints")))[:80]))
    res.check(isinstance(rec["terminated"], (bool, np.bool_)), "termination:type", f"{rec['terminated']!r}")


def random_limits(rng, cfg):
    """Tight limits, so that violations of every state occur."""
    if "spec" in cfg and rng.random() < 0.7:
        kind, i = cfg["kind"], S.I_NOM[cfg["kind"]]
        keys = ["i_a", "i_e"] if kind in ("ExtExDc", "ShuntDc") else ["i", "i_e"] if kind == "EESM" else ["i"]
        cfg["spec"]["limits"] = {k: float(i * rng.uniform(0.3, 2.0)) for k in keys}
        if rng.random() < 0.4:
            # a limit of exactly one (normalised and physical value of this state are equal)
            unit = str(rng.choice([k for k in keys if k in cfg["names"]] + ["torque"]))
            cfg["spec"]["limits"][unit] = 1.0
            others = [n for n in cfg["names"] if n not in (unit, "epsilon") and n[:2] in ("i_", "i", "u", "om", "u_", "to")]
            group = [unit] + [str(x) for x in rng.choice(others, size=int(rng.integers(1, 3)), replace=False)]
            rng.shuffle(group)
            if cfg.get("monitor"):
                cfg["monitor"]["hard"] = [["squared", group]]
            else:
                cfg["constraints"] = [["squared", group]]


def envs(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, state_filter=bool(c % 2))
        if rng.random() < 0.5:
            cfg["monitor"] = zoo.random_monitor(rng, cfg["names"])
        random_limits(rng, cfg)
        s = Session(cfg, rng)
        key = ("monitor-" + cfg["monitor"]["merge"]) if cfg.get("monitor") else ("configured" if "constraints" in cfg else "default")
        for rec in s.run(steps):
            if rec["type"] == "step":
                judge(res, cfg, s.names, rec, key)
                if rec["k"] == 3 and c == 0:
                    res.sample(dict(env=cfg["env"], state=rec["state"], degree=O.violation(cfg, s.names, rec["state"]), terminated=rec["terminated"]))


def defaults(res, seed, ids, steps):
    rng = np.random.default_rng(seed)
    for i in ids:
        m, t, kind, _ = i.split("-")
        cfg = dict(env=i, kind=kind, cont=m == "Cont", names=zoo.default_names(kind, m == "Cont"))
        s = Session(cfg, rng)
        for rec in s.run(steps):
            if rec["type"] == "step":
                judge(res, cfg, s.names, rec, "default")
        res.count("default_envs")


def direct(res, seed, n):
    """Monitors evaluated on states of any kind, also exactly on the boundary."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, spec_prob=0.0, wrappers=bool(rng.integers(2)))
        if rng.random() < 0.6:
            cfg["monitor"] = zoo.random_monitor(rng, cfg["names"])
        env = zoo.make(cfg)
        names = list(env.physical_system.state_names)
        key = ("monitor-" + cfg["monitor"]["merge"]) if cfg.get("monitor") else "list"
        cs = cfg["monitor"] if cfg.get("monitor") else O.constraints(cfg)
        for _ in range(120):
            x = rng.uniform(-1, 1, len(names)) * rng.choice([0.3, 0.8, 1.0, 1.3])
            m = rng.random()
            if m < 0.3:  # a single state on / next to the boundary
                x = np.zeros(len(names))
                x[rng.integers(len(names))] = rng.choice([-1, 1]) * rng.choice([1.0, np.nextafter(1, 2), np.nextafter(1, 0), 1 + 1e-6, 1 - 1e-6])
                res.count("boundary")
            keep = x.copy()
            got = env.constraint_monitor.check_constraints(x)
            want, margin = O.violation(cfg, names, x)
            if m >= 0.3 and margin < 1e-12:
                continue
            if m < 0.3 and np.max(np.abs(x)) == np.nextafter(1, 2) and any(k[0] == "squared" for k in (cs["hard"] if isinstance(cs, dict) else cs)):
                continue
            res.count("direct")
            res.check(abs(float(got) - want) <= 1e-12 and 0.0 <= got <= 1.0, f"degree:{key}", lambda: f"degree {got} expected {want} state {dict(zip(names, x))} constraints {cs}",
                      case=(key, str(cs)[:60], want > 0))
            res.check(np.array_equal(x, keep), "degree:mutates-state", "check_constraints modified the state")
