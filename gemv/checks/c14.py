"""C14: step counter and simulated time advance by exactly one sampling interval per step and restart with the episode."""
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C14"
RULE = ("random environments (converters with interlocking that split a step, wrapper stacks, all solver families): after every call the"
        " public step counter is the number of steps since the reset and the solver time is counter x tau; every time at which the supply"
        " and the load are evaluated lies inside of the current step; distinct = motor x converter x solver x wrapper stack")
ASSUMPTIONS = ["the solver object that is passed to the environment exposes its time t (public property)",
               "the upper bound of the evaluation times of the load is judged for Euler solvers only (adaptive solvers may probe ahead)"]
REQUIRE = {"steps": 5000, "resets": 300, "supply_times": 4000, "load_times": 4000, "split_steps": 100, "adaptive_times": 20000, "solver_families": 8}


def jobs(tier, seed):
    n, m, st = (24, 8, 60) if tier == "quick" else (120, 20, 300)
    return [("clock", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]


def mk_recording(spec, times):
    """Recording supply and load (user-defined components) with the behaviour of the configured ones."""
    from gym_electric_motor import physical_systems as ps

    sup = S.mk_supply(spec)
    inner = sup.get_voltage

    def get_voltage(t, *a, **k):
        times["supply"].append(float(t))
        return inner(t, *a, **k)

    sup.get_voltage = get_voltage
    load = S.mk_load(spec)
    ode = load.mechanical_ode

    def mechanical_ode(t, *a, **k):
        times["load"].append(float(t))
        return ode(t, *a, **k)

    load.mechanical_ode = mechanical_ode
    return sup, load


SOLVERS = [dict(kind="euler", n=1), dict(kind="euler", n=3), dict(kind="ivp"), dict(kind="ode"), dict(kind="odeint")]


def clock(res, seed, n, steps):
    import gym_electric_motor as gem

    rng = np.random.default_rng(seed)
    seen = set()
    for c in range(n):
        cfg = zoo.random_cfg(rng, spec_prob=1.0)
        spec = cfg["spec"]
        spec["solver"] = dict(SOLVERS[int(rng.integers(len(SOLVERS)))])
        spec["solver"].setdefault("n", 1)
        if spec["cont"]:
            spec["til"] = [0.0 if cv == "4QC" else t for cv, t in zip(spec["conv"], spec["til"])]
        times = dict(supply=[], load=[])
        kw = zoo.kwargs(cfg)
        kw["supply"], kw["load"] = mk_recording(spec, times)
        solver = kw["ode_solver"]
        env = gem.make(cfg["env"], **kw).unwrapped
        tau = spec["tau"]
        key = spec["solver"]["kind"]
        seen.add(key)
        euler = key == "euler"
        case = (cfg["kind"], tuple(spec["conv"]), spec["cont"], max(spec["til"]) > 0, key, tuple(w["w"] for w in cfg.get("wrappers", [])))
        res.check(env.physical_system.tau == tau, "tau", f"{env.physical_system.tau} configured {tau}")
        act = S.Actions(env.action_space, rng)
        for ep in range(3):
            times["supply"].clear(), times["load"].clear()
            env.reset()
            res.count("resets")
            res.check(env.physical_system.k == 0 and solver.t == 0, f"reset:{key}", lambda: f"k={env.physical_system.k} t={solver.t} after reset")
            res.check(all(t == 0 for t in times["supply"]), "reset:supply-time", lambda: f"{times['supply']}")
            for k in range(1, int(rng.integers(5, steps))):
                times["supply"].clear(), times["load"].clear()
                term = env.step(act())[2]
                res.count("steps")
                t0, t1 = (k - 1) * tau, k * tau
                eps = 1e-9 * tau * k + 1e-9 * tau
                res.check(env.physical_system.k == k, f"counter:{key}", f"k={env.physical_system.k} after {k} steps", case=case)
                res.check(abs(solver.t - t1) <= eps, f"time:{key}", lambda: f"t={solver.t!r} after {k} steps of {tau}: {cfg['spec']}", case=case)
                for w in ("supply", "load"):
                    if w == "load" and not euler:
                        # adaptive solvers may probe ahead, but never go back behind the start of the step
                        res.check(len(times[w]) > 0 and min(times[w]) >= t0 - eps, f"load-evaluated-before-the-step:{key}", lambda: f"step {k} [{t0}, {t1}]: evaluated at {times['load']}",
                                  case=("adaptive", key, cfg["kind"]))
                        res.count("adaptive_times", len(times[w]))
                        continue
                    tt = times[w]
                    res.count(w + "_times", len(tt))
                    ok = len(tt) > 0 and all(t0 - eps <= t <= t1 + eps for t in tt)
                    res.check(ok, f"{w}-evaluated-outside-of-the-step:{key}", lambda: f"step {k} [{t0}, {t1}]: evaluated at {tt} spec {spec}")
                if euler:
                    res.count("split_steps", int(len(times["load"]) > spec["solver"]["n"]))
                    res.check(all(b >= a - eps for a, b in zip(times["load"], times["load"][1:])) and len(set(times["load"])) >= min(spec["solver"]["n"], len(times["load"])),
                              "load-times-not-increasing", lambda: f"{times['load']}")
                if term:
                    break
        if c == 0:
            res.sample(dict(spec=spec, k=env.physical_system.k, t=solver.t))
    res.count("solver_families", len(seen))
