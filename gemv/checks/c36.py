"""C36: a configuration that does not fit the system is refused, with nothing simulated and nothing left behind."""
import gymnasium
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C36"
RULE = ("a random valid configuration and the same configuration with one mistake: a state that this system does not observe (in constraints, filters, references, rewards, noise, wrappers, plots, initial values), a"
        " parameter that this motor or load does not have, sizes that do not match, probabilities that do not sum to one, overlapping references, initial values outside the permitted range, supplies without"
        " their parameters, unknown ids. The construction or the first reset of the mistaken one has to raise; the corrected twin has to run, and to run exactly as before the refusal;"
        " distinct = mistake x class x configuration")
ASSUMPTIONS = ["which exception is raised is not judged"]
REQUIRE = {"refused": 1200, "accepted": 1200, "constraints": 100, "state_filter": 40, "references": 150, "rewards": 100, "wrappers": 110, "parameters": 100, "initial": 50, "supply": 20, "plots": 6, "id": 2, "arguments": 350}


def jobs(tier, seed):
    return ([("mistakes", dict(seed=[seed, j], n=40 if tier == "quick" else 500)) for j in range(32)]
            + [("arguments", dict(seed=[seed, 500 + j], n=60 if tier == "quick" else 600)) for j in range(8)])


# what exists in other systems or resembles a name; none of them is a name of the system at hand
EVERY = ["omega", "torque", "i", "i_a", "i_e", "i_sd", "i_sq", "i_sa", "i_sb", "i_b", "u", "u_a", "u_e", "u_sd", "u_sa", "u_sup", "epsilon", "i_sum", "psi_abs", "psi_angle", "cos(epsilon)", "i_ra", "u_rq", "psi_rd"]


def foreign(rng, names):
    pool = [n for n in EVERY if n not in names]
    base = str(rng.choice(list(names)))
    pool += [n for n in (base + " ", base + "_", base[:-1], base + "s") if n not in names and n]
    return str(rng.choice(pool))


def mix(rng, names, bad, k=2):
    """A list of k valid names with the foreign one at a random place, and the valid twin."""
    good = [str(x) for x in rng.choice(list(names), size=min(k, len(names)), replace=False)]
    out = list(good)
    out.insert(int(rng.integers(len(out) + 1)), bad)
    return out, good


def motor_parameters(env):
    return list(env.physical_system.unwrapped.electrical_motor.motor_parameter)


def mistake(rng, cfg, probe):
    """-> group, kind, keyword arguments with the mistake, keyword arguments of the corrected twin"""
    import gym_electric_motor as gem
    from gym_electric_motor import physical_system_wrappers as pw
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor import reference_generators as rg
    from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    names = cfg["names"]
    refable = [n for n in names if not n.startswith("psi_")]
    bad = foreign(rng, names)
    g = str(rng.choice(["constraints", "state_filter", "references", "rewards", "wrappers", "parameters", "initial", "supply", "plots", "id"],
                       p=[0.14, 0.06, 0.2, 0.14, 0.16, 0.13, 0.09, 0.05, 0.02, 0.01]))
    inner = [n for n in refable if n != "i_sum"]  # the sum of the currents of a shunt motor is appended behind the wrappers of the user
    both, only = mix(rng, inner if g == "wrappers" else refable, bad, int(rng.integers(0, 3)))
    good = str(rng.choice(inner if g == "wrappers" else refable))
    kind = cfg["kind"]
    old = {k: v for k, v in zoo.kwargs(cfg).items() if k in ("physical_system_wrappers",)}
    wrap = lambda w: dict(physical_system_wrappers=tuple(old.get("physical_system_wrappers", ())) + (w,))
    single = [rg.WienerProcessReferenceGenerator, rg.SinusoidalReferenceGenerator, rg.StepReferenceGenerator, rg.TriangularReferenceGenerator, rg.SawtoothReferenceGenerator,
              rg.LaplaceProcessReferenceGenerator, rg.ConstReferenceGenerator]
    gen = lambda s, c=None: (c or single[int(rng.integers(len(single)))])(reference_state=s)
    if g == "constraints":
        m = int(rng.integers(3))
        if m == 0:
            return g, "name", dict(constraints=tuple(both)), dict(constraints=tuple(only))
        if m == 1:
            return g, "limit", dict(constraints=(LimitConstraint(both),)), dict(constraints=(LimitConstraint(only or [good]),))
        return g, "squared", dict(constraints=(SquaredConstraint(tuple(both)),)), dict(constraints=(SquaredConstraint(tuple(only or [good])),))
    if g == "state_filter":
        return g, "filter", dict(state_filter=both), dict(state_filter=only or [good])
    if g == "references":
        m = int(rng.integers(6))
        if m == 0:
            c = single[int(rng.integers(len(single)))]
            return g, "state", dict(reference_generator=gen(bad, c)), dict(reference_generator=gen(good, c))
        if m == 1:
            subs = [str(x) for x in rng.choice(refable, size=2, replace=False)]
            wrong = list(subs)
            wrong[int(rng.integers(2))] = bad
            return g, "multiple", dict(reference_generator=rg.MultipleReferenceGenerator([gen(s) for s in wrong])), dict(reference_generator=rg.MultipleReferenceGenerator([gen(s) for s in subs]))
        if m == 2:
            a, b = (str(x) for x in rng.choice(refable, size=2, replace=False))
            return g, "overlap", dict(reference_generator=rg.MultipleReferenceGenerator([gen(a), gen(b), gen(a)])), dict(reference_generator=rg.MultipleReferenceGenerator([gen(a), gen(b)]))
        if m == 3:
            a, b = (str(x) for x in rng.choice(refable, size=2, replace=False))
            return g, "switched-states", (lambda: dict(reference_generator=rg.SwitchedReferenceGenerator([gen(a), gen(b)]))), dict(reference_generator=rg.SwitchedReferenceGenerator([gen(a), gen(a)]))
        p = [0.3, 0.7]
        w = [[0.3], [0.3, 0.6], [0.3, 0.3, 0.4], [-0.3, 1.3], [0.5, 0.7]][int(rng.integers(5))]
        sw = lambda q: dict(reference_generator=rg.SwitchedReferenceGenerator([gen(good), gen(good)], p=q))
        return g, "probabilities", sw(w), sw(p)
    if g == "rewards":
        m = int(rng.integers(3))
        wd = lambda s: {x: float(rng.uniform(0.1, 1)) for x in s}
        if m == 0:
            return g, "weights", dict(reward_function=WeightedSumOfErrors(reward_weights=wd(both))), dict(reward_function=WeightedSumOfErrors(reward_weights=wd(only or [good])))
        if m == 1:
            return (g, "power", dict(reward_function=WeightedSumOfErrors(reward_weights=wd([good]), reward_power=wd(both))),
                    dict(reward_function=WeightedSumOfErrors(reward_weights=wd([good]), reward_power=wd(only or [good]))))
        k = len(names) + int(rng.choice([-1, 1, 3]))
        return (g, "weights-length", dict(reward_function=WeightedSumOfErrors(reward_weights=[0.5] * k)), dict(reward_function=WeightedSumOfErrors(reward_weights=[0.5] * len(names))))
    if g == "wrappers":
        m = int(rng.integers(6))
        if m == 0:
            return g, "noise", wrap(pw.StateNoiseProcessor(states=both)), wrap(pw.StateNoiseProcessor(states=only or [good]))
        if m == 1:
            dist = str(rng.choice(["gaussian", "Normal", "", "white"]))
            return (g, "noise-distribution", (lambda: wrap(pw.StateNoiseProcessor(states=[good], random_dist=dist))),
                    wrap(pw.StateNoiseProcessor(states=[good], random_dist=str(rng.choice(["normal", "uniform", "laplace"])))))
        if m == 2:
            steps = int(rng.choice([0, -1, -3]))
            return g, "dead-time", (lambda: wrap(pw.DeadTimeProcessor(steps=steps))), wrap(pw.DeadTimeProcessor(steps=int(rng.integers(1, 4))))
        if m == 3:
            return g, "sum", wrap(pw.CurrentSumProcessor(both if only else [bad])), wrap(pw.CurrentSumProcessor(only or [good]))
        if m == 4:
            return g, "angle", wrap(pw.CosSinProcessor(angle=bad)), wrap(pw.CosSinProcessor(angle=good))
        if kind in S.DC:
            return g, "flux-observer", wrap(pw.FluxObserver()), {}
        if kind in S.IND:
            return g, "angle", wrap(pw.CosSinProcessor(angle=bad)), wrap(pw.CosSinProcessor(angle=good))
        return g, "flux-observer", wrap(pw.FluxObserver()), {}
    mp = motor_parameters(probe)
    if g == "parameters":
        other = [k for k in ("r_a", "r_e", "l_a", "l_e", "l_e_prime", "psi_e", "l_d", "l_q", "l_m", "p", "r_s", "r_r", "l_sigs", "l_sigr", "psi_p", "k", "R_a", "j", "J_rotor") if k not in mp]
        m = int(rng.integers(4))
        if m == 0:
            return (g, "motor", dict(motor=dict(motor_parameter={str(rng.choice(other)): 0.01})), dict(motor=dict(motor_parameter={"j_rotor": 0.01})))
        if m == 1:
            return (g, "limit", dict(motor=dict(limit_values={bad if bad[:2] not in ("i", "u", "i_", "u_", "ep") else "i_x": 10.0})), dict(motor=dict(limit_values={"omega": 500.0})))
        if m == 2:
            return (g, "nominal", dict(motor=dict(nominal_values={bad if bad[:2] not in ("i", "u", "i_", "u_", "ep") else "i_x": 10.0})), dict(motor=dict(nominal_values={"omega": 300.0})))
        lp = str(rng.choice(["d", "J_load", "omega", "A", "j"]))
        return (g, "load", (lambda: dict(load=ps.PolynomialStaticLoad(load_parameter={lp: 0.1}))),
                dict(load=ps.PolynomialStaticLoad(load_parameter={str(rng.choice(["a", "b", "c", "j_load"])): 0.1})))
    if g == "initial":
        m = int(rng.integers(3))
        lim = float(probe.limits[list(probe.state_names).index("omega")])
        if m == 0:
            v = float(rng.choice([1.5, 10.0, -3.0, np.nan])) * lim
            return (g, "speed", dict(load=ps.PolynomialStaticLoad(load_initializer=dict(states={"omega": v}))),
                    dict(load=ps.PolynomialStaticLoad(load_initializer=dict(states={"omega": 0.0}))))
        if m == 1:
            ls = str(rng.choice(["Omega", "w", "speed", "omega_load"]))
            return (g, "load-state", (lambda: dict(load=ps.PolynomialStaticLoad(load_initializer=dict(states={ls: 1.0})))),
                    dict(load=ps.PolynomialStaticLoad(load_initializer=dict(states={"omega": 0.0}))))
        if kind in S.IND:
            cur = {"i_salpha": 0.0, "i_sbeta": 0.0, "psi_ralpha": 0.0, "psi_rbeta": 0.0, "epsilon": 0.0}
        elif kind in S.SYNC:
            cur = {"i_sd": 0.0, "i_sq": 0.0, "epsilon": 0.0}
            if kind == "EESM":
                cur = {"i_sd": 0.0, "i_sq": 0.0, "i_e": 0.0, "epsilon": 0.0}
        else:
            cur = {"i_a": 0.0, "i_e": 0.0} if kind in ("ExtExDc", "ShuntDc") else {"i": 0.0}
        key = [k for k in cur if k.startswith("i")][0]
        wrong = dict(cur)
        wrong[key] = float(rng.choice([1e5, -1e5]))
        return g, "current", dict(motor=dict(motor_initializer=dict(states=wrong))), dict(motor=dict(motor_initializer=dict(states=cur)))
    if g == "supply":
        m = int(rng.integers(2))
        if m == 0:
            full = dict(R=1.0, C=4e-3)
            missing = str(rng.choice(["R", "C"]))
            part = {k: v for k, v in full.items() if k != missing}
            return g, "rc", (lambda: dict(supply=ps.RCVoltageSupply(60.0, part))), dict(supply=ps.RCVoltageSupply(60.0, full))
        key = str(rng.choice(["frequenz", "f", "omega", "Phase"]))
        return (g, "ac", (lambda: dict(supply=ps.AC1PhaseSupply(60.0, {key: 50.0}))),
                dict(supply=ps.AC1PhaseSupply(60.0, {"frequency": 50.0})))
    if g == "plots":
        from gym_electric_motor.visualization import MotorDashboard

        return (g, "state", (lambda: dict(visualization=MotorDashboard(state_plots=both))), (lambda: dict(visualization=MotorDashboard(state_plots=only or [good]))))
    e = cfg["env"].split("-")
    w = int(rng.integers(4))
    e[w] = [e[w].lower(), e[w] + "X", "Torque", "v7"][int(rng.integers(4))] if w < 3 else "v7"
    return g, "id", dict(_id="-".join(e)), {}


def keep(cfg):
    """The base configuration without what a mistake would replace."""
    return {k: v for k, v in zoo.kwargs(cfg).items() if k not in ("visualization", "callbacks")}


def run(eid, kw, seed, acts=None):
    import gym_electric_motor as gem

    kw = dict(kw)
    eid = kw.pop("_id", eid)
    kw.setdefault("visualization", ())
    env = gem.make(eid, **kw).unwrapped
    out = [env.reset(seed=seed)]
    for a in acts or ():
        o = env.step(a)
        out.append(o)
        if o[2]:
            break
    return env, out


def mistakes(res, seed, n):
    import matplotlib

    matplotlib.use("Agg")
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, kind=S.KINDS[(c + seed[-1]) % 9], init=False, spec_prob=0.0, refs=False, reward=False, constraints=False, state_filter=False)
        cfg.pop("load", None), cfg.pop("init", None), cfg.pop("supply", None)
        s = int(rng.integers(2**31))
        if any(w.get("remove") for w in cfg.get("wrappers", [])):  # the angle might be a default reference or constraint
            cfg["ref"] = zoo.random_refs(rng, [x for x in cfg["names"] if not x.startswith("psi_")])
        probe, _ = run(cfg["env"], keep(cfg), s)
        m0 = np.random.default_rng(rng.integers(2**31))
        sub = int(m0.integers(2**31))
        group, kind, wrong, right = mistake(np.random.default_rng(sub), cfg, probe)
        # the twin built from the same random numbers, before and after the refusal
        acts = E.action_list(probe.action_space, rng, 3) if group != "wrappers" else None
        make = lambda kw: {**keep(cfg), **(kw() if callable(kw) else kw)}
        try:
            env, first = run(cfg["env"], make(right), s, acts)
        except Exception as e:
            res.check(False, f"valid-refused:{group}:{kind}", f"{cfg['env']} {group} {kind}: the valid configuration raises {e!r:.200}", case=(cfg["env"], group, kind))
            continue
        res.count("accepted")
        raised = None
        try:
            run(cfg["env"], make(wrong), s)
        except Exception as e:
            raised = e
        res.check(raised is not None, f"accepted:{group}:{kind}", lambda: f"{cfg['env']} {group} {kind}: accepted without an error: {describe(wrong)} (states {list(env.state_names)})", case=(cfg["env"], group, kind, zoo.tag(cfg)))
        res.count("refused")
        res.count(group)
        _, _, _, again = mistake(np.random.default_rng(sub), cfg, probe)
        _, second = run(cfg["env"], make(again), s, acts)
        same = len(first) == len(second) and all(E.bits(x) == E.bits(y) for x, y in zip(first, second))
        res.check(same, f"left-behind:{group}:{kind}", lambda: f"{cfg['env']} {group} {kind}: after the refusal the valid configuration gives {second[-1]} instead of {first[-1]}")


def argument(rng):
    """-> label, a function with an argument outside its documented values, the function with a documented one.
    Both build a component and, as far as the component judges its argument later, an environment with it."""
    from gym_electric_motor import physical_system_wrappers as pw
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor import reference_generators as rg
    from gym_electric_motor.constraints import LimitConstraint
    from gym_electric_motor.core import ConstraintMonitor
    from gym_electric_motor.visualization import MotorDashboard
    from gym_electric_motor.visualization.motor_dashboard_plots import MeanEpisodeRewardPlot, StatePlot

    pick = lambda *x: x[int(rng.integers(len(x)))]
    single = pick(rg.WienerProcessReferenceGenerator, rg.SinusoidalReferenceGenerator, rg.StepReferenceGenerator, rg.TriangularReferenceGenerator, rg.SawtoothReferenceGenerator,
                  rg.LaplaceProcessReferenceGenerator)
    eid = f"{pick('Cont', 'Finite')}-{pick(*S.TASKS)}-{pick(*S.KINDS)}-v0"
    ac = pick("PMSM", "SynRM", "SCIM", "EESM")
    acid = f"Cont-{pick(*S.TASKS)}-{ac}-v0"
    dc = pick(*S.DC)
    m = int(rng.integers(17))
    if m == 0:
        return "monitor:constraint", lambda: ConstraintMonitor(additional_constraints=(LimitConstraint(["omega"]), pick("omega", 1.0, None))), lambda: ConstraintMonitor(additional_constraints=(LimitConstraint(["omega"]), lambda s: 0.0))
    if m == 1:
        bad = pick("sum", "Max", "mean", "", None, 3)
        return "monitor:merge", lambda: ConstraintMonitor(limit_constraints=("omega",), merge_violations=bad), lambda: ConstraintMonitor(limit_constraints=("omega",), merge_violations=pick("max", "product", max))
    if m == 2:
        bad = pick("0.5", dict(low=-0.5, high=0.5), complex(0.5, 0))
        mk = lambda lm: run(eid, dict(reference_generator=single(reference_state="omega", limit_margin=lm)), 1)
        return "reference:margin", lambda: mk(bad), lambda: mk(pick(0.5, (0.4, 0.8), None, 1))
    if m == 3:
        k = pick(1, 3)
        mk = lambda a: run(eid, dict(reference_generator=rg.MultipleReferenceGenerator([single, rg.ConstReferenceGenerator], sub_args=a)), 1)
        args = [dict(reference_state="omega"), dict(reference_state="torque", reference_value=0.3), dict(reference_state="u_sup")]
        return "reference:sub-arguments", lambda: mk(args[:k]), lambda: mk(args[:2])
    if m == 4:
        return "reference:nothing-to-switch", lambda: rg.SwitchedReferenceGenerator(pick([], ())), lambda: rg.SwitchedReferenceGenerator([single()])
    if m == 5:
        cur = ["i_a", "i_e"]
        mk = lambda x: run("Cont-CC-ExtExDc-v0", dict(physical_system_wrappers=(pw.CurrentSumProcessor(cur, limit=x),)), 1)
        return "wrapper:sum-limit", lambda: mk(pick("min", "mean", "", None, 10.0)), lambda: mk(pick("max", "sum"))
    if m == 6:
        return "wrapper:dq-type", lambda: pw.DqToAbcActionProcessor.make(pick("pmsm", "SynRM2", "", "PermExDc")), lambda: pw.DqToAbcActionProcessor.make(pick("PMSM", "SCIM", "EESM", "DFIM"))
    if m == 7:
        mk = lambda e, t: run(e, dict(physical_system_wrappers=(pw.DqToAbcActionProcessor.make(t),)), 1)
        return "wrapper:dq-direct-current", lambda: mk(f"Cont-CC-{dc}-v0", "PMSM"), lambda: mk("Cont-CC-PMSM-v0", "PMSM")
    if m == 8:
        mk = lambda w: run("Cont-TC-SCIM-v0", dict(physical_system_wrappers=w), 1)
        return "wrapper:dq-without-angle", lambda: mk((pw.DqToAbcActionProcessor.make("SCIM"),)), lambda: mk((pw.FluxObserver(), pw.DqToAbcActionProcessor.make("SCIM")))
    if m == 9:
        c = pick(ps.AC1PhaseSupply, ps.AC3PhaseSupply)
        return "supply:phase", lambda: c(230.0, dict(frequency=50.0, phase=float(pick(-0.1, 2 * np.pi, 7.0, 360.0, np.nan)))), lambda: c(230.0, dict(frequency=50.0, phase=float(rng.uniform(0, 6.28))))
    if m == 10:
        bad = pick(dict(reward_plot=1), dict(reward_plot="reward"), dict(reward_plot=None))
        return "dashboard:reward", lambda: MotorDashboard(**bad), lambda: MotorDashboard(reward_plot=bool(rng.random() < 0.5))
    if m == 11:
        bad = pick("reward", StatePlot, 3)
        return "dashboard:plots", lambda: MotorDashboard(additional_plots=(MeanEpisodeRewardPlot(), bad)), lambda: MotorDashboard(additional_plots=(MeanEpisodeRewardPlot(), StatePlot("omega")))
    if m == 12:
        key = pick("update_interval", "time_plot_width")
        return "dashboard:" + key, lambda: MotorDashboard(**{key: pick(0, -1, -1000, "1000", None)}), lambda: MotorDashboard(**{key: int(rng.integers(1, 5000))})
    if m == 13:
        return "dashboard:style", lambda: MotorDashboard(style=pick("no-such-style", "", "Dark")), lambda: MotorDashboard(style=None)
    if m == 14:
        fin = f"Finite-{pick(*S.TASKS)}-{pick(*S.KINDS)}-v0"

        def step(good):
            env, _ = run(fin, {}, 1)
            sp = env.action_space
            if good:
                return env.step(sp.sample())
            if hasattr(sp, "nvec"):
                a = np.array([int(rng.integers(n)) for n in sp.nvec])
                j = int(rng.integers(len(a)))
                a[j] = pick(-1, int(sp.nvec[j]), 1000)
            else:
                a = pick(-1, int(sp.n), int(sp.n) + 7, 10**6)
            return env.step(a)

        return "switching-state", lambda: step(False), lambda: step(True)
    if m == 15:  # sub-generators whose observations have different shapes

        class Preview(rg.ConstReferenceGenerator):
            def __init__(self, n):
                super().__init__(reference_state="omega", reference_value=0.5)
                self.reference_space = gymnasium.spaces.Box(np.zeros(n), np.ones(n), dtype=np.float64)
                self.n = n

            def get_reference_observation(self, *_, **__):
                return np.full(self.n, 0.5)

        mk = lambda a, b: run(eid, dict(reference_generator=rg.SwitchedReferenceGenerator([Preview(a), Preview(b)])), 1)
        return "reference:shapes", lambda: mk(*pick((1, 2), (2, 1), (2, 3), (4, 2))), lambda: mk(2, 2)
    return "reward:weights", lambda: run(eid, dict(reward_function=reward(pick("omega", (1.0,), object()))), 1), lambda: run(eid, dict(reward_function=reward(dict(omega=1.0))), 1)


def reward(weights):
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    return WeightedSumOfErrors(reward_weights=weights)


def arguments(res, seed, n):
    import matplotlib

    matplotlib.use("Agg")
    rng = np.random.default_rng(seed)
    for _ in range(n):
        label, wrong, right = argument(rng)
        try:
            right()
        except Exception as e:
            res.check(False, f"valid-refused:{label}", f"{label}: the documented argument raises {e!r:.200}", case=label)
            continue
        raised = False
        try:
            wrong()
        except Exception:
            raised = True
        res.check(raised, f"accepted:{label}", f"{label}: an argument outside of the documented values is accepted without an error", case=label)
        res.count("arguments")
        res.count(label)


def describe(kw):
    kw = kw() if callable(kw) else kw
    out = {}
    for k, v in kw.items():
        vs = v if isinstance(v, (tuple, list)) else [v]
        out[k] = [x if isinstance(x, (str, int, float, dict)) else f"{type(x).__name__}({ {a: b for a, b in vars(x).items() if isinstance(b, (str, list, tuple, dict))} })"[:200] for x in vs]
    return out
