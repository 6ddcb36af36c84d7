"""C35: component instances that served one environment serve a later one like new ones."""
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C35"
RULE = ("a component instance (motor, load, converter, supply, solver, reference generator, reward function, constraints, wrappers) is passed to an environment that is played (random numbers of"
        " seeded and unseeded episodes, also left in the middle of an episode or never reset) and then to a second environment: of the same configuration (same) or of another motor, action type, sampling"
        " time and default limits (cross). Spaces, names, limits, nominal values, reward range and several seeded episodes of the second environment are compared with those of an environment that was"
        " built with a new instance; distinct = component class x arguments x pair of environments")
ASSUMPTIONS = ["the environments use the instance one after another, not at the same time", "callbacks and visualizations, which keep their history by intention, are not exchanged"]
REQUIRE = {"reused": 1000, "steps": 50000, "load": 120, "reference_generator": 180, "reward_function": 90, "constraints": 90, "physical_system_wrappers": 70, "converter": 40, "motor": 35, "supply": 80,
           "ode_solver": 80}
SKIP = ("visualization", "callbacks", "tau", "state_filter")


def jobs(tier, seed):
    n = 8 if tier == "quick" else 60
    m = 16 if tier == "quick" else 32
    return ([("same", dict(seed=[seed, j], n=n)) for j in range(m)] + [("cross", dict(seed=[seed, 100 + j], n=4 * n)) for j in range(m)])


def play(env, acts, seed, episodes, log=None, stop=None):
    k = 0
    for ep in range(episodes):
        o, _ = env.reset(seed=seed if ep == 0 else None)
        if log is not None:
            log.append(E.freeze(o))
        for q in range(len(acts)):
            o, r, t, _, _ = env.step(acts[(q + 7 * ep) % len(acts)])
            k += 1
            if log is not None:
                log.append((E.freeze(o), float(r), bool(t)))
            if t or k == stop:
                break
    return k


def flat(x):
    if isinstance(x, (tuple, list)):
        return [v for q in x for v in flat(q)]
    return list(np.ravel(np.asarray(x, float)))


def differ(a, b):
    """-> index of the first difference of two logs or None"""
    for i, (p, q) in enumerate(zip(a, b)):
        p, q = flat(p), flat(q)
        if len(p) != len(q) or not np.allclose(p, q, rtol=1e-9, atol=1e-9, equal_nan=True):
            return i
    return None if len(a) == len(b) else min(len(a), len(b))


def interface(env):
    s, r = env.observation_space
    return dict(names=list(env.state_names), references=list(env.reference_names), states=[s.low, s.high], reference_space=[r.low, r.high], limits=env.limits, nominal=env.nominal_state,
                reward_range=list(env.reward_range), actions=str(env.action_space))


def build(eid, kw):
    import gym_electric_motor as gem

    return gem.make(eid, visualization=(), **kw).unwrapped


def judge(res, rng, key, name, eid, kw_used, kw_new, case):
    used, new = build(eid, kw_used), build(eid, kw_new)
    a, b = interface(used), interface(new)
    bad = [k for k in a if (a[k] != b[k] if k in ("names", "references", "actions") else not np.allclose(flat(a[k]), flat(b[k]), rtol=1e-12, atol=0) if len(flat(a[k])) == len(flat(b[k])) else True)]
    res.check(not bad, f"interface:{name}", lambda: f"{key} {name} used before: {eid} declares {[(k, a[k]) for k in bad]} instead of {[(k, b[k]) for k in bad]}", case=case)
    acts = E.action_list(new.action_space, rng, 25)
    seed = int(rng.integers(2**31))
    la, lb = [], []
    res.count("steps", play(new, acts, seed, 3, lb))
    try:
        play(used, acts, seed, 3, la)
    except Exception as e:  # the new one simulates without errors
        res.check(False, f"fails:{name}", f"{key} {name} used before: {eid} raises {e!r:.200}", case=case)
        return
    i = differ(la, lb)
    res.check(i is None, f"differs:{name}", lambda: f"{key} {name} used before: {eid} gives at event {i}: {la[min(i, len(la) - 1)]} instead of {lb[min(i, len(lb) - 1)]}", case=case)
    res.count("reused")
    res.count(key)


def classes(x):
    if isinstance(x, (tuple, list)):
        return "+".join(classes(q) for q in x)
    sub = getattr(x, "_sub_generators", None)
    return type(x).__name__ + ("" if isinstance(x, str) or not sub else f"[{classes(sub)}]")


def serve(rng, eid, kw):
    """First life of the instances."""
    env = build(eid, kw)
    m = rng.random()
    if m > 0.1:
        play(env, E.action_list(env.action_space, rng, 20), int(rng.integers(2**31)) if rng.random() < 0.5 else None, int(rng.integers(1, 4)), stop=int(rng.integers(1, 60)))
    if m > 0.5:
        env.close()
    return env


def same(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, kind=S.KINDS[(c + seed[-1]) % 9])
        strip = lambda kw: {k: v for k, v in kw.items() if k not in ("visualization", "callbacks")}
        keys = [k for k in zoo.kwargs(cfg) if k not in SKIP]
        if not keys:
            continue
        old = strip(zoo.kwargs(cfg))
        serve(rng, cfg["env"], old)
        for k in list(rng.permutation(keys)) + (["all"] if len(keys) > 1 else []):
            used = strip(zoo.kwargs(cfg))
            if k == "all":  # everything at once
                used = old
            elif isinstance(old[k], dict):
                continue
            else:
                used[k] = old[k]
            nm = "all components" if k == "all" else classes(old[k])
            judge(res, rng, str(k), "all" if k == "all" else nm.split("[")[0], cfg["env"], used, strip(zoo.kwargs(cfg)), (cfg["env"], k, nm))
            if k == "all":
                break


def component(rng, kinds, conts):
    """-> key, factory of a component that fits to both environments"""
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
    from gym_electric_motor.core import ConstraintMonitor
    from gym_electric_motor.reward_functions import WeightedSumOfErrors
    from gym_electric_motor import physical_system_wrappers as pw

    st = ["omega", "torque"]
    key = str(rng.choice(["load", "supply", "ode_solver", "reference_generator", "reward_function", "constraints", "physical_system_wrappers", "converter", "motor"],
                         p=[0.14, 0.09, 0.08, 0.22, 0.09, 0.1, 0.16, 0.07, 0.05]))
    if key == "load":
        m = int(rng.integers(0, 4))
        w = float(rng.uniform(5, 40))
        p = dict(a=float(rng.uniform(0, 0.5)), b=float(rng.uniform(0, 0.01)), c=float(rng.uniform(0, 1e-4)), j_load=float(10 ** rng.uniform(-5, -3)))
        init = dict(random_init="uniform", interval=[[0.0, 30.0]]) if rng.random() < 0.5 else None
        f = [lambda: ps.PolynomialStaticLoad(load_parameter=dict(p), load_initializer=init), lambda: ps.ConstantSpeedLoad(omega_fixed=w),
             lambda: ps.OrnsteinUhlenbeckLoad(mu=w, sigma=1.0, theta=1.0, omega_range=(0.0, 2 * w), tau=1e-4), lambda: ps.PolynomialStaticLoad(load_parameter=dict(p), load_initializer=init)][m]
    elif key == "supply":
        u = float(rng.uniform(40, 300))
        m = int(rng.integers(0, 3))
        f = [lambda: ps.IdealVoltageSupply(u_nominal=u), lambda: ps.RCVoltageSupply(u_nominal=u, supply_parameter=dict(R=1.0, C=2e-3)), lambda: ps.AC1PhaseSupply(u_nominal=u)][m]
    elif key == "ode_solver":
        k = dict(kind=str(rng.choice(["euler", "dopri5", "lsoda", "ivp", "odeint"])))
        f = [lambda: ps.EulerSolver(nsteps=3), lambda: ps.ScipyOdeSolver("dopri5"), lambda: ps.ScipyOdeSolver("lsoda"), lambda: ps.ScipySolveIvpSolver(), lambda: ps.ScipyOdeIntSolver()][int(rng.integers(0, 5))]
        del k
    elif key == "reference_generator":
        spec = zoo.random_refs(rng, st)
        f = lambda: zoo.mk_ref(spec)
    elif key == "reward_function":
        kw = {}
        if rng.random() < 0.5:
            kw["reward_weights"] = {s: float(rng.uniform(0.1, 2)) for s in (st if rng.random() < 0.5 else st[:1])}
        if rng.random() < 0.5:
            kw["normed_reward_weights"] = True
        if rng.random() < 0.6:
            kw["bias"] = "positive" if rng.random() < 0.6 else float(rng.uniform(-1, 1))
        if rng.random() < 0.4:
            kw["reward_power"] = {s: float(rng.choice([0.5, 2.0])) for s in st} if rng.random() < 0.5 else 2.0
        if rng.random() < 0.3:
            kw["violation_reward"] = float(rng.uniform(-10, 0))
        f = lambda: WeightedSumOfErrors(**kw)
    elif key == "constraints":
        mk = [lambda: "omega", lambda: LimitConstraint(["all_states"]), lambda: LimitConstraint(st), lambda: SquaredConstraint(st), lambda: "all_states"]
        sel = [int(x) for x in rng.integers(0, 4, int(rng.integers(1, 3)))]
        m = rng.random()
        if m < 0.4:
            f = lambda: tuple(mk[i]() for i in sel)
        else:
            merge = str(rng.choice(["max", "product"]))
            lim = [[], ["omega"], "all_states"][int(rng.integers(0, 3))]
            f = lambda: ConstraintMonitor(limit_constraints=lim, additional_constraints=[mk[i]() for i in sel if i], merge_violations=merge)
    elif key == "physical_system_wrappers":
        n = int(rng.integers(0, 4))
        ac = all(k not in ("PermExDc", "ExtExDc", "ShuntDc", "SeriesDc") for k in kinds)
        ind = all(k in S.IND for k in kinds)
        mk = [lambda: pw.DeadTimeProcessor(steps=int(n) + 1), lambda: pw.StateNoiseProcessor("all", random_kwargs=dict(scale=0.01), random_length=int(5 + n)), lambda: pw.StateNoiseProcessor(["omega"], random_kwargs=dict(scale=0.1))]
        if ac:
            mk += [lambda: pw.CosSinProcessor(angle="epsilon"), lambda: pw.CosSinProcessor(angle="epsilon", remove_angle=True)]
        mk += [lambda: pw.CosSinProcessor(angle="u_sup", remove_angle=True), lambda: pw.CosSinProcessor(angle="u_sup")]  # at another position in every system
        if ind:
            mk += [lambda: pw.FluxObserver()]
        sel = [int(x) for x in rng.choice(len(mk), size=int(rng.integers(1, min(3, len(mk)) + 1)), replace=False)]
        if ac and sel.count(3) + sel.count(4) > 1:
            sel = [3]
        gone = 5 if ac else 3
        sel = [x for x in sel if x != gone] + [x for x in sel if x == gone and gone + 1 not in sel and 1 not in sel]
        sel = sel or [gone]
        f = lambda: tuple(mk[i]() for i in sel)
    elif key == "converter":
        cont = conts[0]
        if any(c != cont for c in conts):
            return None
        three = ("PMSM", "SynRM", "SCIM")
        single = ("PermExDc", "SeriesDc", "ShuntDc")
        til = float(rng.choice([0.0, 1e-6]))
        if all(k in three for k in kinds):
            f = (lambda: ps.ContB6BridgeConverter(interlocking_time=til)) if cont else (lambda: ps.FiniteB6BridgeConverter(interlocking_time=til))
        elif all(k in single for k in kinds):
            q = [("ContOneQuadrantConverter", "FiniteOneQuadrantConverter"), ("ContTwoQuadrantConverter", "FiniteTwoQuadrantConverter"), ("ContFourQuadrantConverter", "FiniteFourQuadrantConverter")][int(rng.integers(0, 3))][0 if cont else 1]
            f = lambda: getattr(ps, q)(interlocking_time=til)
        else:
            return None
    else:
        if kinds[0] != kinds[1]:
            return None
        cls = S.MOTOR_CLASS[kinds[0]]
        f = lambda: getattr(ps, cls)()
    return key, f


def cross(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        a = str(rng.choice(S.KINDS))
        m = rng.random()
        b = a if m < 0.3 else str(rng.choice(S.IND)) if m < 0.5 and a in S.IND else str(rng.choice(S.KINDS))
        tasks = [str(rng.choice(S.TASKS)) for _ in range(2)]
        conts = [bool(rng.random() < 0.5) for _ in range(2)]
        if rng.random() < 0.6:
            conts[1] = conts[0]
        comp = component(rng, (a, b), conts)
        if comp is None:
            continue
        key, f = comp
        ids = [f"{'Cont' if q else 'Finite'}-{t}-{k}-v0" for q, t, k in zip(conts, tasks, (a, b))]
        taus = [dict(tau=float(rng.choice([5e-5, 1e-4, 2e-4]))) if rng.random() < 0.5 else {} for _ in range(2)]
        x = f()
        serve(rng, ids[0], {**taus[0], key: x})
        nm = classes(x)
        judge(res, rng, key, nm.split("[")[0], ids[1], {**taus[1], key: x}, {**taus[1], key: f()}, (key, nm, a, b, *tasks, *conts))
