"""Random rich environments: JSON-able configuration -> gym_electric_motor environment built through the public API."""
import numpy as np

from . import systems as S

_names = {}


def default_names(kind, cont):
    """State names, per motor: read once from the public attribute of the default environment."""
    if kind not in _names:
        import gym_electric_motor as gem

        e = gem.make(f"{'Cont' if cont else 'Finite'}-CC-{kind}-v0", visualization=()).unwrapped
        _names[kind] = list(e.physical_system.state_names)
    return list(_names[kind])


def random_ref(rng, states, short=True, kinds=("Wiener", "Laplace", "Sinus", "Triangle", "Sawtooth", "Step", "Const"), state=None):
    """Reference specification for a single state."""
    state = state or str(rng.choice(states))
    k = str(rng.choice(kinds))
    r = dict(cls=k, state=state)
    if k == "Const":
        r["value"] = float(np.round(rng.uniform(-1, 1), 4))
        return r
    a = int(rng.integers(2, 30)) if short else int(rng.integers(50, 400))
    r["len"] = [a, a + int(rng.integers(1, 40))]
    m = rng.random()
    if m < 0.4:
        r["margin"] = None
    elif m < 0.75:
        r["margin"] = float(np.round(rng.uniform(0.1, 1.0), 3))
    else:
        r["margin"] = [float(np.round(rng.uniform(0.1, 1.0), 3)), float(np.round(rng.uniform(0.1, 1.0), 3))]
    if k in ("Wiener", "Laplace"):
        lo = 10 ** rng.uniform(-4, -1)
        r["sigma"] = [float(lo), float(lo * 10 ** rng.uniform(0.01, 1.5))]
    else:
        if rng.random() < 0.6:
            lo = rng.uniform(0.0, 0.6)
            r["amp"] = [float(lo), float(lo + rng.uniform(0.0, 0.6))]
        lo = 10 ** rng.uniform(0, 2.5)
        r["freq"] = [float(lo), float(lo * (1 + rng.uniform(0.01, 2)))]
        if rng.random() < 0.6:
            lo = rng.uniform(-0.5, 0.4)
            r["off"] = [float(lo), float(lo + rng.uniform(0.0, 0.5))]
    return r


def random_refs(rng, states, short=True):
    m = rng.random()
    if m < 0.1:
        return dict(cls="Zero")
    if m < 0.5 or len(states) < 2:
        return random_ref(rng, states, short)
    if m < 0.7:
        st = str(rng.choice(states))
        n = int(rng.integers(2, 4))
        p = rng.dirichlet(np.ones(n))
        a = int(rng.integers(2, 25))
        return dict(cls="Switched", subs=[random_ref(rng, states, short, state=st) for _ in range(n)],
                    p=None if rng.random() < 0.3 else [float(x) for x in p], len=[a, a + int(rng.integers(1, 30))])
    n = int(rng.integers(2, min(4, len(states)) + 1))
    sts = [str(x) for x in rng.choice(states, size=n, replace=False)]
    return dict(cls="Multiple", subs=[random_ref(rng, states, short, state=s) for s in sts], classes=bool(rng.random() < 0.4))


def ref_args(r):
    """-> (class, keyword arguments) of a reference generator without sub-generators"""
    from gym_electric_motor import reference_generators as rg

    k = r["cls"]
    if k == "Zero":
        return rg.ZeroReferenceGenerator, {}
    if k == "Const":
        return rg.ConstReferenceGenerator, dict(reference_state=r["state"], reference_value=r["value"])
    m = r["margin"]
    kw = dict(reference_state=r["state"], episode_lengths=tuple(r["len"]), limit_margin=tuple(m) if isinstance(m, list) else m)
    if k in ("Wiener", "Laplace"):
        kw["sigma_range"] = tuple(r["sigma"])
        if r.get("initial"):
            kw["initial_range"] = tuple(r["initial"])
        return (rg.WienerProcessReferenceGenerator if k == "Wiener" else rg.LaplaceProcessReferenceGenerator), kw
    for a, b in (("amp", "amplitude_range"), ("freq", "frequency_range"), ("off", "offset_range")):
        if a in r:
            kw[b] = tuple(r[a])
    return dict(Sinus=rg.SinusoidalReferenceGenerator, Triangle=rg.TriangularReferenceGenerator,
                Sawtooth=rg.SawtoothReferenceGenerator, Step=rg.StepReferenceGenerator)[k], kw


def mk_ref(r):
    from gym_electric_motor import reference_generators as rg

    k = r["cls"]
    if k == "Multiple":
        if r.get("classes") and all(s["cls"] not in ("Multiple", "Switched") for s in r["subs"]):
            ca = [ref_args(s) for s in r["subs"]]
            return rg.MultipleReferenceGenerator(sub_generators=[c for c, _ in ca], sub_args=[a for _, a in ca])
        return rg.MultipleReferenceGenerator(sub_generators=[mk_ref(s) for s in r["subs"]])
    if k == "Switched":
        return rg.SwitchedReferenceGenerator(sub_generators=[mk_ref(s) for s in r["subs"]], p=r["p"],
                                             super_episode_length=tuple(r["len"]))
    cls, kw = ref_args(r)
    return cls(**kw)


def mk_wrapper(w):
    from gym_electric_motor import physical_system_wrappers as pw

    k = w["w"]
    if k == "dead":
        return pw.DeadTimeProcessor(steps=w["steps"])
    if k == "cossin":
        return pw.CosSinProcessor(angle=w["angle"], remove_angle=w["remove"])
    if k == "csum":
        return pw.CurrentSumProcessor(currents=list(w["currents"]), limit=w["limit"])
    if k == "flux":
        return pw.FluxObserver(**({"current_names": tuple(w["currents"])} if w.get("currents") else {}))
    if k == "noise":
        return pw.StateNoiseProcessor(states=w["states"] if w["states"] == "all" else list(w["states"]),
                                      random_dist=w["dist"], random_kwargs=dict(w["kw"]), random_length=w["len"])
    if k == "dq":
        return pw.DqToAbcActionProcessor.make(w["motor"])
    raise ValueError(k)


def random_wrappers(rng, kind, cont, names, noise=True, flux=True):
    """-> (wrapper specs, resulting state names)"""
    out, names = [], list(names)
    for _ in range(int(rng.choice([0, 0, 1, 1, 2, 3]))):
        k = str(rng.choice(["dead", "cossin", "csum", "noise", "flux", "dq"]))
        if k == "dead":
            out.append(dict(w="dead", steps=int(rng.integers(1, 5))))
        elif k == "cossin" and "epsilon" in names and "cos(epsilon)" not in names:
            rem = bool(rng.random() < 0.5) and not any(w["w"] == "dq" for w in out)
            out.append(dict(w="cossin", angle="epsilon", remove=rem))
            if rem:
                names.remove("epsilon")
            names += ["cos(epsilon)", "sin(epsilon)"]
        elif k == "csum" and "i_sum" not in names:
            cur = [n for n in names if n.startswith("i_")]
            if len(cur) >= 2:
                n = int(rng.integers(2, min(4, len(cur)) + 1))
                out.append(dict(w="csum", currents=[str(c) for c in rng.choice(cur, size=n, replace=False)],
                                limit=str(rng.choice(["max", "sum"]))))
                names.append("i_sum")
        elif k == "noise" and noise and not any(w["w"] == "noise" for w in out):
            st = "all" if rng.random() < 0.3 else [str(x) for x in rng.choice(names, size=int(rng.integers(1, 4)), replace=False) if x != "i_sum" or kind != "ShuntDc"]
            d = str(rng.choice(["normal", "laplace", "uniform"]))
            kw = dict(low=-0.02, high=0.03) if d == "uniform" else dict(loc=0.0, scale=0.01)
            out.append(dict(w="noise", states=st, dist=d, kw=kw, len=int(rng.choice([3, 10, 1000]))))
        elif k == "flux" and flux and kind in S.IND and "psi_abs" not in names:
            out.append(dict(w="flux"))
            names += ["psi_abs", "psi_angle"]
        elif k == "dq" and cont and not any(w["w"] == "dq" for w in out) and "epsilon" in names:
            if kind in ("PMSM", "SynRM"):
                out.append(dict(w="dq", motor="PMSM"))
            elif kind == "EESM":
                out.append(dict(w="dq", motor="EESM"))
            elif kind == "SCIM" and "psi_angle" in names:
                out.append(dict(w="dq", motor="SCIM"))
    if kind == "ShuntDc":  # its environments append i_sum after the wrappers of the user
        names.remove("i_sum")
        names.append("i_sum")
    return out, names


def random_cfg(rng, kind=None, cont=None, solver=None, noise=True, flux=True, ou=True, init=True, refs=True, wrappers=True,
               constraints=True, state_filter=True, reward=True, spec_prob=0.5, termination=True):
    kind = kind or S.KINDS[rng.integers(len(S.KINDS))]
    cont = bool(rng.integers(2)) if cont is None else cont
    cfg = dict(kind=kind, cont=cont, env=f"{'Cont' if cont else 'Finite'}-{S.TASKS[rng.integers(3)]}-{kind}-v0")
    if rng.random() < spec_prob:
        cfg["spec"] = S.random_spec(rng, kind=kind, cont=cont, solver=solver or "euler")
        cfg["spec"]["dq"] = False
    else:
        cfg["solver"] = solver or str(rng.choice(["default", "euler"]))
        m = rng.random()
        if ou and m < 0.15:
            w = float(rng.uniform(5, 100))
            lo = 0.0 if kind in ("SeriesDc", "ShuntDc") else -w
            cfg["load"] = dict(kind="ou", mu=float(rng.uniform(0, 20)), sigma=float(rng.uniform(0.1, 5)),
                               theta=float(rng.uniform(0.5, 3)), range=[lo, w])
        elif m < 0.5:
            cfg["load"] = dict(kind="poly", a=float(rng.uniform(0, 0.5)), b=float(rng.uniform(0, 0.01)), c=float(rng.uniform(0, 1e-4)),
                               j=float(10 ** rng.uniform(-4, -2)), init=(str(rng.choice(["uniform", "normal"])) if init and rng.random() < 0.5 else None))
        elif m < 0.7:
            cfg["load"] = dict(kind="const", w=float(rng.uniform(0, 60)))
        if rng.random() < 0.2:
            cfg["supply"] = dict(kind=str(rng.choice(["ac1", "rc"])))
        if init and rng.random() < 0.4:
            cfg["init"] = str(rng.choice(["uniform", "gaussian"]))
            if kind in S.IND:  # rotating induction machines with random initial states: see known_findings.json (C02, C19)
                cfg["load"] = dict(kind="const", w=float(rng.choice([0.0, 40.0])))
        if rng.random() < 0.3:
            cfg["tau"] = float(rng.choice([5e-5, 2e-4])) if cont else float(rng.choice([5e-6, 2e-5]))
    names = default_names(kind, cont)
    if wrappers:
        cfg["wrappers"], names = random_wrappers(rng, kind, cont, names, noise=noise, flux=flux)
    refable = [n for n in names if not n.startswith("psi_")]
    if refs and rng.random() < 0.85:
        cfg["ref"] = random_refs(rng, refable)
    elif any(w.get("remove") for w in cfg.get("wrappers", [])):
        cfg["ref"] = random_refs(rng, refable)
    if reward and rng.random() < 0.6:
        st = [str(x) for x in rng.choice(refable, size=int(rng.integers(1, 4)), replace=False)]
        rw = dict(reward_weights={s: float(np.round(rng.uniform(0.1, 2), 3)) for s in st})
        if rng.random() < 0.5:
            rw["reward_power"] = {s: float(rng.choice([0.5, 1.0, 2.0])) for s in st} if rng.random() < 0.5 else float(rng.choice([0.5, 1.0, 2.0]))
        if rng.random() < 0.5:
            rw["normed_reward_weights"] = True
        if rng.random() < 0.5:
            rw["bias"] = "positive" if rng.random() < 0.5 else float(np.round(rng.uniform(-1, 1), 3))
        if rng.random() < 0.5:
            rw["gamma"] = float(rng.choice([0.0, 0.5, 0.9, 0.99]))
        if rng.random() < 0.3:
            rw["violation_reward"] = float(np.round(rng.uniform(-20, 0), 3))
        cfg["reward"] = rw
    if constraints and rng.random() < 0.6:
        cs = []
        for _ in range(int(rng.integers(0, 3))):
            m = rng.random()
            if m < 0.4:
                cs.append(["name", str(rng.choice(refable))])
            elif m < 0.6:
                cs.append(["limit", [str(x) for x in rng.choice(refable, size=int(rng.integers(1, 3)), replace=False)]])
            elif m < 0.7:
                cs.append(["limit", ["all_states"]])
            else:
                cs.append(["squared", [str(x) for x in rng.choice(refable, size=int(rng.integers(1, 4)), replace=False)]])
        cfg["constraints"] = cs
    elif not termination:
        cfg["constraints"] = []
    if state_filter and rng.random() < 0.4:
        cfg["filter"] = [str(x) for x in rng.choice(names, size=int(rng.integers(1, len(names) + 1)), replace=False)]
    cfg["names"] = names
    return cfg


def mk_constraints(cs):
    from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint

    out = []
    for k, v in cs:
        if k == "name":
            out.append(v)
        elif k == "limit":
            out.append(LimitConstraint(list(v)))
        else:
            out.append(SquaredConstraint(list(v)))
    return tuple(out)


class Soft:
    """User defined soft constraint: degree rises from 0 at |s|=lo to 1 at |s|=hi."""

    def __init__(self, idx, lo, hi):
        self.idx, self.lo, self.hi = idx, lo, hi

    def __call__(self, state):
        return float(np.clip((abs(state[self.idx]) - self.lo) / (self.hi - self.lo), 0.0, 1.0))


def random_monitor(rng, names):
    """Constraint monitor with hard and soft constraints."""
    refable = [n for n in names if not n.startswith("psi_")]
    soft = []
    for _ in range(int(rng.integers(0, 4))):
        lo = float(np.round(rng.uniform(0.0, 0.5), 3))
        soft.append([str(rng.choice(refable)), lo, float(np.round(lo + rng.uniform(0.1, 1.0), 3))])
    hard = [["squared", [str(x) for x in rng.choice(refable, size=int(rng.integers(1, 4)), replace=False)]] for _ in range(int(rng.integers(0, 2)))]
    m = rng.random()
    lim = "all_states" if m < 0.1 and len(refable) == len(names) else ([str(x) for x in rng.choice(refable, size=int(rng.integers(1, 4)), replace=False)] if m < 0.6 else [])
    return dict(soft=soft, hard=hard, limit=lim, merge=str(rng.choice(["max", "product", "mean"])), direct=bool(rng.random() < 0.3))


def mean_merge(*degrees):
    """Merge rule of the user: the mean degree."""
    d = list(degrees[0]) if len(degrees) == 1 and np.ndim(degrees[0]) else list(degrees)
    return float(sum(d) / len(d))


def mk_monitor(m, names):
    """ConstraintMonitor object, or (with max merging) the iterable of constraints for the environment."""
    from gym_electric_motor.core import ConstraintMonitor

    extra = [Soft(names.index(n), lo, hi) for n, lo, hi in m["soft"]] + list(mk_constraints(m["hard"]))
    if m["direct"] and m["merge"] == "max" and isinstance(m["limit"], list):
        return tuple(m["limit"]) + tuple(extra)
    return ConstraintMonitor(limit_constraints=m["limit"] if isinstance(m["limit"], str) else list(m["limit"]),
                             additional_constraints=extra, merge_violations=mean_merge if m["merge"] == "mean" else m["merge"])


def kwargs(cfg, callbacks=(), visualization=()):
    """Keyword arguments for gym_electric_motor.make (fresh component objects)."""
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    kw = dict(visualization=visualization, callbacks=tuple(callbacks))
    if "spec" in cfg:
        kw.update(S.components(cfg["spec"]))
    else:
        if cfg.get("solver") == "euler":
            kw["ode_solver"] = ps.EulerSolver()
        elif cfg.get("solver", "default") != "default":
            kw["ode_solver"] = S.mk_solver(dict(solver=dict(kind=cfg["solver"])))
        v = cfg.get("load")
        if v:
            if v["kind"] == "ou":
                kw["load"] = ps.OrnsteinUhlenbeckLoad(mu=v["mu"], sigma=v["sigma"], theta=v["theta"], omega_range=tuple(v["range"]),
                                                      tau=cfg.get("tau", 1e-4 if cfg["cont"] else 1e-5))
            elif v["kind"] == "const":
                kw["load"] = ps.ConstantSpeedLoad(omega_fixed=v["w"])
            else:
                li = dict(random_init=v["init"]) if v["init"] else None
                kw["load"] = ps.PolynomialStaticLoad(load_parameter=dict(a=v["a"], b=v["b"], c=v["c"], j_load=v["j"]), load_initializer=li)
        if cfg.get("init"):
            kw["motor"] = dict(motor_initializer=dict(random_init=cfg["init"]))
        if cfg.get("tau"):
            kw["tau"] = cfg["tau"]
        v = cfg.get("supply")
        if v:
            u = S.U_NOM[cfg["kind"]]
            kw["supply"] = ps.AC1PhaseSupply(u_nominal=u) if v["kind"] == "ac1" else ps.RCVoltageSupply(u_nominal=u)
    if cfg.get("wrappers"):
        kw["physical_system_wrappers"] = tuple(mk_wrapper(w) for w in cfg["wrappers"])
    if cfg.get("ref"):
        kw["reference_generator"] = mk_ref(cfg["ref"])
    if cfg.get("reward"):
        kw["reward_function"] = WeightedSumOfErrors(**cfg["reward"])
    if cfg.get("monitor"):
        kw["constraints"] = mk_monitor(cfg["monitor"], cfg["names"])
    elif "constraints" in cfg:
        kw["constraints"] = mk_constraints(cfg["constraints"])
    if cfg.get("filter"):
        kw["state_filter"] = list(cfg["filter"])
    return kw


def make(cfg, callbacks=(), visualization=()):
    import gym_electric_motor as gem

    return gem.make(cfg["env"], **kwargs(cfg, callbacks, visualization)).unwrapped


def tag(cfg):
    """Distinctness key of a configuration (structure, not numbers)."""
    return (cfg["env"], "spec" in cfg, cfg.get("load", {}).get("kind"), cfg.get("init"), tuple(w["w"] for w in cfg.get("wrappers", [])),
            cfg.get("ref", {}).get("cls"), "reward" in cfg, tuple(c[0] for c in cfg.get("constraints", [])) if "constraints" in cfg else None,
            "filter" in cfg)
