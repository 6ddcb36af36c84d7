"""C03: environments are isolated from each other and do not modify what the caller passed."""
import copy

import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C03"
RULE = ("(a) several random environments (often of the same class) stepped, reset and seeded in a random interleaving must record"
        " the same interaction as alone; (b) a default environment of every id built after arbitrary customised ones equals the"
        " pristine one (limits, nominal values, parameters, spaces, interaction); (c) argument dictionaries, arrays and lists of"
        " the caller are unchanged after construction, resets and steps, and serve a second environment identically;"
        " distinct = configuration pair / environment id / argument kind")
ASSUMPTIONS = ["component objects (motor, load, reference generator, ...) are used by one environment only, as documented"]
REQUIRE = {"interleaved_steps": 4000, "pristine_compared": 54, "arguments": 150, "same_class_pairs": 20}


def jobs(tier, seed):
    n, m = (24, 8) if tier == "quick" else (120, 8)
    js = [("interleaved", dict(seed=[seed, j], n=m)) for j in range(n)]
    ids = S.ENV_IDS
    g = 9
    js += [("pristine", dict(seed=[seed, 500 + j], ids=ids[j::g])) for j in range(g)]
    js += [("arguments", dict(seed=[seed, 700 + j], n=20 if tier == "quick" else 60)) for j in range(8 if tier == "quick" else 24)]
    return js


def solo(cfg, s, actions):
    env = zoo.make(cfg)
    t = [E.freeze(env.reset(seed=s)[0])]
    for a in actions:
        out = env.step(a)
        t.append(E.freeze(out[:4]))
        if out[2]:
            t.append(E.freeze(env.reset()[0]))
    return t


def interleaved(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        k = int(rng.integers(2, 4))
        kind = S.KINDS[rng.integers(len(S.KINDS))]
        same = rng.random() < 0.6
        cfgs = [zoo.random_cfg(rng, kind=kind if same else None, cont=True if same and i else None) for i in range(k)]
        if same and rng.random() < 0.4:
            cfgs[1] = copy.deepcopy(cfgs[0])
        seeds = [int(rng.integers(2**31)) for _ in range(k)]
        acts, want = [], []
        for cfg, s in zip(cfgs, seeds):
            e = zoo.make(cfg)
            a = E.action_list(e.action_space, rng, int(rng.integers(20, 70)))
            acts.append(a)
            want.append(solo(cfg, s, a))
        # interleaved: construction, resets and steps of all environments in a random order
        envs, traces, pos = [None] * k, [[] for _ in range(k)], [0] * k
        while any(e is None or p < len(a) for e, p, a in zip(envs, pos, acts)):
            i = int(rng.integers(k))
            if envs[i] is None:
                envs[i] = zoo.make(cfgs[i])
                traces[i].append(E.freeze(envs[i].reset(seed=seeds[i])[0]))
            elif pos[i] < len(acts[i]):
                out = envs[i].step(acts[i][pos[i]])
                pos[i] += 1
                res.count("interleaved_steps")
                traces[i].append(E.freeze(out[:4]))
                if out[2]:
                    traces[i].append(E.freeze(envs[i].reset()[0]))
        for i in range(k):
            res.check(E.bits(traces[i]) == E.bits(want[i]), f"interference:{cfgs[i]['kind']}",
                      lambda: f"environment {i} of {k}: {E.first_difference(want[i], traces[i])} cfgs {cfgs}",
                      case=tuple(zoo.tag(x) for x in cfgs))
        res.count("same_class_pairs", int(same))
        if c == 0:
            res.sample(dict(cfgs=[x["env"] for x in cfgs], steps=[len(t) for t in traces]))


def fingerprint(env_id):
    """Everything a user can see of a default environment, and a short interaction."""
    import gym_electric_motor as gem

    env = gem.make(env_id, visualization=()).unwrapped
    ps = env.physical_system
    u = ps.unwrapped
    fp = dict(limits=ps.limits, nominal=ps.nominal_state, names=list(ps.state_names), low=ps.state_space.low, high=ps.state_space.high,
              motor_parameter=dict(u.electrical_motor.motor_parameter), motor_limits=dict(u.electrical_motor.limits),
              motor_nominal=dict(u.electrical_motor.nominal_values), initializer=repr(u.electrical_motor.initializer),
              load_limits=dict(u.mechanical_load.limits), load_nominal=dict(u.mechanical_load.nominal_values), j=u.mechanical_load.j_total,
              u_nominal=u.supply.u_nominal, tau=ps.tau, ref_low=env.reference_generator.reference_space.low,
              ref_high=env.reference_generator.reference_space.high, ref_names=list(env.reference_names),
              reward_range=tuple(float(x) for x in env.reward_range), ao=repr(env.action_space), oo=repr(env.observation_space))
    rng = np.random.default_rng(5)
    t = [E.freeze(env.reset(seed=3)[0])]
    for a in E.action_list(env.action_space, rng, 12):
        out = env.step(a)
        t.append(E.freeze(out[:4]))
        if out[2]:
            t.append(E.freeze(env.reset()[0]))
    fp["interaction"] = t
    return fp


def customise(rng, env_id):
    """A heavily customised environment of the same id (dict arguments, which update the defaults), played and closed."""
    import gym_electric_motor as gem

    cont, task, kind = env_id.split("-")[:3]
    cfg = zoo.random_cfg(rng, kind=kind, cont=cont == "Cont")
    cfg["env"] = env_id
    e = zoo.make(cfg)
    p = dict(S.PARAMS[kind])
    k = str(rng.choice([q for q in p if q not in ("p", "k")]))
    motor = dict(motor_parameter={k: p[k] * 1.37})
    if rng.random() < 0.7:
        motor["limit_values"] = dict(torque=1234.5, omega=777.0)
        motor["nominal_values"] = dict(torque=1000.5, omega=666.0)
    if rng.random() < 0.5 and kind not in S.IND:
        motor["motor_initializer"] = dict(random_init="uniform")
    kw = dict(motor=motor, visualization=(), supply=dict(u_nominal=123.0), tau=3e-5)
    if rng.random() < 0.5:
        kw["reward_function"] = dict(bias="positive", gamma=0.1)
    if task == "SC" and rng.random() < 0.7:  # the default load of the speed control tasks
        kw["load"] = dict(load_parameter=dict(a=1.0, b=0.5, c=0.25, j_load=0.7))
    e2 = gem.make(env_id, **kw).unwrapped
    for env in (e, e2):
        env.reset(seed=int(rng.integers(100)))
        for a in E.action_list(env.action_space, rng, 6):
            if env.step(a)[2]:
                env.reset()
        env.close()


def pristine(res, seed, ids):
    rng = np.random.default_rng(seed)
    before = {i: fingerprint(i) for i in ids}
    others = [i for i in S.ENV_IDS]
    for i in ids:
        customise(rng, i)
        customise(rng, others[rng.integers(len(others))])
    for i in ids:
        after = fingerprint(i)
        res.count("pristine_compared")
        for k in before[i]:
            res.check(E.bits(after[k]) == E.bits(before[i][k]), f"defaults-changed:{i.split('-')[2]}:{k}",
                      lambda: f"default environment {i}: {k} was {before[i][k]!r} and is {after[k]!r} after other environments were built",
                      case=(i, k))


def arguments(res, seed, n):
    """Argument objects of the caller: unchanged by the environment, and not referenced by it afterwards."""
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor import reference_generators as rg
    from gym_electric_motor import physical_system_wrappers as pw
    from gym_electric_motor.constraints import LimitConstraint, SquaredConstraint
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[(c + int(rng.integers(9))) % 9]
        cont = bool(rng.integers(2))
        env_id = f"{'Cont' if cont else 'Finite'}-{S.TASKS[rng.integers(3)]}-{kind}-v0"
        names = zoo.default_names(kind, cont)
        u = S.U_NOM[kind]
        args = dict(
            motor_parameter={k: (v if k in ("p",) else v * 1.1) for k, v in S.PARAMS[kind].items()},
            limits=dict(omega=500.0, torque=321.0), nominal=dict(omega=300.0, torque=210.0),
            load_parameter=dict(a=0.01, b=1e-3, c=1e-5, j_load=1e-3),
            load_init=dict(states=dict(omega=3.0)), supply=dict(R=0.5, C=4e-2), ac=dict(frequency=50.0, phase=1.0),
            weights={names[0]: 1.0, names[1]: 0.5}, power={names[0]: 2.0}, filter=list(names[:4]), states=[names[1], names[2]],
            noise=dict(loc=0.0, scale=0.01), currents=[x for x in names if x.startswith("i_")][:2], probs=[0.25, 0.75],
            ref_len=[5, 9], sigma=[1e-3, 1e-1], amp=[0.1, 0.2], initial=[-0.1, 0.1], subs=None, init_states=None)
        interval_init = None
        if kind in ("PermExDc", "SeriesDc"):
            args["init_states"] = dict(i=1.0)
        elif kind in S.DC:
            args["init_states"] = dict(i_a=1.0, i_e=0.5)
        elif kind in S.SYNC:
            args["init_states"] = dict(i_sd=1.0, i_sq=0.5, epsilon=0.1, **(dict(i_e=0.3) if kind == "EESM" else {}))
        else:
            args["init_states"] = dict(i_salpha=0.0, i_sbeta=0.0, psi_ralpha=0.0, psi_rbeta=0.0, epsilon=0.0)
        init = dict(states=args["init_states"])
        random_init = rng.random() < 0.4 and kind not in S.IND
        if random_init:
            init["random_init"] = str(rng.choice(["uniform", "normal"]))
            if rng.random() < 0.5:
                interval_init = [[-1.0, 2.0]] * len(args["init_states"])
                if kind in S.DC:
                    interval_init = [[0.0, 2.0]] * len(args["init_states"])
                init["interval"] = interval_init
        args["init"] = init
        sup = int(rng.integers(3))
        reft = int(rng.integers(3))

        def build(args, mode="object"):
            a = args
            subs = [rg.WienerProcessReferenceGenerator(reference_state=names[0], sigma_range=a["sigma"], episode_lengths=a["ref_len"], initial_range=a["initial"]),
                    rg.SinusoidalReferenceGenerator(reference_state=names[0], amplitude_range=a["amp"], episode_lengths=a["ref_len"])]
            if reft == 0:
                ref = rg.SwitchedReferenceGenerator(sub_generators=subs, p=a["probs"], super_episode_length=(4, 8))
            elif reft == 1:
                ref = rg.MultipleReferenceGenerator(sub_generators=[subs[0], rg.ConstReferenceGenerator(reference_state=names[1], reference_value=0.1)])
            else:
                ref = subs[1]
            a["subs"] = None
            motor_kw = dict(motor_parameter=a["motor_parameter"], limit_values=a["limits"], nominal_values=a["nominal"], motor_initializer=a["init"])
            motor = getattr(ps, S.MOTOR_CLASS[kind])(**motor_kw) if c % 2 else motor_kw
            load = ps.PolynomialStaticLoad(load_parameter=a["load_parameter"], load_initializer=a["load_init"])
            supply = [lambda: ps.RCVoltageSupply(u_nominal=u, supply_parameter=a["supply"]),
                      lambda: ps.AC1PhaseSupply(u_nominal=u, supply_parameter=a["ac"]),
                      lambda: ps.IdealVoltageSupply(u_nominal=u)][sup]()
            wr = [pw.StateNoiseProcessor(states=a["states"], random_kwargs=a["noise"])]
            if len(a["currents"]) == 2 and kind != "ShuntDc":
                wr.append(pw.CurrentSumProcessor(currents=a["currents"]))
            cons = [SquaredConstraint(a["states"]), LimitConstraint(a["states"])]
            return gem.make(env_id, visualization=(), motor=motor, load=load, supply=supply, reference_generator=ref,
                            reward_function=WeightedSumOfErrors(reward_weights=a["weights"], reward_power=a["power"]),
                            state_filter=a["filter"], physical_system_wrappers=wr, constraints=cons).unwrapped

        if kind in S.IND:
            args["load_init"]["states"]["omega"] = 0.0
        work = copy.deepcopy(args)
        env = build(work)
        acts = E.action_list(env.action_space, rng, 25)
        t1 = [E.freeze(env.reset(seed=9)[0])]

        def go(env, t):
            for a in acts:
                out = env.step(a)
                t.append(E.freeze(out[:4]))
                if out[2]:
                    t.append(E.freeze(env.reset()[0]))
            return t

        go(env, t1)
        for k in args:
            res.count("arguments")
            res.check(repr(work[k]) == repr(args[k]), f"argument-modified:{k}", f"{env_id}: the caller's {k} was {args[k]!r}, is {work[k]!r}", case=(kind, k, c % 2, sup, reft))
        # a second environment from the very same argument objects behaves like the first
        env2 = build(work)
        t2 = go(env2, [E.freeze(env2.reset(seed=9)[0])])
        res.check(E.bits(t1) == E.bits(t2), f"shared-arguments:{kind}", lambda: f"{env_id}: a second environment built from the same argument objects differs: {E.first_difference(t1, t2)}",
                  case=(kind, "second"))
