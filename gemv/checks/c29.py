"""C29: every registered environment is the drive its name announces, with default and user-defined components."""
import numpy as np

from .. import envrun as E
from .. import oracles as O
from .. import refsim as R
from .. import systems as S
from .. import zoo

PROPERTY = "C29"
RULE = ("all registered identifiers: motor (state names and lockstep with the equations of the announced motor with its documented parameters), action type (declared space and accepted actions),"
        " task (referenced quantity, constant speed for current and torque control, free speed for speed control), sampling time; components given as parameter dictionaries against the same"
        " components given as instances (bitwise twin), given components have to be the ones in use; random combinations of Jacobian flag, recording solver, callbacks, system wrappers, constraints, visualizations,"
        " dashboard dictionaries and sampling times per identifier, each judged by what it recorded; distinct = identifier x replaced component x way of passing")
ASSUMPTIONS = ["an identifier reads <action type>-<task>-<motor>-v0", "a dictionary updates the arguments of the documented default component"]
REQUIRE = {"ids": 54, "lockstep": 2000, "constant_speed": 36, "free_speed": 18, "twin_steps": 3000, "dict": 100, "instance": 100, "motor_ids": 54, "wrong": 100, "wired": 1000, "dashboards": 30}

STATES = dict(
    PermExDc=["omega", "torque", "i", "u", "u_sup"], SeriesDc=["omega", "torque", "i", "u", "u_sup"],
    ExtExDc=["omega", "torque", "i_a", "i_e", "u_a", "u_e", "u_sup"], ShuntDc=["omega", "torque", "i_a", "i_e", "u", "u_sup", "i_sum"],
    PMSM=["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "u_a", "u_b", "u_c", "u_sd", "u_sq", "epsilon", "u_sup"],
    EESM=["omega", "torque", "i_a", "i_b", "i_c", "i_sd", "i_sq", "i_e", "u_a", "u_b", "u_c", "u_sd", "u_sq", "u_e", "epsilon", "u_sup"],
    SCIM=["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "epsilon", "u_sup"],
    DFIM=["omega", "torque", "i_sa", "i_sb", "i_sc", "i_sd", "i_sq", "i_ra", "i_rb", "i_rc", "i_rd", "i_rq", "u_sa", "u_sb", "u_sc", "u_sd", "u_sq", "u_ra", "u_rb", "u_rc", "u_rd",
          "u_rq", "epsilon", "u_sup"])
STATES["SynRM"] = STATES["PMSM"]
CONV = dict(PermExDc=["4QC"], SeriesDc=["4QC"], ShuntDc=["4QC"], ExtExDc=["4QC", "4QC"], EESM=["B6", "4QC"], DFIM=["B6", "B6"], PMSM=["B6"], SynRM=["B6"], SCIM=["B6"])
PARAM = dict(S.PARAMS, EESM=dict(S.PARAMS["EESM"], l_m=1.589e-3))  # the documented defaults


def jobs(tier, seed):
    ids = S.ENV_IDS
    st, n = (60, 5) if tier == "quick" else (400, 30)
    js = [("identity", dict(seed=[seed, j], ids=ids[j::18], steps=st)) for j in range(18)]
    js += [("replaced", dict(seed=[seed, 100 + j], ids=ids[j::18], n=n, steps=20 if tier == "quick" else 80)) for j in range(18)]
    js += [("wiring", dict(seed=[seed, 400 + j], ids=ids[j::9], n=8 if tier == "quick" else 60)) for j in range(9)]
    js += [("registry", dict(seed=[seed, 300]))]
    return js


def split(i):
    a, t, k, _ = i.split("-")
    return a == "Cont", t, k


def space_ok(sp, cont, kind):
    from gymnasium.spaces import Box, Discrete, MultiDiscrete

    legs = [4 if c == "4QC" else 8 for c in CONV[kind]]
    if cont:
        n = sum(1 if c == "4QC" else 3 for c in CONV[kind])
        return isinstance(sp, Box) and sp.shape == (n,) and np.all(sp.low == -1) and np.all(sp.high == 1)
    if len(legs) == 1:
        return isinstance(sp, Discrete) and sp.n == legs[0] and sp.start == 0
    return isinstance(sp, MultiDiscrete) and list(sp.nvec) == legs


def identity(res, seed, ids, steps):
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for i in ids:
        cont, task, kind = split(i)
        env = gem.make(i, visualization=()).unwrapped
        sysm = env.physical_system
        res.count("ids")
        res.check(isinstance(sysm.electrical_motor, getattr(ps, S.MOTOR_CLASS[kind])), f"motor:{i}", f"{type(sysm.electrical_motor)}", case=(i, "motor"))
        res.check(set(sysm.state_names) == set(STATES[kind]) and len(sysm.state_names) == len(STATES[kind]), f"states:{i}", f"{sysm.state_names}", case=(i, "states"))
        res.check(space_ok(env.action_space, cont, kind), f"actions:{i}", f"{env.action_space}", case=(i, "actions"))
        res.check(sorted(env.reference_names) == sorted(O.DEFAULT_REFS[task][kind]), f"task:{i}", f"references {env.reference_names}", case=(i, "task"))
        res.close(sysm.tau, 1e-4 if cont else 1e-5, f"tau:{i}", "sampling time", case=(i, "tau"))
        # default components: no error, speed as the task says
        act = S.Actions(env.action_space, rng)
        w, tq = [], []
        names = list(sysm.state_names)
        pw, pt = names.index("omega"), names.index("torque")
        (o, ref), _ = env.reset(seed=int(rng.integers(2**31)))
        for _ in range(steps):
            (o, ref), rew, term, trunc, _ = env.step(act())
            w.append(o[pw] * sysm.limits[pw])
            tq.append(o[pt] * sysm.limits[pt])
            if term:
                if task == "SC":
                    break
                env.reset()
        if task == "SC":
            # some held switching state / duty cycle has to move the drive
            n = 0
            while np.ptp(w) <= 1e-9 and n < 30:
                env.reset()
                a = act()
                for _ in range(400):
                    (o, ref), rew, term, trunc, _ = env.step(a)
                    w.append(o[pw] * sysm.limits[pw])
                    if term or abs(w[-1] - w[0]) > 1e-9:
                        break
                n += 1
            res.count("free_speed")
            res.check(np.ptp(w) > 1e-9, f"speed-fixed:{i}", lambda: f"the speed does not react to {n} different held actions", case=(i, "speed"))
        else:
            res.count("constant_speed")
            res.check(np.ptp(w) < 1e-9 and abs(w[0]) > 1, f"speed-free:{i}", lambda: f"speed {w[:3]} .. {w[-1]}", case=(i, "speed"))
        # the announced motor with its documented parameters
        poly = dict(kind="poly", a=float(rng.choice([0.0, 0.1])), b=float(rng.uniform(0, 0.02)), c=0.0, j=float(rng.uniform(1e-3, 1e-2)), w=float(rng.uniform(0, 50)))
        const = dict(kind="const", w=float(rng.uniform(0, 100)))
        s = dict(kind=kind, cont=cont, param=PARAM[kind], tau=float(sysm.tau), conv=CONV[kind], til=[0.0] * len(CONV[kind]), supply=dict(kind="ideal", u=float(rng.uniform(0.3, 1) * S.U_NOM[kind])),
                 load=poly if rng.random() < 0.5 else const, solver=dict(kind="euler", n=1), dq=False)
        sol = ps.EulerSolver()
        env = gem.make(i, visualization=(), ode_solver=sol, load=S.mk_load(s), supply=S.mk_supply(s), constraints=()).unwrapped
        res.check(space_ok(env.action_space, cont, kind), f"actions-replaced:{i}", f"{env.action_space}")
        tw = S.mk_twin(s)
        for e in range(2):
            env.reset(seed=int(rng.integers(2**31)))
            tw.reset()
            for k in range(steps):
                x = np.array(sol.y, float)
                a = act()
                env.step(a)
                y = np.array(sol.y, float)
                y2 = tw.step(x, a)[0]
                if not np.all(np.isfinite(y2)) or np.max(np.abs(y2)) > 1e9:
                    break
                res.count("lockstep")
                res.close(y, y2, f"equations:{i}", lambda: f"step {k} of the drive {s}", rtol=1e-7, atol=1e-6, case=(i, s["load"]["kind"]))
        if i == ids[0]:
            res.sample(dict(id=i, states=sysm.state_names, space=str(env.action_space), refs=list(env.reference_names), speed=[w[0], w[-1]]))


def play(env, rng_seed, steps, seed):
    rng = np.random.default_rng(rng_seed)
    acts = E.action_list(env.action_space, rng, steps)
    tr = [E.freeze(env.reset(seed=seed))]
    for a in acts:
        out = env.step(a)
        tr.append(E.freeze(out[:4]))
        if out[2]:
            tr.append(E.freeze(env.reset()))
    return tr


def replaced(res, seed, ids, n, steps):
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor import reference_generators as rg
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    rng = np.random.default_rng(seed)
    for i in ids:
        cont, task, kind = split(i)
        pre = "Cont" if cont else "Finite"
        for c in range(n):
            u = float(rng.uniform(0.4, 1.0) * S.U_NOM[kind])
            par = {q: (v if q == "p" else float(v * rng.uniform(0.8, 1.2))) for q, v in PARAM[kind].items() if rng.random() < 0.4}
            wl = float(rng.uniform(0, 60))
            refs = O.DEFAULT_REFS[task][kind]
            til = float(rng.choice([0.05, 0.2])) * (1e-4 if cont else 1e-5)
            one = len(CONV[kind]) == 1
            units = lambda: [getattr(ps, pre + ("4QC" if q == "4QC" else "B6C"))(interlocking_time=til) for q in CONV[kind]]
            lims = dict(i=float(rng.uniform(1, 2) * S.I_NOM[kind]))
            options = dict(
                supply=(dict(u_nominal=u), lambda: ps.IdealVoltageSupply(u_nominal=u)),
                motor=(dict(motor_parameter=dict(par), limit_values=dict(lims)), lambda: getattr(ps, S.MOTOR_CLASS[kind])(motor_parameter=dict(par), limit_values=dict(lims))),
                load=(dict(omega_fixed=wl), lambda: ps.ConstantSpeedLoad(omega_fixed=wl)) if task != "SC" else
                (dict(load_parameter=dict(a=0.03, b=0.002, c=1e-4, j_load=2e-3)), lambda: ps.PolynomialStaticLoad(load_parameter=dict(a=0.03, b=0.002, c=1e-4, j_load=2e-3))),
                ode_solver=(dict(integrator="dopri5"), lambda: ps.ScipyOdeSolver(integrator="dopri5")),
                converter=(dict(interlocking_time=til), lambda: units()[0]) if one else (dict(subconverters=units()), lambda: getattr(ps, pre + "Multi")(subconverters=units())),
                reward_function=(dict(reward_weights=dict(omega=0.5, torque=1.5), gamma=0.7, reward_power=2), lambda: WeightedSumOfErrors(reward_weights=dict(omega=0.5, torque=1.5), gamma=0.7, reward_power=2)),
                reference_generator=(dict(reference_state=refs[0], sigma_range=(1e-3, 2e-3), limit_margin=0.5, episode_lengths=(3, 9)),
                                     lambda: rg.WienerProcessReferenceGenerator(reference_state=refs[0], sigma_range=(1e-3, 2e-3), limit_margin=0.5, episode_lengths=(3, 9)))
                if len(refs) == 1 else (dict(sub_generators=[rg.WienerProcessReferenceGenerator(reference_state=q, sigma_range=(1e-3, 2e-3)) for q in refs]),
                                        lambda: rg.MultipleReferenceGenerator([rg.WienerProcessReferenceGenerator(reference_state=q, sigma_range=(1e-3, 2e-3)) for q in refs])),
            )
            if kind == "EESM":
                options.pop("ode_solver")  # with its documented parameters this drive diverges within few steps
            pick = [q for q in options if rng.random() < 0.5] or ["supply"]
            common = {}
            if rng.random() < 0.3:
                common["tau"] = float(rng.uniform(0.5, 2)) * (1e-4 if cont else 1e-5)
            if rng.random() < 0.3:
                common["constraints"] = ()
            if rng.random() < 0.3:
                nm = zoo.default_names(kind, cont)
                common["state_filter"] = [str(q) for q in rng.choice(nm, size=int(rng.integers(1, len(nm))), replace=False)]
            kd, ki = dict(common), dict(common)
            for q in pick:
                kd[q] = options[q][0]
                ki[q] = options[q][1]()
            res.count("dict", len(pick))
            res.count("instance", len(pick))
            a = gem.make(i, visualization=(), **kd).unwrapped
            b = gem.make(i, visualization=(), **ki).unwrapped
            sb = b.physical_system
            sb = getattr(sb, "unwrapped", sb)
            used = dict(supply="supply", motor="electrical_motor", load="mechanical_load", converter="converter")
            for q in pick:
                if q in used:
                    res.check(getattr(sb, used[q]) is ki[q], f"instance-unused:{q}", lambda: f"{i}: the environment works with {getattr(sb, used[q])} instead of the given {ki[q]}", case=(i, q, "instance"))
                if q in ("reward_function", "reference_generator"):
                    res.check(getattr(b, q) is ki[q], f"instance-unused:{q}", f"{i}: {getattr(b, q)}")
            for env, how in ((a, "dict"), (b, "instance")):
                sy = env.physical_system
                if "supply" in pick:
                    res.check(sy.supply.u_nominal == u, f"supply-ignored:{how}", f"{i}: {sy.supply.u_nominal}", case=(i, "supply", how))
                if "tau" in common:
                    res.check(sy.tau == common["tau"], "tau-ignored", f"{i}: {sy.tau}")
                if "motor" in pick:
                    mp = sy.electrical_motor.motor_parameter
                    want = {q: par.get(q, PARAM[kind][q]) for q in PARAM[kind]}
                    res.check(all(mp[q] == want[q] for q in want), f"motor-parameter:{how}", lambda: f"{i}: {mp} expected {want}", case=(i, "motor", how))
                if "state_filter" in common:
                    res.check(env.observation_space[0].shape == (len(common["state_filter"]),), "filter-ignored", f"{i}")
                if "reward_function" in pick:
                    pass
                if "constraints" in common:
                    pass
            sd = int(rng.integers(2**31))
            ta, tb = play(a, sd, steps, sd), play(b, sd, steps, sd)
            res.count("twin_steps", len(ta))
            res.check(len(ta) == len(tb) and E.bits(ta) == E.bits(tb), "dict-differs-from-instance:" + ("+".join(pick) if len(pick) == 1 else "several"), lambda: f"{i} {pick}: {E.first_difference(ta, tb)}",
                      case=(i, tuple(pick)))
            if "load" in pick and task != "SC" and "state_filter" not in common:
                sy = a.physical_system
                j = list(sy.state_names).index("omega")
                res.close(ta[0][0][0][j] * sy.limits[j], wl, "load-ignored", f"{i}: speed at the reset")


def registry(res, seed):
    """identifiers of the Motor helper, and requests for something that does not exist"""
    import gymnasium
    import gym_electric_motor as gem
    from gym_electric_motor.envs import ActionType, ControlType, Motor, MotorType

    seen = set()
    for m in MotorType:
        for c in ControlType:
            for a in ActionType:
                mo = Motor(m, c, a)
                i = mo.env_id()
                seen.add(i)
                env = gem.make(i, visualization=()).unwrapped
                res.count("motor_ids")
                cont, task, kind = split(i)
                tag = dict(SpeedControl="SC", TorqueControl="TC", CurrentControl="CC")[c.name]
                res.check(cont == (a.name == "Continuous") and task == tag, f"motor-id:{i}", f"{mo} -> {i}", case=("id", i))
                res.check(set(mo.states()) <= set(env.physical_system.state_names), f"motor-states:{i}", f"{mo.states()} {env.physical_system.state_names}", case=("states", i))
                classes = dict(PermanentlyExcitedDcMotor="PermExDc", ExternallyExcitedDcMotor="ExtExDc", SeriesDc="SeriesDc", ShuntDc="ShuntDc", ExternallyExcitedSynchronousMotor="EESM",
                               DoublyFedInductionMotor="DFIM", SquirrelCageInductionMotor="SCIM", PermanentMagnetSynchronousMotor="PMSM", SynchronousReluctanceMotor="SynRM")
                res.check(classes[m.name] == kind, f"motor-kind:{i}", f"{m}")
    res.check(seen == set(S.ENV_IDS), "ids", f"{seen ^ set(S.ENV_IDS)}")
    reg = {i for i in gymnasium.registry if i.endswith("-v0") and i.split("-")[0] in ("Cont", "Finite")}
    res.check(reg == set(S.ENV_IDS), "registry", f"{reg ^ set(S.ENV_IDS)}")
    for i in S.ENV_IDS:
        for kw in (dict(supply="IdealVoltageSupply"), dict(load=type("X", (), {}))):
            try:
                gem.make(i, visualization=(), **kw)
                ok = False
            except Exception:  # documented: strings and classes are no longer accepted
                ok = True
            res.count("wrong")
            res.check(ok, "invalid-component-accepted", f"{i} {kw}", case=("wrong", i))


def wiring(res, seed, ids, n):
    """constructor arguments that are passed through by every environment class: callbacks, wrappers, constraints, solver, Jacobian flag, dashboards, tau"""
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor.core import ElectricMotorVisualization
    from gym_electric_motor.constraints import Constraint
    from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper
    from gym_electric_motor.visualization import MotorDashboard
    from gym_electric_motor.visualization.motor_dashboard_plots import StatePlot

    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    class Solver(ps.EulerSolver):
        def __init__(self, log, **kw):
            super().__init__(**kw)
            self.log = log

        def set_system_equation(self, system_equation, jac=None):
            self.log.append(("jac", jac))
            super().set_system_equation(system_equation, jac)

        def integrate(self, t):
            self.log.append(("t", t))
            return super().integrate(t)

    class Steps(Constraint):
        """violated to the full degree from the given number of calls on"""

        def __init__(self, m):
            super().__init__()
            self.m, self.n = m, 0

        def set_modules(self, ps):
            pass

        def __call__(self, state):
            self.n += 1
            return 1.0 if self.n >= self.m else 0.0

    class Marked(PhysicalSystemWrapper):
        def __init__(self):
            super().__init__()
            self.calls = []

        def reset(self):
            self.calls.append("reset")
            return super().reset()

        def simulate(self, action):
            self.calls.append(np.array(action))
            return super().simulate(action)

    class Shown(ElectricMotorVisualization):
        def __init__(self, log):
            super().__init__()
            self.log = log

        def on_reset_begin(self):
            self.log.append("reset")

        def on_step_begin(self, k, action):
            self.log.append("step")

        def render(self):
            self.log.append("render")

    rng = np.random.default_rng(seed)
    for i in ids:
        cont, task, kind = split(i)
        for rep in range(n):
            kw, slog, clog, vlog = {}, [], [], []
            pick = [q for q in ("jac", "callbacks", "wrapper", "constraint", "visualization", "dashboard", "tau", "names") if rng.random() < 0.5]
            jac = bool(rng.random() < 0.3)
            if "jac" in pick:
                kw["ode_solver"] = Solver(slog, nsteps=int(rng.integers(1, 4)))
                if not jac or rng.random() < 0.5:
                    kw["calc_jacobian"] = jac
            if "callbacks" in pick:
                kw["callbacks"] = [E.mk_recorder(clog, "a"), E.mk_recorder(clog, "b")]
            if "wrapper" in pick:
                kw["physical_system_wrappers"] = (Marked(), Marked())
            end = int(rng.integers(2, 6))
            if "constraint" in pick:
                con = Steps(end)
                kw["constraints"] = (con,)
            elif "names" in pick:
                kw["constraints"] = ("omega",)
            else:
                kw["constraints"] = ()
            kw["visualization"] = ()
            if "visualization" in pick:
                kw["visualization"] = Shown(vlog)
            elif "dashboard" in pick:
                st = [str(q) for q in rng.choice(STATES[kind], size=int(rng.integers(1, 4)), replace=False)]
                kw["visualization"] = dict(state_plots=st)
            if "tau" in pick:
                kw["tau"] = float(rng.uniform(0.3, 1)) * (1e-4 if cont else 1e-5)
            env = gem.make(i, **kw).unwrapped
            if "jac" in pick and not slog:
                slog.append(("none",))
            src = S.Actions(env.action_space, rng)
            env.reset(seed=int(rng.integers(2**31)))
            acts, done, k = [], False, 0
            while not done and k < 7:
                a = src()
                acts.append(np.array(a))
                _, _, done, _, _ = env.step(a)
                k += 1
            env.render()
            case = (i, tuple(pick))
            res.case((i, tuple(pick)))
            res.count("wired", len(pick))
            if "jac" in pick:
                js = [x[1] for x in slog if x[0] == "jac"]
                want = kw.get("calc_jacobian", True)
                has = kind != "none"
                res.check(len(js) > 0 and (js[-1] is not None) == (want and has), f"jacobian-flag:{i}", lambda: f"{i} calc_jacobian={want}: the solver got {js}", case=case)
                ts = [x[1] for x in slog if x[0] == "t"]
                tau = kw.get("tau", 1e-4 if cont else 1e-5)
                res.check(len(ts) >= k and abs(ts[-1] - k * tau) < 1e-9 * tau * k, f"solver-unused:{i}", lambda: f"{i}: {k} steps of {tau} were integrated to {ts[-1:]}", case=case)
            if "callbacks" in pick:
                want = [(nm, ev) for ev in ["reset_begin", "reset_end"] + ["step_begin", "step_end"] * k for nm in "ab"]
                got = [tuple(x[:2]) for x in clog if x[1] != "set_env"]
                res.check(got == want, f"callbacks:{i}", lambda: f"{i}: events {got[:8]} instead of {want[:8]}", case=case)
            if "wrapper" in pick:
                for w in kw["physical_system_wrappers"]:
                    ok = w.calls[:1] == ["reset"] and len(w.calls) == 1 + k and all(np.array_equal(x, y) for x, y in zip(w.calls[1:], acts))
                    res.check(ok, f"wrapper:{i}", lambda: f"{i}: wrapper was called with {w.calls[:4]}", case=case)
            if "constraint" in pick:
                res.check(done and k == end, f"constraint:{i}", lambda: f"{i}: constraint violated in step {end}, episode over {done} after {k} steps", case=case)
            elif "names" not in pick:
                res.check(not done, f"unconstrained:{i}", lambda: f"{i}: an episode without constraints ended after {k} steps", case=case)
            if "visualization" in pick:
                res.check(vlog == ["reset"] + ["step"] * k + ["render"], f"visualization:{i}", lambda: f"{i}: {vlog}", case=case)
            elif "dashboard" in pick:
                vis = env.visualizations
                got = None
                if len(vis) == 1 and isinstance(vis[0], MotorDashboard):
                    vis[0].force_render()
                    inv = {StatePlot.state_labels.get(q, q): q for q in STATES[kind]}
                    got = [inv[ax.get_ylabel()] for ax in vis[0].figure().axes if ax.get_ylabel() in inv]
                    plt.close("all")
                    res.count("dashboards")
                res.check(got == st, f"dashboard:{i}", lambda: f"{i}: dashboard with {got} instead of {st}", case=case)
            if "tau" in pick:
                res.check(env.physical_system.tau == kw["tau"], f"tau-ignored:{i}", f"{env.physical_system.tau}", case=case)
            env.close()
