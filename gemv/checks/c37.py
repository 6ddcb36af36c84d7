"""C37: the cascades of gem_controllers compute the documented control laws, composed by make or by hand."""
import warnings

import numpy as np

from .. import ctrl as K

PROPERTY = "C37"
RULE = ("(law) controllers of random motors, parameters, sampling times and base controllers are called with random observations and references, with resets in between; every torque, current and voltage reference of"
        " the cascade is compared with a model of its own of the P, PI, PID and three-point laws (gains from the motor parameters, sampling time and design parameter a; integrators with per-axis anti-windup);"
        " (compose) the same cascade built from its public classes, with stages given explicitly or exchanged through their properties, must return the actions of the one built by make and call the given stages;"
        " (clip) the clipping stages are called directly with random margins: inside the limits less the margin, difference as cut off;"
        " distinct = motor x task x action type x base controllers")
ASSUMPTIONS = ["the operating point selection and the feedforward are judged by C24 and C31 and taken from the controller here"]
REQUIRE = {"current_law": 15000, "speed_law": 3000, "integrators": 8000, "clipped_axis": 300, "three_point": 1000, "pid": 1500, "composed": 100, "stages_called": 4000, "gains": 200, "stages_clipped": 1500}
LEVEL = "monitored"
RTOL = 1e-9


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for j in range(24 if q else 96):
        out.append(("law", dict(seed=[seed, j], n=14 if q else 28, steps=80 if q else 200)))
        out.append(("compose", dict(seed=[seed, 1000 + j], n=8 if q else 16, steps=40)))
        if j < 8:
            out.append(("clip", dict(seed=[seed, 2000 + j], n=8 if q else 32, calls=30)))
    return out


def spec(rng, c):
    m = (K.DC + ("PMSM", "SynRM", "SCIM"))[c % 7]
    if m in K.DC:
        return K.random_spec(rng, motor=m)
    if c % 14 == 13 and rng.random() < 0.5:
        m = "EESM"
    s = K.random_spec(rng, motor=m, finite=False)
    if m == "EESM" or rng.random() < 0.75:  # the tables of the operating point selection take long
        s["task"] = "CC"
    return s


def inductances(s, p):
    m = s["motor"]
    if m == "SeriesDc":
        return [p["l_a"] + p["l_e"]]
    if m in ("PermExDc", "ShuntDc"):
        return [p["l_a"]]
    if m == "ExtExDc":
        return [p["l_a"], p["l_e"]]
    if m in ("PMSM", "SynRM"):
        return [p["l_d"], p["l_q"]]
    if m == "EESM":
        return [p["l_d"], p["l_q"], p["l_e"]]
    return None


class Law:
    """One base controller with its own integrator."""

    def __init__(self, kind, kp, ki, kd, tau, low, high):
        self.kind, self.kp, self.ki, self.kd, self.tau = kind, np.asarray(kp, float), np.asarray(ki, float), np.asarray(kd, float), tau
        self.low, self.high = np.asarray(low, float), np.asarray(high, float)
        self.reset()

    def reset(self):
        self.integral = np.zeros_like(self.kp)
        self.last = np.zeros_like(self.kp)

    def output(self, x, ref):
        e = ref - x
        if self.kind == "ThreePoint":
            h = 0.01 * (self.high - self.low)
            self.near = bool(np.any(np.abs(np.abs(e) - h) < 1e-9 * (1 + h)))
            return np.where(x + h < ref, self.high, np.where(x - h > ref, self.low, 0.0))
        u = self.kp * e
        if self.kind in ("PI", "PID"):
            u = u + self.ki * self.integral
        if self.kind == "PID":
            u = u + self.kd * (e - self.last) / self.tau
            self.last = e
        return u

    def integrate(self, x, ref, clipped):
        self.integral = self.integral + self.tau * (ref - x) * ~clipped


def close(a, b, scale):
    return bool(np.all(np.abs(np.asarray(a) - b) <= RTOL * (scale + np.abs(b))))


def limit(s, v, low, high, length):
    """-> clipped, which axes were clipped, whether the decision is too close to call"""
    v = np.asarray(v, float)
    out = np.clip(v, low, high)
    near = np.any((np.abs(v - low) < 1e-9 * length) | (np.abs(v - high) < 1e-9 * length))
    if s["motor"] in K.AC:
        n = np.sqrt(np.sum((v[:2] / length[:2]) ** 2))
        out[:2] = v[:2] if n < 1 else v[:2] / n
        near = abs(n - 1) < 1e-9 or (len(v) > 2 and bool(np.any((np.abs(v[2:] - low[2:]) < 1e-9 * length[2:]) | (np.abs(v[2:] - high[2:]) < 1e-9 * length[2:]))))
    return out, out != v, bool(near)


def law(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = spec(rng, c + seed[-1])
        env = K.build(s)
        env.reset(seed=1)
        p, ctl = K.params(s), K.controller(s, env)
        if s["motor"] == "EESM":
            p = dict(env.physical_system.electrical_motor.motor_parameter)
        tau, a = float(env.physical_system.tau), s["a"]
        lim, sp = np.asarray(env.limits, float), env.observation_space[0]
        iu, ii, iw, it = K.idx(env, K.VOLT[s["motor"]]), K.idx(env, K.CURR[s["motor"]]), K.idx(env, ["omega"]), K.idx(env, ["torque"])
        sc, tc, cc = K.stages(ctl, s)
        l = inductances(s, p)
        if l is None:  # leakage inductance of the induction machine
            l_s, l_r = p["l_m"] + p["l_sigs"], p["l_m"] + p["l_sigr"]
            l = [l_s - p["l_m"] ** 2 / l_r] * 2
        kp = np.array(l) / (tau * a)
        ki = kp / (tau * a**2)
        cur = Law(s["cc"], kp, ki, kp * tau, tau, sp.low[iu] * lim[iu], sp.high[iu] * lim[iu])
        spd = None
        if sc is not None:
            t_n = a**2 * tau if s["cc"] in ("PI", "PID") else float(np.min(tc.t_n))
            res.check(close(np.min(tc.t_n), t_n, 0.0), f"time-constant:{s['motor']}", f"{K.tag(s)} {s['cc']}: the inner time constant is {tc.t_n}, expected {t_n}")
            j = float(env.physical_system.mechanical_load.j_total)
            kps = np.array([j / (a * t_n)])
            kis = kps / (a * t_n)
            spd = Law(s["sc"], kps, kis, kps * tau, tau, sp.low[it] * lim[it], sp.high[it] * lim[it])
        key = f"{s['motor']}:{s['cc']}"
        res.count("gains")
        # a session of random calls
        ctl.reset()
        ir = K.idx(env, env.reference_names)
        obs = None
        for k in range(steps):
            if rng.random() < 0.03:
                ctl.reset()
                cur.reset()
                if spd:
                    spd.reset()
            o, r = K.random_obs(rng, env, k)
            if obs is not None and rng.random() < 0.7:  # small errors, below the limits
                o = np.clip(obs + 0.02 * rng.normal(size=len(o)), sp.low, sp.high)
            if s["task"] == "CC" and rng.random() < 0.6:
                r = np.clip(o[ir] + 10.0 ** rng.uniform(-5, -1) * rng.normal(size=len(ir)), env.observation_space[1].low, env.observation_space[1].high)
            elif s["task"] == "SC" and rng.random() < 0.6:
                r = np.clip(o[ir] + 10.0 ** rng.uniform(-6, -1) * rng.normal(size=1), env.observation_space[1].low, env.observation_space[1].high)
            obs = o
            x, ref = o * lim, r * lim[ir]
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                ctl.control(o, r)
            again = False
            if spd:
                pre = spd.output(x[iw], ref)
                want, cl, near = limit(dict(motor="DC"), pre, spd.low, spd.high, lim[it])
                got = np.asarray(sc.torque_reference, float)
                near = near or (s["sc"] == "ThreePoint" and spd.near)
                if not near:
                    res.check(close(got, want, lim[it]), f"speed-law:{s['sc']}", f"{K.tag(s)} {s['sc']} a={a} tau={tau} step {k}: torque reference {got}, expected {want} for omega {x[iw]}, reference {ref}, integral {spd.integral}",
                              case=(s["motor"], "speed", s["sc"], bool(cl.any())))
                    res.count("speed_law")
                    if s["sc"] in ("PI", "PID"):
                        spd.integrate(x[iw], ref, cl)
                again |= near
                ref = got
            if tc is not None:
                ref = np.asarray(tc.current_reference, float)
            if not np.all(np.isfinite(ref)):  # torques of the wrong sign of series machines
                ctl.reset(), cur.reset(), spd and spd.reset()
                continue
            pre = cur.output(x[ii], ref)
            if s["decoupling"]:
                pre = np.asarray(cc.emf_feedforward(x, pre), float)
            want, cl, near = limit(s, pre, cur.low, cur.high, lim[iu])
            near = near or (s["cc"] == "ThreePoint" and cur.near)
            got = np.asarray(cc.voltage_reference, float)
            if not near:
                scale = np.max(lim[iu]) + np.max(np.abs(pre)) * 1e-3
                if s["motor"] in K.AC and s["task"] == "CC":  # the output of a current controller without a superior stage is that of the transformation
                    want = np.asarray(cc.transformation_stage(x, want), float)
                res.check(close(got, want, scale), f"current-law:{key}", f"{K.tag(s)} {s['cc']} a={a} tau={tau} step {k}: voltage reference {got}, expected {want} (before the limit {pre}) for currents {x[ii]},"
                          f" references {ref}, integral {cur.integral}, decoupling {s['decoupling']}", case=(s["motor"], s["task"], s["cc"], s["decoupling"], bool(cl.any())))
                res.count("current_law")
                res.count({"ThreePoint": "three_point", "PID": "pid"}.get(s["cc"], "proportional"))
                if s["cc"] in ("PI", "PID"):
                    cur.integrate(x[ii], ref, cl)
                    res.count("clipped_axis", int(cl.any() and not cl.all()))
                    g = np.asarray(cc.current_base_controller.integrator, float)
                    res.check(close(g, cur.integral, tau * lim[ii]), f"integrator:{key}", f"{K.tag(s)} {s['cc']} step {k}: integrator {g}, expected {cur.integral} (clipped axes {cl})")
                    res.count("integrators")
            if near or again:  # the decision is within the rounding: start again
                ctl.reset(), cur.reset(), spd and spd.reset()


def compose(res, seed, n, steps):
    import gem_controllers as gc

    rng = np.random.default_rng(seed)
    for c in range(n):
        s = spec(rng, c + seed[-1])
        if s["motor"] in K.DC and s["task"] == "CC":
            s["task"] = str(rng.choice(["TC", "SC"]))
        env, eid = K.build(s), K.env_id(s)
        env.reset(seed=1)
        made = K.controller(s, env)
        calls = {}

        def spy(obj, name):
            """the same stage, counting its calls"""
            cls = type(obj)
            calls[name] = 0

            def __call__(self, *args, **kw):
                calls[name] += 1
                return cls.__call__(self, *args, **kw)

            obj.__class__ = type(cls.__name__, (cls,), {"__call__": __call__})
            return obj

        via = str(rng.choice(["constructor", "property", "default"]))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            top = cc = gc.PICurrentController(env, eid, base_current_controller=s["cc"], decoupling=s["decoupling"])
            if via == "property":
                cc.current_base_controller = spy(gc.stages.base_controllers.get(s["cc"])("CC"), "current controller")
            if s["task"] != "CC":
                motor = s["motor"]
                clip = gc.stages.clipping_stages.AbsoluteClippingStage("TC") if motor in K.DC else gc.stages.clipping_stages.SquaredClippingStage("TC")
                ops = gc.stages.torque_to_current_function[motor]()
                if via == "constructor":
                    top = gc.TorqueController(env, eid, current_controller=cc, torque_to_current_stage=spy(ops, "operating point"), clipping_stage=spy(clip, "clipping"))
                elif via == "property":
                    top = gc.TorqueController(env, eid)
                    top.current_controller = cc
                    top.torque_to_current_stage = spy(ops, "operating point")
                    top.clipping_stage = spy(clip, "clipping")
                elif s["cc"] == "PI" and s["decoupling"]:
                    top = gc.TorqueController(env, eid)  # everything by default
                else:
                    top = gc.TorqueController(env, eid, current_controller=cc)
            if s["task"] == "SC":
                if via == "default" and s["cc"] == "PI" and s["decoupling"]:
                    top = gc.PISpeedController(env, eid, base_speed_controller=s["sc"])
                elif via == "property":
                    inner = top
                    top = gc.PISpeedController(env, eid, base_speed_controller=str(rng.choice(K.BASES)))
                    top.torque_controller = inner
                    top.speed_control_stage = spy(gc.stages.base_controllers.get(s["sc"])("SC"), "speed controller")
                else:
                    top = gc.PISpeedController(env, eid, torque_controller=top, base_speed_controller=s["sc"])
            hand = gc.GymElectricMotorAdapter(env, eid, top)
            hand.should_plot = False
            kw = dict(a=s["a"])
            if s["task"] != "CC":
                kw["current_safety_margin"] = s["margin"]
            hand.tune(env, eid, **kw)
            hand.reset()
            made.reset()
            for k in range(steps):
                if rng.random() < 0.05:
                    hand.reset(), made.reset()
                o, r = K.random_obs(rng, env, k)
                before = dict(calls)
                x, y = hand.control(o, r), made.control(o, r)
                ok = bool(np.allclose(x, y, rtol=1e-12, atol=1e-12, equal_nan=True))
                res.check(ok, f"composed:{via}:{s['task']}", lambda: f"{K.tag(s)} cc={s['cc']} sc={s['sc']} composed by hand ({via}): action {x} at call {k}, the controller of make returns {y}",
                          case=(s["motor"], s["task"], s["cc"], s["sc"], via))
                for name in calls:
                    res.check(calls[name] == before[name] + 1, f"stage-not-used:{name}", f"{K.tag(s)}: the given {name} stage ({via}) was called {calls[name] - before[name]} times for one action")
                    res.count("stages_called")
                if not ok:
                    break
        res.count("composed")


def clip(res, seed, n, calls):
    """The public clipping stages keep references inside the limits less the safety margin and report what they cut off."""
    import gem_controllers as gc

    st = gc.stages.clipping_stages
    rng = np.random.default_rng(seed)
    for c in range(n):
        m = (K.DC + ("PMSM", "SynRM", "SCIM", "EESM"))[(c + seed[-1]) % 8]
        task = str(rng.choice(["CC", "TC", "SC"]))
        s = K.random_spec(rng, motor=m, finite=False, task="CC")
        env, eid = K.build(s), K.env_id(s)
        env.reset(seed=1)
        margin = float(rng.choice([0.0, 0.1, 0.2, 0.35, 0.5]))
        names = K.VOLT[m] if task == "CC" else K.CURR[m] if task == "TC" else ["torque"]
        ix = K.idx(env, names)
        lim, sp = np.asarray(env.limits, float)[ix] * (1 - margin), env.observation_space[0]
        kind = "Absolute" if m in K.DC or len(names) == 1 else "Combined" if m == "EESM" else str(rng.choice(["Squared", "Absolute"]))
        stage = getattr(st, kind + "ClippingStage")(task)
        stage.tune(env, eid, margin=margin)
        if rng.random() < 0.5:
            stage.reset()
        low, high = sp.low[ix] * lim, sp.high[ix] * lim
        n_sq = 2 if kind != "Absolute" else 0
        for _ in range(calls):
            ref = rng.normal(size=len(ix)) * lim * rng.choice([0.2, 0.7, 1.0, 4.0])
            before = ref.copy()
            out = np.asarray(stage(np.zeros(len(env.limits)), ref), float)
            exp = np.clip(ref, low, high)
            if n_sq:
                r = np.sqrt(np.sum((ref[:2] / lim[:2]) ** 2))
                exp[:2] = ref[:2] if r < 1 else ref[:2] / r
            what = f"{K.env_id(s)} {kind}ClippingStage({task}) margin {margin}"
            res.check(bool(np.all(np.abs(out - exp) <= 1e-9 * lim)), f"clipping:{kind}", lambda: f"{what}: reference {before} is clipped to {out}, expected {exp} (limits less margin {lim})",
                      case=(m, kind, task, margin > 0))
            res.check(bool(np.all(np.abs(np.asarray(stage.clipping_difference) - (before - exp)) <= 1e-9 * (lim + np.abs(before)))), f"clipping-difference:{kind}",
                      lambda: f"{what}: reports {stage.clipping_difference} as cut off from {before}, {before - exp} was")
            res.check(bool(np.all((ref == before))), f"clipping-writes:{kind}", f"{what}: the passed reference was modified")
            res.count("stages_clipped")
