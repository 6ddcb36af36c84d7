"""C39: user-defined components are driven by the documented protocol."""
import math

import numpy as np

from .. import envrun as E
from .. import refsim as R
from .. import systems as S
from .. import zoo

PROPERTY = "C39"
RULE = ("random drives with user-written components on the documented base classes: loads with further mechanical states, converters with their own switching patterns, supplies"
        " that depend on time and current, solvers, motors with saturation, reference generators, rewards, constraints, wrappers and callbacks, all of which log what they are"
        " asked; their logs are judged against the documented protocol and the states against an independent integration; distinct = motor x load x converter x supply x solver"
        " (physics) and environment x protocol rule")
ASSUMPTIONS = ["the supply is asked with the time of the step's beginning (as the supplied AC and RC supplies are)",
               "voltages between two switching times are those of the converter at the end of the interval (as in the supplied converters)"]
REQUIRE = {"steps": 8000, "multi_state": 6000, "omega_not_first": 2000, "segments": 16000, "equation_calls": 80000, "jacobians": 400, "static": 250, "resets_seen": 600, "env_steps": 4000, "user_merges": 1000, "fully_violated": 100,
           "seeded_resets": 60, "closed": 40, "random_loads": 300}


def jobs(tier, seed):
    q = tier == "quick"
    return ([("physics", dict(seed=[seed, j], n=40 if q else 300, steps=25 if q else 60)) for j in range(16 if q else 48)]
            + [("jacobian", dict(seed=[seed, 100 + j], n=80 if q else 500)) for j in range(4)]
            + [("initial", dict(seed=[seed, 200 + j], n=30 if q else 150)) for j in range(4)]
            + [("protocol", dict(seed=[seed, 300 + j], n=16 if q else 120, steps=60 if q else 150)) for j in range(16 if q else 48)])


# ------------------------------------------------------------------ user-defined components and their twins
class LoadTwin:
    """Shaft with a spring to a second mass (gamma twist, omega_l speed of the second mass) or with a heated brake (theta)."""

    def __init__(self, v, j_rotor):
        self.v, self.n, self.wi, self.J = v, len(v["names"]), v["names"].index("omega"), v["j"] + j_rotor

    def deriv(self, t, m, T):
        v = self.v
        s = dict(zip(v["names"], m))
        w = s["omega"]
        d = {}
        if "theta" in s:
            Tl = (v["b"] + v["e"] * s["theta"]) * w
            d["theta"] = v["h"] * w * w - v["g"] * s["theta"]
        else:
            Tl = v["c"] * s["gamma"] + v["b"] * w
            d["gamma"] = w - s.get("omega_l", 0.0)
            if "omega_l" in s:
                d["omega_l"] = (v["c"] * s["gamma"] + v["e"] * math.sin(40.0 * t)) / v["j2"]
        d["omega"] = (T - Tl) / self.J
        return [d[x] for x in v["names"]]


def load_spec(rng, kind, j_rotor):
    names = [["omega", "gamma"], ["omega", "gamma", "omega_l"], ["omega", "theta"], ["gamma", "omega"], ["omega_l", "gamma", "omega"], ["theta", "omega"]][
        int(rng.choice([0, 1, 2, 3, 4, 5]))]
    w = float(S.W_NOM[kind] * rng.uniform(0.05, 0.5))
    top = S.I_NOM[kind] * 0.2
    return dict(names=names, j=float(j_rotor * rng.uniform(0.5, 4)), b=float(rng.uniform(0, 0.01)), c=float(rng.uniform(0.1, 2) * top), e=float(rng.uniform(0, 1e-3)),
                h=float(rng.uniform(0, 1e-2)), g=float(rng.uniform(1, 20)), j2=float(j_rotor * rng.uniform(1, 5)),
                init=dict(omega=w, gamma=float(rng.uniform(-0.5, 0.5)), omega_l=w * 0.9, theta=float(rng.uniform(0, 50))))


LIM = dict(omega=2000.0, gamma=40.0, omega_l=1500.0, theta=400.0)
NOM = dict(omega=1000.0, gamma=10.0, omega_l=900.0, theta=250.0)


def mk_user_load(v, log=None, init=None):
    from gym_electric_motor.physical_systems import MechanicalLoad

    class UserLoad(MechanicalLoad):
        OMEGA_IDX = v["names"].index("omega")
        HAS_JACOBIAN = True
        _default_initializer = dict(states={n: v["init"][n] for n in v["names"]}, interval=None, random_init=None, random_params=(None, None))

        def __init__(self):
            super().__init__(state_names=list(v["names"]), j_load=v["j"], load_initializer=init)
            self._limits = {n: LIM[n] for n in v["names"]}
            self._nominal_values = {n: NOM[n] for n in v["names"]}

        def mechanical_ode(self, t, mechanical_state, torque):
            if log is not None:
                log.append(("load", t, np.array(mechanical_state, float), float(np.squeeze(torque))))
            tw = LoadTwin(v, 0.0)
            tw.J = self.j_total
            return np.array(tw.deriv(t, np.array(mechanical_state, float), float(np.squeeze(torque))))

        def mechanical_jacobian(self, t, mechanical_state, torque):
            m = np.array(mechanical_state, float)
            n = len(m)
            # exact derivatives of the equations above
            s, idx = dict(zip(v["names"], m)), {x: i for i, x in enumerate(v["names"])}
            A, B = np.zeros((n, n)), np.zeros(n)
            wi = idx["omega"]
            B[wi] = 1 / self.j_total
            if "theta" in idx:
                A[wi, wi] = -(v["b"] + v["e"] * s["theta"]) / self.j_total
                A[wi, idx["theta"]] = -v["e"] * s["omega"] / self.j_total
                A[idx["theta"], wi] = 2 * v["h"] * s["omega"]
                A[idx["theta"], idx["theta"]] = -v["g"]
            else:
                A[wi, wi], A[wi, idx["gamma"]] = -v["b"] / self.j_total, -v["c"] / self.j_total
                A[idx["gamma"], wi] = 1.0
                if "omega_l" in idx:
                    A[idx["gamma"], idx["omega_l"]] = -1.0
                    A[idx["omega_l"], idx["gamma"]] = v["c"] / v["j2"]
            return A, B

        def get_state_space(self, omega_range):
            low, high = {n: -0.9 for n in v["names"]}, {n: 0.8 for n in v["names"]}
            low["omega"], high["omega"] = omega_range
            if "theta" in low:
                low["theta"] = 0.0
            return low, high

    return UserLoad()


class PwmTwin:
    """n output voltages; the step is divided at the fractions ``cuts``; in part j the outputs are gains[j] * action."""

    def __init__(self, v, tau):
        self.v, self.tau = v, tau

    def reset(self):
        pass

    def begin(self, action, tau):
        self.a = [float(x) for x in np.ravel(action)]
        return [c * tau for c in self.v["cuts"]] + [tau]

    def part(self, rel):
        for j, c in enumerate(self.v["cuts"]):
            if rel <= c * self.tau + self.tau * 1e-6:
                return j
        return len(self.v["cuts"])

    def output(self, i, tend):
        g = self.v["gains"][self.part(tend)]
        u = [g * a - self.v["drop"] * math.tanh(x) for a, x in zip(self.a, i)]
        return u, sum(g * a * x for a, x in zip(self.a, i))


def mk_user_converter(v, tau, log=None, j=0):
    from gymnasium.spaces import Box

    from gym_electric_motor.physical_systems.converters import PowerElectronicConverter

    class UserConverter(PowerElectronicConverter):
        voltages = Box(-1, 1, shape=(v["n"],), dtype=np.float64)
        currents = Box(-1, 1, shape=(v["n"],), dtype=np.float64)
        action_space = Box(-1, 1, shape=(v["n"],), dtype=np.float64)
        _reset_action = np.zeros(v["n"])

        def __init__(self):
            super().__init__(tau=tau)
            self.twin = PwmTwin(v, tau)
            self.twin.a, self.now = [0.0] * v["n"], 0

        def reset(self):
            if log is not None:
                log.append(("converter.reset",))
            super().reset()
            return [0.0] * v["n"]

        def set_action(self, action, t):
            if log is not None:
                log.append(("set_action", E.freeze(np.asarray(action, float)), t, self.tau, j))
            return super().set_action(action, t)

        def _set_switching_pattern(self, action):
            self.twin.tau = self.tau
            return [self._action_start_time + x for x in self.twin.begin(action, self.tau)]

        def convert(self, i_out, t):
            self.rel = t - self._action_start_time
            u, _ = self.twin.output(i_out, self.rel)
            if log is not None:
                log.append(("convert", [float(np.squeeze(x)) for x in i_out], t, j))
            return u

        def i_sup(self, i_out):
            i = self.twin.output(i_out, self.rel)[1]
            if log is not None:
                log.append(("i_sup", [float(np.squeeze(x)) for x in i_out], i, j))
            return i

    return UserConverter()


class MultiTwin:
    def __init__(self, vs, tau):
        self.subs, self.tau = [PwmTwin(v, tau) for v in vs], tau

    def reset(self):
        pass

    def begin(self, action, tau):
        a, times = list(np.ravel(action)), set()
        for t in self.subs:
            times |= {round(x, 15) for x in t.begin(a[: t.v["n"]], tau)}
            a = a[t.v["n"]:]
        return sorted(times)

    def output(self, i, tend):
        u, total, i = [], 0.0, list(i)
        for t in self.subs:
            x, y = t.output(i[: t.v["n"]], tend)
            u, total, i = u + list(x), total + y, i[t.v["n"]:]
        return u, total


class SupplyTwin:
    def __init__(self, v):
        self.v = v
        self.q = 0.0

    def reset(self):
        self.q = 0.0
        return [self.v["u"]]

    def get(self, t, i):
        v = self.v
        self.q += v["leak"] * math.tanh(i / 50.0)  # a state that advances with every inquiry
        return [v["u"] * (1 + 0.05 * math.sin(v["f"] * t)) - v["R"] * i - self.q]


def mk_user_supply(v, log=None):
    from gym_electric_motor.physical_systems import VoltageSupply

    class UserSupply(VoltageSupply):
        def __init__(self):
            super().__init__(v["u"])
            self.supply_range = (0.2 * v["u"], 1.5 * v["u"])
            self.twin = SupplyTwin(v)

        def reset(self):
            if log is not None:
                log.append(("supply.reset",))
            return self.twin.reset()

        def get_voltage(self, t, i_sup):
            u = self.twin.get(t, float(np.squeeze(i_sup)))
            if log is not None:
                log.append(("supply", t, float(np.squeeze(i_sup)), list(u)))
            return u

    return UserSupply()


def mk_user_solver(n, log=None):
    """Classical Runge-Kutta with ``n`` substeps on the documented interface."""
    from gym_electric_motor.physical_systems import OdeSolver

    class UserSolver(OdeSolver):
        def set_initial_value(self, initial_value, t=0):
            if log is not None:
                log.append(("initial", E.freeze(np.asarray(initial_value, float)), t))
            super().set_initial_value(np.array(initial_value, float), t)

        def integrate(self, t):
            if log is not None:
                log.append(("integrate", self._t, t))
            self._y = R.rk4(self._rhs, self._y, self._t, t, n)
            self._t = t
            return self._y

        def _rhs(self, t, y):
            if log is not None:
                log.append(("call", t, np.array(y)))
            d = np.array(self._system_equation(t, y, *self._f_params), float)
            if log is not None:
                log.append(("result", np.array(d)))
            return d

        def jacobian(self, t, y):
            return None if self._system_jacobian is None else np.array(self._system_jacobian(t, y, *self._f_params))

        def equation(self, t, y):
            return np.array(self._system_equation(t, y, *self._f_params))

    return UserSolver()


class SatTwin(R.PermExDc):
    def torque(self, x):
        return self.p["psi_e"] * x[0] / (1 + (x[0] / 200.0) ** 2)

    def deriv(self, x, u, w):
        p = self.p
        return np.array([(u[0] - p["r_a"] * x[0] - p["psi_e"] / (1 + (x[0] / 200.0) ** 2) * w) / p["l_a"]])


def mk_user_motor(param, init):
    from gym_electric_motor.physical_systems import DcPermanentlyExcitedMotor

    class Saturated(DcPermanentlyExcitedMotor):
        HAS_JACOBIAN = False

        def torque(self, currents):
            return self._motor_parameter["psi_e"] * currents[0] / (1 + (currents[0] / 200.0) ** 2)

        def electrical_ode(self, state, u_in, omega, *_):
            p, i = self._motor_parameter, state[0]
            return np.array([(u_in[0] - p["r_a"] * i - p["psi_e"] / (1 + (i / 200.0) ** 2) * omega) / p["l_a"]])

    return Saturated(motor_parameter=dict(param), motor_initializer=dict(states=dict(init)))


def outputs(kind):
    """Numbers of outputs of the converters (more than one: in a multi converter)."""
    return {"ExtExDc": [1, 1], "EESM": [3, 1], "DFIM": [3, 3]}.get(kind, [1] if kind in S.DC else [3])


def drive(rng, log=None, kind=None, init=None, all_user=False):
    """-> (spec, system, solver, twin, description): any part may be user-defined."""
    from gym_electric_motor import physical_systems as ps

    s = S.random_spec(rng, kind=kind, loads=("const", "poly"), supplies=("ideal", "rc"), til_prob=0.3, dq_prob=0.2)
    kind = s["kind"]
    s["solver"] = dict(kind="euler", n=2)
    if s["load"]["kind"] == "poly":
        s["load"]["a"] = 0.0
    if s["cont"]:  # (continuous 4QC with interlocking: known finding of C08)
        s["til"] = [0.0 if cv == "4QC" else t for cv, t in zip(s["conv"], s["til"])]
    use = dict(load=all_user or rng.random() < 0.75, converter=all_user or rng.random() < 0.5, supply=all_user or rng.random() < 0.5, motor=kind == "PermExDc" and rng.random() < 0.5)
    n = int(rng.choice([1, 2, 3]))
    sub = lambda f, x, t0, t1: R.rk4(f, x, t0, t1, n)  # noqa: E731
    solver = mk_user_solver(n, log)
    twin = S.mk_twin(s, sub)
    d = dict(kind=kind, use=use, n=n, tau=s["tau"], dq=s["dq"])
    kw = dict(tau=s["tau"], ode_solver=solver)
    if use["load"]:
        d["load"] = load_spec(rng, kind, s["param"]["j_rotor"])
        kw["load"] = mk_user_load(d["load"], log, init)
        twin.load = LoadTwin(d["load"], s["param"]["j_rotor"])
        twin.nm, twin.wi = twin.load.n, twin.load.wi
    else:
        kw["load"] = S.mk_load(s)
    if use["converter"]:
        d["conv"] = []
        for no in outputs(kind):
            cuts = sorted(float(x) for x in rng.choice([0.1, 0.25, 0.4, 0.5, 0.7, 0.85], size=int(rng.integers(0, 4)), replace=False))
            d["conv"].append(dict(n=no, cuts=cuts, gains=[float(rng.uniform(-0.5, 1)) for _ in range(len(cuts) + 1)], drop=float(rng.uniform(0, 0.01))))
        subs = [mk_user_converter(v, s["tau"], log, j) for j, v in enumerate(d["conv"])]
        kw["converter"] = subs[0] if len(subs) == 1 else ps.ContMultiConverter(subconverters=subs)
        twin.conv = PwmTwin(d["conv"][0], s["tau"]) if len(subs) == 1 else MultiTwin(d["conv"], s["tau"])
    else:
        kw["converter"] = S.mk_conv(s)
    if use["supply"]:
        d["supply"] = dict(u=s["supply"]["u"], R=float(rng.uniform(0, 0.02)), f=float(rng.uniform(50, 900)), leak=float(rng.uniform(0, 0.01)))
        kw["supply"] = mk_user_supply(d["supply"], log)
        twin.supply = SupplyTwin(d["supply"])
    else:
        kw["supply"] = S.mk_supply(s)
    if use["motor"]:
        kw["motor"] = mk_user_motor(s["param"], s["init"])
        twin.motor = SatTwin(s["param"])
    else:
        kw["motor"] = S.mk_motor(s)
    if s["dq"]:
        kw["control_space"] = "dq"
    return s, getattr(ps, S.SYSTEM_CLASS[kind])(**kw), solver, twin, d


def near_sign(s, twin, x):
    """Built-in converters decide by the sign of currents."""
    m, k = x[twin.nm:], s["kind"]
    if k in S.SYNC:
        i = list(R.dq2abc(m[:2], m[-1])) + ([m[2]] if k == "EESM" else [])
    elif k in S.IND:
        i = list(R.ab2abc(m[:2])) + (list(R.ab2abc(R.ab2dq(twin.motor.i_r(m), m[4]))) if k == "DFIM" else [])
    else:
        i = twin.motor.i_in(m)
    return np.min(np.abs(i)) < 1e-6 * S.I_NOM[k]


# ------------------------------------------------------------------ job 1: physics
def physics(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        log = []
        s, sysm, sol, tw, d = drive(rng, log)
        kind = d["kind"]
        tag = (kind, tuple(d["load"]["names"]) if "load" in d else "supplied", tuple(len(v["cuts"]) for v in d["conv"]) if "conv" in d else "supplied", "supply" in d, d["use"]["motor"])
        static(res, d, sysm, tag)
        act = S.Actions(sysm.action_space, rng)
        lim = np.array(sysm.limits, float)
        names = list(sysm.state_names)
        log.clear()
        start = np.array(sysm.reset(), float) * lim
        tw.reset()
        resets = [e[0] for e in log]
        res.check(resets.count("initial") == 1 and resets.count("converter.reset") == len(d.get("conv", [])) and resets.count("supply.reset") == int("supply" in d)
                  and not any(x in resets for x in ("set_action", "convert", "integrate")), "reset-protocol", f"reset asked {resets} for {tag}", case=("reset", tag))
        ini = [e for e in log if e[0] == "initial"][-1]
        res.check(ini[2] == 0, "initial-time", f"set_initial_value with t={ini[2]}")
        if "load" in d:
            want = [d["load"]["init"][x] for x in d["load"]["names"]]
            res.close(ini[1][: tw.nm], want, "initial-mechanical-state", lambda: f"{d['load']['names']} of {tag}")
            res.close([start[names.index(x)] for x in d["load"]["names"]], want, "initial-observed-state", lambda: f"{d['load']['names']} of {tag}")
        for k in range(steps):
            x = np.array(sol.y, float)
            a = act()
            log.clear()
            st = np.array(sysm.simulate(a), float) * lim
            y = np.array(sol.y, float)
            y2, obs, info = tw.step(x, a)
            if not np.all(np.isfinite(y2)) or np.max(np.abs(y2)) > 1e6:
                break
            res.count("steps")
            res.count("multi_state", int("load" in d))
            res.count("omega_not_first", int(tw.wi > 0))
            order(res, log, d, tw, k, a, tag)
            if not d["use"]["converter"] and (near_sign(s, tw, x) or (max(s["til"]) > 0 and near_sign(s, tw, y2))):
                continue
            mag = np.maximum(np.abs(x), np.abs(y2)) + 1e-3
            if not res.check(np.all(np.abs(y - y2) <= 1e-8 * mag.max() + 1e-7 * mag), f"trajectory:{kind}", lambda: f"step {k}: state {y.tolist()} expected {y2.tolist()} from {x.tolist()} action {a} {d}",
                             case=("trajectory",) + tag):
                break
            seen = dict(zip(names, st))
            if "load" in d:
                obs.update({nm: y2[j] for j, nm in enumerate(d["load"]["names"])})
            for nm, v in obs.items():
                if nm not in seen:
                    continue
                scale = 1e-7 * (abs(v) + 1e-3 * lim[names.index(nm)] + 1e-3)
                ok = R.angle_close(seen[nm], v, 1e-6) if nm == "epsilon" else abs(seen[nm] - v) <= scale
                res.check(ok, f"observed:{kind}", lambda: f"step {k}: {nm} observed {seen[nm]!r} expected {v!r} {d}", case=("observed", nm) + tag)
        if c == 0:
            res.sample(dict(drive=tag, segments=sum(e[0] == "integrate" for e in log), state=y, expected=y2))


def order(res, log, d, tw, k, a, tag):
    """The trace of one simulation step."""
    tau, t0 = d["tau"], k * d["tau"]
    near = lambda p, q: abs(p - q) <= 1e-6 * tau + 1e-12 * abs(q)  # noqa: E731
    ints = [e for e in log if e[0] == "integrate"]
    res.count("segments", len(ints))
    ok = near(ints[0][1], t0) and near(ints[-1][2], t0 + tau) and all(near(p[2], q[1]) for p, q in zip(ints, ints[1:])) and all(e[2] > e[1] for e in ints)
    res.check(ok, "integration-intervals", lambda: f"step {k} of {tag}: {[e[1:] for e in ints]} tau {tau}")
    a = list(np.ravel(np.asarray(a, float)))
    for j, v in enumerate(d.get("conv", [])):
        acts = [e for e in log if e[0] == "set_action" and e[4] == j]
        mine, a = a[: v["n"]], a[v["n"]:]
        ok = len(acts) == 1 and near(acts[0][2], t0) and near(acts[0][3], tau) and not before_action(log, j) and (d["dq"] or np.array_equal(np.ravel(acts[0][1]), mine))
        res.check(ok, "action-once-per-step", lambda: f"step {k} of {tag}: action {mine} of converter {j}, t {t0}: {acts}")
        want = [t0 + x * tau for x in v["cuts"]] + [t0 + tau]
        got = [e[2] for e in ints]
        res.check(len(got) >= len(want) and all(any(near(w, g) for g in got) for w in want), "switching-times-integrated", lambda: f"step {k} of {tag}: switching times {want}, integrated to {got}")
        cv = [e for e in log if e[0] == "convert" and e[3] == j]
        res.check(all(p[2] <= q[2] for p, q in zip(cv, cv[1:])) and len(cv) >= len(want), "conversion-times", lambda: f"step {k} of {tag}: conversions at {[e[2] for e in cv]} expected {want}")
    # every evaluation of the equations: arguments of the load, composition of the derivatives
    t = y = None
    for e in log:
        if e[0] == "call":
            t, y = e[1], e[2]
        elif e[0] == "load" and y is not None:
            T = tw.motor.torque(y[tw.nm:])
            res.count("equation_calls")
            res.check(near(e[1], t) and np.array_equal(e[2], y[: tw.nm]) and abs(e[3] - T) <= 1e-9 * (abs(T) + 1e-3), "load-equation-arguments",
                      lambda: f"step {k} of {tag}: load asked with {e[1:]} for t {t} state {y} torque {T}")
    last = {}
    for e in log:
        if e[0] == "i_sup":
            last[e[3]] = e[2]
        elif e[0] == "supply" and "conv" in d:
            res.check(len(last) == len(d["conv"]) and abs(e[2] - sum(last.values())) <= 1e-9 * (1 + abs(e[2])) and t0 - 1e-9 <= e[1] <= t0 + tau * (1 + 1e-9), "supply-arguments", lambda: f"step {k} of {tag}: supply asked with {e[1:]}, converter current {last}")


def before_action(log, j):
    """Anything asked of the converter or the solver before the action was set?"""
    for e in log:
        if e[0] == "set_action" and e[4] == j:
            return False
        if e[0] in ("convert", "i_sup", "integrate", "supply"):
            return True
    return False


def static(res, d, sysm, tag):
    """Names, limits, nominal values and space of the load's states."""
    if "load" not in d:
        return
    names, ld = list(sysm.state_names), d["load"]["names"]
    res.count("static")
    pos = {n: i for i, n in enumerate(names)}
    res.check([n for n in names if n in ld] == ld and dict(sysm.state_positions) == pos, "load-state-names", f"{names} for load states {ld}", case=("static", tag))
    for n in ld:
        i = pos[n]
        if n == "omega":
            res.check(sysm.limits[i] <= LIM[n] and sysm.nominal_state[i] <= NOM[n], "omega-limit", f"{sysm.limits[i]} {sysm.nominal_state[i]}")
            continue
        res.check(sysm.limits[i] == LIM[n] and sysm.nominal_state[i] == NOM[n], "load-state-limit", f"{n}: {sysm.limits[i]} {sysm.nominal_state[i]}")
        lo, hi = sysm.state_space.low[i], sysm.state_space.high[i]
        want = (0.0 if n == "theta" else -0.9, 0.8)
        # (three-phase systems declare [-1, 1] for every state)
        res.check((lo, hi) == want if d["kind"] in S.DC else lo <= want[0] and hi >= want[1], "load-state-space", f"{n}: {lo} {hi} expected {want} {tag}")


# ------------------------------------------------------------------ job 2: jacobian handed to user-defined solvers
def jacobian(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s, sysm, sol, tw, d = drive(rng, None, all_user=True)
        if d["use"]["motor"]:
            continue
        sysm.reset()
        act = S.Actions(sysm.action_space, rng)
        for k in range(3):
            sysm.simulate(act())
            y, t = np.array(sol.y, float), sol.t
            if not np.all(np.isfinite(y)):
                break
            J = sol.jacobian(t, y)
            if J is None:
                res.violation("jacobian-not-handed-over", f"motor {d['kind']} and a load with Jacobian {tag_of(d)}")
                break
            num = np.zeros((len(y), len(y)))
            for j in range(len(y)):
                h = 1e-6 * max(abs(y[j]), 1e-2)
                p, m = y.copy(), y.copy()
                p[j] += h
                m[j] -= h
                num[:, j] = (sol.equation(t, p) - sol.equation(t, m)) / (2 * h)
            scale = np.abs(num).max(axis=1, keepdims=True) + 1.0
            res.count("jacobians")
            # the twin's equations have the same derivative
            res.check(J.shape == num.shape and np.all(np.abs(J - num) <= 1e-4 * scale), f"system-jacobian:{d['kind']}", lambda: f"{J.tolist()} numerically {num.tolist()} {d}",
                      case=("jacobian", d["kind"], tuple(d["load"]["names"])))


def tag_of(d):
    return (d["kind"], tuple(d["load"]["names"]) if "load" in d else None)


# ------------------------------------------------------------------ job 3: initial states of loads with several states
def initial(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        st = int(rng.integers(1 << 30))
        _, other, _, _, probe = drive(np.random.default_rng(st), None, all_user=True)
        names = probe["load"]["names"]
        nominal = dict(zip(other.state_names, other.nominal_state))
        mode = str(rng.choice(["order", "uniform", "interval", "normal"]))
        lo, hi = [], []
        if mode == "order":  # the user's dictionary in any order
            vals = {x: float(rng.uniform(1, 5)) for x in names}
            init = dict(states={x: vals[x] for x in rng.permutation(names)})
        else:
            init = dict(random_init="normal" if mode == "normal" else "uniform")
            if mode == "interval":
                iv = [sorted(rng.uniform(0.0, 0.5, size=2) * nominal[x]) for x in names]
                init["interval"] = [[float(a), float(b)] for a, b in iv]
        _, sysm, sol, tw, d = drive(np.random.default_rng(st), None, all_user=True, init=init)
        lim, sp, pos = np.array(sysm.limits), sysm.state_space, sysm.state_positions
        rows = []
        for ep in range(6):
            state = np.array(sysm.reset(), float) * lim
            got = [state[pos[x]] for x in names]
            res.close(sol.y[: len(names)], got, "initial-load-states-integrated", lambda: f"{names}")
            rows.append(got)
            if mode == "order":
                res.close(got, [vals[x] for x in names], "initial-load-state-order", lambda: f"{names} initialised with {init}", case=("initial", mode, tuple(names)))
                continue
            res.count("random_loads")
            for j, x in enumerate(names):
                nom = sysm.nominal_state[pos[x]]
                a, b = nom * sp.low[pos[x]], nom
                if mode == "interval":
                    a, b = max(a, init["interval"][j][0]), min(b, init["interval"][j][1])
                res.check(a - 1e-9 * nom <= got[j] <= b + 1e-9 * nom, "initial-load-state-range", lambda: f"{x} = {got[j]} outside [{a}, {b}] mode {mode} {names}", case=("initial", mode, x))
        if mode != "order":
            rows = np.array(rows)
            res.check(all(len(set(rows[:, j])) == len(rows) for j in range(len(names))), "initial-load-states-constant", lambda: f"{names} {mode}: {rows.tolist()}")


# ------------------------------------------------------------------ job 4: protocol of a whole environment
def user_parts(rng, log, n_ref):
    """Components on the documented abstract bases which log how they are used."""
    import gym_electric_motor as gem
    from gymnasium.spaces import Box

    from gym_electric_motor.constraints import Constraint
    from gym_electric_motor.core import Callback, ReferenceGenerator, RewardFunction
    from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper

    rec = lambda *e: log.append(tuple(E.freeze(x) for x in e))  # noqa: E731

    class Ref(ReferenceGenerator, gem.RandomComponent):
        def __init__(self):
            ReferenceGenerator.__init__(self)
            gem.RandomComponent.__init__(self)

        def seed(self, seed=None):
            rec("seed", "ref")
            return gem.RandomComponent.seed(self, seed)

        def set_modules(self, physical_system):
            rec("ref.set_modules")
            self.system = physical_system
            super().set_modules(physical_system)
            self.chosen = sorted(np.random.default_rng(n_ref).choice(len(physical_system.state_names), size=n_ref, replace=False).tolist())
            self._referenced_states = np.isin(np.arange(len(physical_system.state_names)), self.chosen)
            self._reference_names = [physical_system.state_names[i] for i in self.chosen]
            self.reference_space = Box(-1, 1, shape=(n_ref,), dtype=np.float64)

        def reset(self, initial_state=None, initial_reference=None):
            self.next_generator()
            rec("ref.reset", initial_state)
            self.value, self.next = np.zeros(len(initial_state)), self.random_generator.uniform(-1, 1, n_ref)
            return super().reset(initial_state, initial_reference)

        def get_reference(self, state, *_, **__):
            rec("get_reference", state)
            out = np.zeros(len(state))
            out[self.chosen] = self.next
            return out

        def get_reference_observation(self, state, *_, **__):
            rec("get_reference_observation", state)
            self.next = self.random_generator.uniform(-1, 1, n_ref)
            return np.array(self.next)

        def close(self):
            rec("close", "ref")

    class Reward(RewardFunction, gem.RandomComponent):
        reward_range = (-10.0, 10.0)

        def __init__(self):
            RewardFunction.__init__(self)
            gem.RandomComponent.__init__(self)

        def seed(self, seed=None):
            rec("seed", "reward")
            return gem.RandomComponent.seed(self, seed)

        def set_modules(self, physical_system, reference_generator, constraint_monitor):
            rec("reward.set_modules")
            self.given = (physical_system, reference_generator, constraint_monitor)

        def reset(self, initial_state=None, initial_reference=None):
            rec("reward.reset", initial_state, initial_reference)

        def reward(self, state, reference, k=None, action=None, violation_degree=0.0):
            rec("reward", state, reference, k, action, violation_degree)
            return float(k) + violation_degree

        def close(self):
            rec("close", "reward")

    class Cons(Constraint):
        full = False  # whether the degree can reach the full violation

        def __init__(self, j):
            self.j = j

        def set_modules(self, ps):
            rec("constraint.set_modules", self.j)
            self.given = ps

        def __call__(self, state):
            v = abs(math.sin(7.0 * float(np.sum(np.asarray(state)[:2])) + self.j))
            v = min(1.0, 1.4 * v) if self.full else 0.3 * v
            rec("constraint", self.j, state, v)
            return v

    class Wrap(PhysicalSystemWrapper):
        """Appends the product of two states to the state."""

        def __init__(self, j):
            super().__init__()
            self.j = j

        def seed(self, seed=None):
            rec("seed", f"wrapper{self.j}")
            return super().seed(seed)

        def set_physical_system(self, physical_system):
            rec("wrapper.set_physical_system", self.j)
            super().set_physical_system(physical_system)
            low, high = physical_system.state_space.low, physical_system.state_space.high
            self.state_space = Box(np.append(low, -1.0), np.append(high, 1.0), dtype=np.float64)
            self._limits = np.append(physical_system.limits, 2.0)
            self._nominal_state = np.append(physical_system.nominal_state, 1.0)
            self._state_names = list(physical_system.state_names) + [f"product{self.j}"]
            self._state_positions = {key: index for index, key in enumerate(self._state_names)}
            return self

        def reset(self, **kwargs):
            out = super().reset(**kwargs)
            out = np.append(out, out[0] * out[1])
            rec("wrapper.reset", self.j, out)
            return out

        def simulate(self, action):
            rec("wrapper.action", self.j, action)
            out = super().simulate(action)
            out = np.append(out, out[0] * out[1])
            rec("wrapper.state", self.j, out)
            return out

    class Cb(Callback, gem.RandomComponent):
        def __init__(self, j):
            Callback.__init__(self)
            gem.RandomComponent.__init__(self)
            self.j = j

        def seed(self, seed=None):
            rec("seed", f"callback{self.j}")
            return gem.RandomComponent.seed(self, seed)

        def set_env(self, env):
            super().set_env(env)
            rec("cb.set_env", self.j)

        def on_reset_begin(self):
            rec("cb.reset_begin", self.j)

        def on_reset_end(self, state, reference):
            rec("cb.reset_end", self.j, state, reference)

        def on_step_begin(self, k, action):
            rec("cb.step_begin", self.j, k, action)

        def on_step_end(self, k, state, reference, reward, done):
            rec("cb.step_end", self.j, k, state, reference, reward, done)

        def on_close(self):
            rec("close", f"callback{self.j}")

    return Ref(), Reward(), [Cons(j) for j in range(int(rng.integers(1, 4)))], [Wrap(j) for j in range(int(rng.integers(0, 3)))], [Cb(j) for j in range(int(rng.integers(1, 3)))]


def protocol(res, seed, n, steps):
    import gym_electric_motor as gem
    from gym_electric_motor.core import ConstraintMonitor

    rng = np.random.default_rng(seed)
    for c in range(n):
        env_id = S.ENV_IDS[int(rng.integers(len(S.ENV_IDS)))]
        mode, _, kind, _ = env_id.split("-")
        log, plog = [], []
        n_ref = int(rng.integers(1, 4))
        ref, rew, cons, wraps, cbs = user_parts(rng, log, n_ref)
        tau = float(rng.choice([1e-5, 5e-5, 1e-4]))
        ld = load_spec(rng, kind, S.PARAMS[kind]["j_rotor"])
        monitor, merged = tuple(cons), []
        mean = bool(rng.random() < 0.5)
        if mean:
            # a merge rule of the user, with constraints that become fully violated one by one

            def merge(*degrees):
                d = list(degrees[0]) if len(degrees) == 1 and np.ndim(degrees[0]) else list(degrees)
                merged.append(sorted(float(x) for x in d))
                return float(sum(d) / len(d))

            for x in cons:
                x.full = True
            monitor = ConstraintMonitor(additional_constraints=cons, merge_violations=merge)
        kw = dict(tau=tau, visualization=(), reference_generator=ref, reward_function=rew, constraints=monitor, physical_system_wrappers=tuple(wraps), callbacks=tuple(cbs),
                  ode_solver=mk_user_solver(1, plog))
        if rng.random() < 0.6:
            kw["load"] = mk_user_load(ld, plog)
        env = gem.make(env_id, **kw).unwrapped
        key = (env_id, len(wraps), len(cons), "load" in kw, mean)
        case = dict(env=env_id, wraps=len(wraps), cons=len(cons), merge="mean" if mean else "max", cbs=len(cbs), load=ld["names"] if "load" in kw else None)
        built = [e[:2] for e in log]
        want = [("ref.set_modules",), ("reward.set_modules",)] + [("constraint.set_modules", x.j) for x in cons] + [("wrapper.set_physical_system", x.j) for x in wraps] + [("cb.set_env", x.j) for x in cbs]
        res.check(sorted(built) == sorted(want), "modules-set-once", lambda: f"{built} expected {want} {case}", case=("built", key))
        res.check(rew.given[0] is env.physical_system and rew.given[1] is env.reference_generator and rew.given[2] is env.constraint_monitor and ref.system is env.physical_system
                  and all(x.given is env.physical_system for x in cons), "modules-handed-over", lambda: f"{rew.given} {case}")
        names = list(env.physical_system.state_names)
        res.check([x for x in names if x.startswith("product")] == [f"product{x.j}" for x in wraps] and env.observation_space[1].shape == (n_ref,) and env.reward_range == rew.reward_range
                  and list(env.reference_names) == [names[i] for i in ref.chosen], "user-parts-announced", lambda: f"{names} {env.observation_space} {env.reward_range} {env.reference_names} {case}")
        act = S.Actions(env.action_space, rng)
        seeders = ["ref", "reward"] + [f"wrapper{x.j}" for x in wraps] + [f"callback{x.j}" for x in cbs]
        refnext, k = None, 0

        def reset(sd=None):
            log.clear()
            plog.clear()
            obs, _ = env.reset(seed=sd) if sd is not None else env.reset()
            res.count("resets_seen")
            res.count("seeded_resets", int(sd is not None))
            ev = list(log)
            seeds = sorted(e[1] for e in ev if e[0] == "seed")
            res.check(seeds == (sorted(seeders) if sd is not None else []), "seeded-once", lambda: f"reset(seed={sd}) seeded {seeds} of {seeders} {case}", case=("seed", key))
            kinds = [e[0] for e in ev]
            full = [e for e in ev if e[0] == "wrapper.reset"]
            end = [e for e in ev if e[0] == "cb.reset_end"]
            ok = (kinds.count("ref.reset") == 1 and kinds.count("reward.reset") == 1 and len(full) == len(wraps) and kinds.count("cb.reset_begin") == len(cbs) and len(end) == len(cbs)
                  and not any(x in kinds for x in ("reward", "wrapper.action")))
            if res.check(ok, "reset-once-each", lambda: f"{kinds} {case}", case=("reset", key)):
                state, r0 = end[0][2], end[0][3]
                got = [e for e in ev if e[0] == "ref.reset"][0]
                rw = [e for e in ev if e[0] == "reward.reset"][0]
                ok = (E.bits(got[1]) == E.bits(state) and E.bits(rw[1]) == E.bits(state) and E.bits(rw[2]) == E.bits(r0) and (not full or np.array_equal(full[-1][2], state[: len(full[-1][2])]))
                      and np.array_equal(obs[0], state[np.asarray(env.state_filter)]) and len(obs[1]) == n_ref and all(E.bits(e[2]) == E.bits(state) and E.bits(e[3]) == E.bits(r0) for e in end)
                      and np.array_equal(obs[1], ref.next))
                res.check(ok, "reset-arguments", lambda: f"state {state} reference {r0} obs {obs}; reference generator got {got}, reward function {rw}, callbacks {end} {case}", case=("reset-args", key))
            ini = [e for e in plog if e[0] == "initial"]
            res.check(len(ini) == 1 and ini[0][2] == 0 and not any(e[0] == "integrate" for e in plog), "solver-reset-once", lambda: f"{[e[0] for e in plog]} {case}")
            return np.array(obs[1])

        refnext = reset(int(rng.integers(2**31)))
        for _ in range(steps):
            a = act()
            log.clear()
            plog.clear()
            merged.clear()
            obs, r, term, trunc, _ = env.step(a)
            k += 1
            ev = list(log)
            res.count("env_steps")
            kinds = [e[0] for e in ev]
            want = dict(get_reference=1, get_reference_observation=1, reward=1, constraint=len(cons))
            want.update({"wrapper.action": len(wraps), "wrapper.state": len(wraps), "cb.step_begin": len(cbs), "cb.step_end": len(cbs), "seed": 0, "ref.reset": 0, "reward.reset": 0})
            got = {x: kinds.count(x) for x in want}
            if not res.check(got == want, "asked-once-per-step", lambda: f"step {k}: {got} expected {want} {case}", case=("step", key)):
                break
            one = {x: [e for e in ev if e[0] == x] for x in want}
            end = one["cb.step_end"][0]
            state, rf = end[3], end[4]
            rw = one["reward"][0]
            degrees = sorted(float(e[3]) for e in one["constraint"])
            v = sum(degrees) / len(degrees) if mean else degrees[-1]
            if mean:
                res.count("user_merges")
                res.count("fully_violated", int(degrees[-1] >= 1.0 > degrees[0]))
                res.check(merged == [degrees], "merge-rule-gets-all-degrees", lambda: f"step {k}: the merge rule got {merged}, the constraints returned {degrees} {case}", case=("merge", key))
            bits = E.bits(state)
            ok = (all(E.bits(e[2]) == bits for e in one["constraint"]) and E.bits(one["get_reference"][0][1]) == bits and E.bits(one["get_reference_observation"][0][1]) == bits
                  and E.bits(rw[1]) == bits and E.bits(rw[2]) == E.bits(rf) and rw[3] == k and abs(rw[5] - v) <= 1e-12 and (not wraps or np.array_equal(one["wrapper.state"][-1][2], state[: len(one["wrapper.state"][-1][2])]))
                  and sorted(e[1] for e in one["constraint"]) == [x.j for x in cons])
            res.check(ok, "step-arguments", lambda: f"step {k}: state {state} reference {rf}: {ev} {case}", case=("step-args", key))
            ok = (np.array_equal(np.asarray(rf)[ref.chosen], refnext) and np.count_nonzero(rf) <= n_ref and abs(r - (k + v)) < 1e-9 and bool(term) == (v >= 1.0) and not trunc
                  and np.array_equal(obs[0], state[np.asarray(env.state_filter)]) and np.array_equal(obs[1], ref.next))
            res.check(ok, "step-results", lambda: f"step {k}: reward {r} term {term} obs {obs} previous reference {refnext} used {rf} degree {v} {case}", case=("step-results", key))
            fa = E.bits(E.freeze(a))
            res.check(all(E.bits(e[2]) == fa for e in one["wrapper.action"]) and all(E.bits(e[3]) == fa for e in one["cb.step_begin"]), "action-passed-on", lambda: f"step {k} action {a}: {one} {case}")
            ints = [e for e in plog if e[0] == "integrate"]
            res.check(ints and abs(ints[0][1] - (k - 1) * tau) < 1e-6 * tau + 1e-12 * k * tau and abs(ints[-1][2] - k * tau) < 1e-6 * tau + 1e-12 * k * tau, "solver-times",
                      lambda: f"step {k}: {[e[1:] for e in ints]} tau {tau} {case}")
            res.check(env.physical_system.k == k, "step-counter", lambda: f"{env.physical_system.k} after {k} steps")
            refnext = np.array(obs[1])
            if not np.all(np.isfinite(state)) or np.max(np.abs(state)) > 1e4 or term or rng.random() < 0.06:
                refnext = reset(int(rng.integers(2**31)) if rng.random() < 0.3 else None)
                k = 0
        log.clear()
        env.close()
        got = sorted(e[1] for e in log if e[0] == "close")
        want = sorted(["ref", "reward"] + [f"callback{x.j}" for x in cbs])
        res.count("closed")
        res.check(got == want, "closed-once", lambda: f"{got} expected {want} {case}", case=("close", key))
        if c == 0:
            res.sample(dict(case=case, reset_and_step_events=[e[:2] for e in ev][:12]))

