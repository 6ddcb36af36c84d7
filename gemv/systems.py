"""Builds drives of the code under test (and their independent twins) from JSON-able specs."""
import math

import numpy as np

from . import refsim as R

DC = ["PermExDc", "ExtExDc", "SeriesDc", "ShuntDc"]
SYNC = ["PMSM", "SynRM", "EESM"]
IND = ["SCIM", "DFIM"]
KINDS = DC + SYNC + IND
TASKS = ["CC", "TC", "SC"]
ENV_IDS = [f"{m}-{t}-{k}-v0" for m in ("Cont", "Finite") for t in TASKS for k in KINDS]

MOTOR_CLASS = dict(PermExDc="DcPermanentlyExcitedMotor", ExtExDc="DcExternallyExcitedMotor", SeriesDc="DcSeriesMotor",
                   ShuntDc="DcShuntMotor", PMSM="PermanentMagnetSynchronousMotor", SynRM="SynchronousReluctanceMotor",
                   EESM="ExternallyExcitedSynchronousMotor", SCIM="SquirrelCageInductionMotor",
                   DFIM="DoublyFedInductionMotor")
SYSTEM_CLASS = dict(PermExDc="DcMotorSystem", ExtExDc="DcMotorSystem", SeriesDc="DcMotorSystem", ShuntDc="DcMotorSystem",
                    PMSM="SynchronousMotorSystem", SynRM="SynchronousMotorSystem",
                    EESM="ExternallyExcitedSynchronousMotorSystem", SCIM="SquirrelCageInductionMotorSystem",
                    DFIM="DoublyFedInductionMotorSystem")
# documented default parameters (the keys matter, the values are only a base for random scaling)
PARAMS = dict(
    PermExDc=dict(r_a=16e-3, l_a=19e-6, psi_e=0.165, j_rotor=0.025),
    ExtExDc=dict(r_a=16e-3, r_e=16e-2, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
    SeriesDc=dict(r_a=16e-3, r_e=48e-3, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
    ShuntDc=dict(r_a=16e-3, r_e=4e-1, l_a=19e-6, l_e_prime=1.7e-3, l_e=5.4e-3, j_rotor=0.0025),
    PMSM=dict(p=3, l_d=0.37e-3, l_q=1.2e-3, j_rotor=0.03883, r_s=18e-3, psi_p=66e-3),
    SynRM=dict(p=4, l_d=10.1e-3, l_q=4.1e-3, j_rotor=0.8e-3, r_s=0.57),
    # the documented defaults of the EESM are not passive (l_d < l_M^2/l_E): a smaller coupling is used here
    EESM=dict(p=3, l_d=1.66e-3, l_q=0.35e-3, l_m=1.0e-3, l_e=1.74e-3, j_rotor=0.3883, r_s=15.55e-3, r_e=7.2e-3, k=65.21),
    SCIM=dict(p=2, l_m=143.75e-3, l_sigs=5.87e-3, l_sigr=5.87e-3, j_rotor=1.1e-3, r_s=2.9338, r_r=1.355),
    DFIM=dict(p=2, l_m=297.5e-3, l_sigs=25.71e-3, l_sigr=25.71e-3, j_rotor=13.695e-3, r_s=4.42, r_r=3.51),
)
I_NOM = dict(PermExDc=97.0, ExtExDc=97.0, SeriesDc=97.0, ShuntDc=97.0, PMSM=240.0, SynRM=10.0, EESM=120.0, SCIM=3.9,
             DFIM=7.5)
U_NOM = dict(PermExDc=60.0, ExtExDc=60.0, SeriesDc=60.0, ShuntDc=60.0, PMSM=300.0, SynRM=80.0, EESM=320.0, SCIM=560.0,
             DFIM=720.0)
W_NOM = dict(PermExDc=300.0, ExtExDc=300.0, SeriesDc=300.0, ShuntDc=300.0, PMSM=300.0, SynRM=300.0, EESM=400.0,
             SCIM=300.0, DFIM=170.0)


def profile(kind, w0, amp, f):
    if kind == "sin":
        return lambda t: w0 + amp * np.sin(2 * math.pi * f * t)
    if kind == "ramp":
        return lambda t: w0 + amp * f * t
    return lambda t: w0 * 1.0


def random_spec(rng, kind=None, cont=None, solver="euler", loads=("const", "poly", "ext"), supplies=("ideal", "rc", "ac1"),
                til_prob=0.4, dq_prob=0.25, scale=True):
    kind = kind or KINDS[rng.integers(len(KINDS))]
    cont = bool(rng.integers(2)) if cont is None else bool(cont)
    s = dict(kind=kind, cont=cont)
    p = dict(PARAMS[kind])
    if scale:
        for k in p:
            if k == "p":
                p[k] = int(rng.integers(1, 6))
            elif k == "k":
                p[k] = float(np.round(rng.uniform(10, 80), 3))
            else:
                p[k] = float(p[k] * rng.uniform(0.7, 1.5))
        if kind == "EESM":  # keep the coupling physical
            lim = math.sqrt(p["l_d"] * p["l_e"] / 1.5)
            p["l_m"] = float(min(p["l_m"], 0.9 * lim))
    s["param"] = p
    s["tau"] = float(rng.choice([1e-5, 5e-5, 1e-4, 2e-4] if not cont else [5e-5, 1e-4, 2e-4]))
    til = float(np.round(s["tau"] * rng.choice([0.03, 0.1, 0.25, 0.4]), 12)) if rng.random() < til_prob else 0.0
    if kind == "ExtExDc":
        conv = [str(rng.choice(["1QC", "2QC", "4QC"])) for _ in range(2)]
    elif kind in DC:
        conv = [str(rng.choice(["1QC", "2QC", "4QC"]))]
    elif kind == "EESM":
        conv = ["B6", str(rng.choice(["1QC", "2QC", "4QC"]))]
    elif kind == "DFIM":
        conv = ["B6", "B6"]
    else:
        conv = ["B6"]
    s["conv"] = conv
    s["til"] = [til] * len(conv)
    if len(conv) == 2 and til > 0 and rng.random() < 0.5:
        s["til"][int(rng.integers(2))] = float(np.round(s["tau"] * rng.choice([0.0, 0.05, 0.2]), 12))
    u = float(np.round(U_NOM[kind] * rng.uniform(0.5, 1.3), 3))
    sk = str(rng.choice(supplies))
    sup = dict(kind=sk, u=u)
    if sk == "rc":
        sup.update(R=float(np.round(rng.uniform(0.01, 1.0), 4)), C=float(np.round(rng.uniform(4e-3, 4e-2), 5)))
        if sup["R"] * sup["C"] < 5 * s["tau"]:
            sup["C"] = 5 * s["tau"] / sup["R"]
    elif sk in ("ac1", "ac3"):
        sup.update(f=float(rng.uniform(10, 400)), phi=float(rng.uniform(0, 2 * math.pi)))
    s["supply"] = sup
    lk = str(rng.choice(loads))
    w = float(np.round(W_NOM[kind] * rng.uniform(-1, 1), 3)) * (rng.random() > 0.1)
    load = dict(kind=lk, w=float(w))
    if lk == "poly":
        load.update(a=float(rng.choice([0.0, 0.05, 0.5, 2.0])), b=float(rng.choice([0.0, 1e-3, 2e-2])),
                    c=float(rng.choice([0.0, 1e-5, 1e-4])), j=float(p["j_rotor"] * rng.uniform(0.1, 4)))
    elif lk == "ext":
        load.update(profile=str(rng.choice(["sin", "ramp", "flat"])), amp=float(rng.uniform(5, 60)),
                    f=float(rng.uniform(1, 30)))
    s["load"] = load
    s["dq"] = bool(cont and kind in ("PMSM", "SynRM", "SCIM") and rng.random() < dq_prob)
    s["solver"] = dict(kind=solver, n=int(rng.choice([1, 2, 4, 7])))
    # initial electrical state
    i = I_NOM[kind]
    init = {}
    if kind in ("PermExDc", "SeriesDc"):
        init = dict(i=float(rng.uniform(-i, i)))
    elif kind in ("ExtExDc", "ShuntDc"):
        init = dict(i_a=float(rng.uniform(-i, i)), i_e=float(rng.uniform(-i, i)))
    elif kind in SYNC:
        init = dict(i_sd=float(rng.uniform(-i, i)), i_sq=float(rng.uniform(-i, i)), epsilon=float(rng.uniform(-3, 3)))
        if kind == "EESM":
            init["i_e"] = float(rng.uniform(-i, i))
    else:
        init = dict(i_salpha=float(rng.uniform(-i, i)), i_sbeta=float(rng.uniform(-i, i)), psi_ralpha=0.0, psi_rbeta=0.0,
                    epsilon=float(rng.uniform(-3, 3)))
    if kind in ("SeriesDc", "ShuntDc"):
        load["w"] = abs(load["w"])  # their documented state space has no negative speeds
    if kind in DC and any(c != "4QC" for c in conv):
        # the documented state space of these drives has no negative currents / speeds: admissible initial states
        init = {k: abs(v) for k, v in init.items()}
        load["w"] = abs(load["w"])
    s["init"] = init
    return s


# ------------------------------------------------------------------ code under test
def mk_conv(s):
    from gym_electric_motor import physical_systems as ps

    pre = "Cont" if s["cont"] else "Finite"
    names = {"1QC": "1QC", "2QC": "2QC", "4QC": "4QC", "B6": "B6C"}
    units = [getattr(ps, pre + names[k])(interlocking_time=t) for k, t in zip(s["conv"], s["til"])]
    if len(units) == 1:
        return units[0]
    return getattr(ps, pre + "Multi")(subconverters=units)


def mk_supply(s):
    from gym_electric_motor import physical_systems as ps

    v = s["supply"]
    if v["kind"] == "ideal":
        return ps.IdealVoltageSupply(u_nominal=v["u"])
    if v["kind"] == "rc":
        return ps.RCVoltageSupply(u_nominal=v["u"], supply_parameter=dict(R=v["R"], C=v["C"]))
    cls = ps.AC1PhaseSupply if v["kind"] == "ac1" else ps.AC3PhaseSupply
    par = dict(frequency=v["f"])
    if v.get("phi") is not None:
        par["phase"] = v["phi"]
    return cls(u_nominal=v["u"], supply_parameter=par)


def mk_load(s):
    from gym_electric_motor import physical_systems as ps

    v = s["load"]
    if v["kind"] == "const":
        return ps.ConstantSpeedLoad(omega_fixed=v["w"])
    if v["kind"] == "poly":
        return ps.PolynomialStaticLoad(load_parameter=dict(a=v["a"], b=v["b"], c=v["c"], j_load=v["j"]),
                                       limits=dict(omega=v.get("lim", 1e4)),
                                       load_initializer=dict(states=dict(omega=v["w"])))
    f = profile(v["profile"], v["w"], v["amp"], v["f"])
    return ps.ExternalSpeedLoad(speed_profile=lambda t: f(t), tau=s["tau"])


def mk_solver(s):
    from gym_electric_motor import physical_systems as ps

    v = s["solver"]
    k = v["kind"]
    kw = {a: b for a, b in v.items() if a not in ("kind", "n")}
    if k == "euler":
        return ps.EulerSolver(nsteps=v["n"])
    if k == "ode":
        return ps.ScipyOdeSolver(**kw)
    if k == "ivp":
        return ps.ScipySolveIvpSolver(**kw)
    return ps.ScipyOdeIntSolver(**kw)


def mk_motor(s):
    from gym_electric_motor import physical_systems as ps

    kw = dict(motor_parameter=dict(s["param"]))
    if s.get("init"):
        kw["motor_initializer"] = dict(states=dict(s["init"]))
    if s.get("initializer"):
        kw["motor_initializer"] = dict(s["initializer"])
    if s.get("limits"):
        kw["limit_values"] = dict(s["limits"])
    if s.get("nominal"):
        kw["nominal_values"] = dict(s["nominal"])
    return getattr(ps, MOTOR_CLASS[s["kind"]])(**kw)


def mk_system(s):
    """-> (system, solver)"""
    from gym_electric_motor import physical_systems as ps

    solver = mk_solver(s)
    kw = dict(converter=mk_conv(s), motor=mk_motor(s), load=mk_load(s), supply=mk_supply(s), ode_solver=solver,
              tau=s["tau"])
    if "jac" in s:
        kw["calc_jacobian"] = s["jac"]
    if s.get("dq"):
        kw["control_space"] = "dq"
    return getattr(ps, SYSTEM_CLASS[s["kind"]])(**kw), solver


def components(s):
    """keyword arguments for gym_electric_motor.make"""
    return dict(converter=mk_conv(s), motor=mk_motor(s), load=mk_load(s), supply=mk_supply(s), ode_solver=mk_solver(s),
                tau=s["tau"])


# ------------------------------------------------------------------ twin
def mk_twin(s, integ=None):
    v = s["supply"]
    if v["kind"] == "ideal":
        sup = R.IdealSupply(v["u"])
    elif v["kind"] == "rc":
        sup = R.RCSupply(v["u"], v["R"], v["C"])
    else:
        sup = R.ACSupply(v["u"], v["f"], v["phi"], 1 if v["kind"] == "ac1" else 3)
    v = s["load"]
    if v["kind"] == "const":
        load = R.ConstLoad()
    elif v["kind"] == "poly":
        load = R.PolyLoad(v["a"], v["b"], v["c"], v["j"], s["param"]["j_rotor"])
    else:
        load = R.ExtLoad(profile(v["profile"], v["w"], v["amp"], v["f"]), s["tau"])
    conv = (R.ContConv if s["cont"] else R.FiniteConv)(s["conv"], s["til"])
    if integ is None:
        n = s["solver"]["n"]

        def integ(f, x, t0, t1):
            return R.euler(f, x, t0, t1, n)

    return R.Drive(s["kind"], R.MOTORS[s["kind"]](s["param"]), load, sup, conv, s["tau"], integ, dq=s.get("dq", False))


class Actions:
    """Action source: mixture of uniform, extreme, held and switching actions, from a seeded generator."""

    def __init__(self, space, rng):
        from gymnasium import spaces

        self.space, self.rng, self.last, self.hold = space, rng, None, 0
        self.box = isinstance(space, spaces.Box)
        self.multi = isinstance(space, spaces.MultiDiscrete)

    def __call__(self):
        r = self.rng
        if self.hold > 0 and self.last is not None:
            self.hold -= 1
            return self.last
        if r.random() < 0.2:
            self.hold = int(r.integers(1, 12))
        if self.box:
            lo, hi = self.space.low, self.space.high
            m = r.random()
            if m < 0.6:
                a = r.uniform(lo, hi)
            elif m < 0.85:
                a = np.where(r.random(lo.shape) < 0.5, lo, hi)
            else:
                a = (lo + hi) / 2 + 0.05 * (hi - lo) * r.normal(size=lo.shape)
                a = np.clip(a, lo, hi)
            self.last = np.asarray(a, dtype=float)
        elif self.multi:
            self.last = np.array([r.integers(n) for n in self.space.nvec])
        else:
            self.last = int(r.integers(self.space.n))
        return self.last
