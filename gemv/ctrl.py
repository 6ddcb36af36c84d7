"""Controllers of the gem_controllers package: random configurations, builders, observation sequences."""
import warnings

import numpy as np

DC = ("PermExDc", "SeriesDc", "ShuntDc", "ExtExDc")
AC = ("PMSM", "SynRM", "SCIM", "EESM")
VOLT = {"PermExDc": ["u"], "SeriesDc": ["u"], "ShuntDc": ["u"], "ExtExDc": ["u_a", "u_e"], "EESM": ["u_sd", "u_sq", "u_e"]}
CURR = {"PermExDc": ["i"], "SeriesDc": ["i"], "ShuntDc": ["i_a"], "ExtExDc": ["i_a", "i_e"], "EESM": ["i_sd", "i_sq", "i_e"]}
for _m in ("PMSM", "SynRM", "SCIM"):
    VOLT[_m], CURR[_m] = ["u_sd", "u_sq"], ["i_sd", "i_sq"]
BASES = ("PI", "PI", "PI", "P", "PID", "ThreePoint")
_PARAM_KEYS = {
    "PermExDc": ["r_a", "l_a", "psi_e", "j_rotor"],
    "SeriesDc": ["r_a", "r_e", "l_a", "l_e", "l_e_prime", "j_rotor"],
    "ShuntDc": ["r_a", "r_e", "l_a", "l_e", "l_e_prime", "j_rotor"],
    "ExtExDc": ["r_a", "r_e", "l_a", "l_e", "l_e_prime", "j_rotor"],
    "PMSM": ["r_s", "l_d", "l_q", "psi_p", "j_rotor", "p"],
    "SynRM": ["r_s", "l_d", "l_q", "j_rotor", "p"],
    "SCIM": ["r_s", "r_r", "l_m", "l_sigs", "l_sigr", "j_rotor", "p"],
    "EESM": ["r_s", "r_e", "l_d", "l_q", "j_rotor"],
}


def motor_params(rng, motor, spread=0.35):
    """Factors on the default parameters (the pole pair number is absolute)."""
    f = {}
    for k in _PARAM_KEYS[motor]:
        f[k] = int(rng.integers(1, 6)) if k == "p" else float(np.round(rng.uniform(1 - spread, 1 + spread), 4))
    return f


def random_spec(rng, motor=None, task=None, finite=None, base=None, default=False, swap=0.0):
    motor = motor or str(rng.choice(DC + AC[:3]))
    task = task or str(rng.choice(["CC", "TC", "SC"]))
    if finite is None:
        finite = bool(motor in DC and rng.random() < 0.35)
    s = dict(motor=motor, task=task, finite=bool(finite))
    s["cc"] = base or str(rng.choice(BASES))
    s["sc"] = base or str(rng.choice(BASES))
    s["param"] = {} if default else motor_params(rng, motor)
    s["swap"] = bool(rng.random() < swap)
    s["u"] = 1.0 if default else float(np.round(rng.uniform(0.6, 1.3), 3))
    s["tau"] = None if default else float(rng.choice([2e-5, 5e-5, 1e-4, 2e-4]))
    s["margin"] = float(rng.choice([0.0, 0.1, 0.2, 0.2, 0.35]))
    s["decoupling"] = bool(rng.random() < 0.6)
    s["a"] = float(rng.choice([3.0, 4.0, 4.0, 8.0]))
    s["conv"] = None
    if motor in ("PermExDc", "SeriesDc", "ShuntDc") and not default:
        c = str(rng.choice(["1QC", "2QC", "4QC", "4QC"]))
        s["conv"] = ("Finite-" if finite else "Cont-") + c
    s["dead"] = int(rng.choice([0, 0, 0, 1, 2])) if not default else 0
    return s


def env_id(s):
    return f"{'Finite' if s['finite'] else 'Cont'}-{s['task']}-{s['motor']}-v0"


_DEFAULTS = {}


def default_params(motor):
    from gym_electric_motor import physical_systems as ps

    if motor not in _DEFAULTS:
        cls = dict(PermExDc="DcPermanentlyExcitedMotor", SeriesDc="DcSeriesMotor", ShuntDc="DcShuntMotor",
                   ExtExDc="DcExternallyExcitedMotor", PMSM="PermanentMagnetSynchronousMotor",
                   SynRM="SynchronousReluctanceMotor", SCIM="SquirrelCageInductionMotor",
                   EESM="ExternallyExcitedSynchronousMotor")[motor]
        _DEFAULTS[motor] = dict(getattr(ps, cls)().motor_parameter)
    return dict(_DEFAULTS[motor])


def params(s):
    d = default_params(s["motor"])
    for k, f in s["param"].items():
        d[k] = f if k == "p" else d[k] * f
    if s.get("swap"):
        d["l_d"], d["l_q"] = d["l_q"], d["l_d"]
    if s.get("lratio") is not None:
        d["l_q"] = d["l_d"] * s["lratio"]
    return d


_U = {"PermExDc": 60.0, "SeriesDc": 60.0, "ShuntDc": 60.0, "ExtExDc": 60.0}


def build(s, callbacks=(), seed=None):
    import gym_electric_motor as gem
    from gym_electric_motor.physical_system_wrappers import DeadTimeProcessor, FluxObserver

    kw = dict(visualization=(), callbacks=tuple(callbacks))
    if s["param"] or s.get("swap") or s.get("lratio") is not None:
        keep = _PARAM_KEYS[s["motor"]]
        full = params(s)
        kw["motor"] = dict(motor_parameter={k: full[k] for k in keep if k in full})
    if s.get("limits"):
        kw.setdefault("motor", {})["limit_values"] = dict(s["limits"])
        kw["motor"]["nominal_values"] = dict(s["limits"])
    if s["tau"] is not None:
        kw["tau"] = s["tau"]
    if s["u"] != 1.0:
        u = dict(PMSM=300.0, EESM=300.0).get(s["motor"], 420.0 if s["motor"] in AC else 60.0)
        kw["supply"] = dict(u_nominal=u * s["u"])
    if s.get("u_sup"):
        kw["supply"] = dict(u_nominal=s["u_sup"])
    if s.get("conv"):
        from gym_electric_motor import physical_systems as ps

        kw["converter"] = getattr(ps, s["conv"].replace("-", ""))()
    if s.get("load"):
        kw["load"] = s["load"]
    w = []
    if s["motor"] == "SCIM":
        w.append(FluxObserver())
    if s.get("dead"):
        w.append(DeadTimeProcessor(steps=s["dead"]))
    if w:
        kw["physical_system_wrappers"] = tuple(w)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        env = gem.make(env_id(s), **kw).unwrapped
    return env


def controller(s, env):
    import gem_controllers as gc

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return gc.GemController.make(
            env, env_id(s), decoupling=s["decoupling"], current_safety_margin=s["margin"],
            base_current_controller=s["cc"], base_speed_controller=s["sc"], a=s["a"], block_diagram=False)


def stages(c, s):
    """-> (speed, torque, current) controllers of the cascade (None where absent)"""
    top = c.controller
    if s["task"] == "CC":
        return None, None, top
    if s["task"] == "TC":
        return None, top, top.current_controller
    return top, top.torque_controller, top.torque_controller.current_controller


def idx(env, names):
    return [env.state_names.index(n) for n in names]


def random_obs(rng, env, k):
    """Hostile observation/reference pairs: interior, faces, corners, zeros and slightly outside of the space."""
    so, ro = env.observation_space[0], env.observation_space[1]
    mode = int(rng.integers(6))
    o = rng.uniform(so.low, so.high)
    r = rng.uniform(ro.low, ro.high)
    if mode == 1:
        o = np.where(rng.random(o.shape) < 0.5, so.low, so.high)
    elif mode == 2:
        o = o * 0.0
    elif mode == 3:
        o = o * 1.3
    elif mode == 4:
        o = o * 10.0 ** rng.uniform(-6, 0)
    if rng.random() < 0.3:
        r = np.where(rng.random(r.shape) < 0.5, ro.low, ro.high)
    elif rng.random() < 0.1:
        r = np.clip(r * 0.0, ro.low, ro.high)
    return np.array(o, dtype=float), np.array(r, dtype=float)


def tag(s):
    return f"{s['motor']}-{s['task']}-{'finite' if s['finite'] else 'cont'}"
