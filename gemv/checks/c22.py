"""C22: user parameters override exactly the named defaults; limits and nominal values follow their documented relations."""
import copy
import math

import numpy as np

from .. import systems as S

PROPERTY = "C22"
RULE = ("random subsets of motor parameters, limits, nominal values and initializer entries of all nine motors, of load parameters and of supply parameters, at component, system and"
        " environment level; the reported dictionaries are compared with the documented merge rule and with the documented relations of derived limits, the declared defaults are inspected after"
        " every construction, executed steps show which limits the normalisation uses; unknown names have to be refused; distinct = motor x level x set of overridden entries")
ASSUMPTIONS = ["a limit or nominal value of zero counts as unspecified (as the documented defaults use it)", "the inductances of an EESM form a passive coupling (l_m**2 < l_d * l_e)"]
REQUIRE = {"entries": 60000, "derived": 8000, "torque": 900, "refused": 400, "normalised": 3000, "env_entries": 3000, "pristine": 400, "loads": 300}

PI30 = math.pi / 30
_DC2 = (dict(omega=400, torque=38.0, i=210, i_a=210, i_e=210, u=60, u_a=60, u_e=60), dict(omega=300, torque=16.0, i=97, i_a=97, i_e=97, u=60, u_a=60, u_e=60))
DEFAULT = dict(  # documented limits and nominal values
    PermExDc=(dict(omega=400, torque=38.0, i=210, u=60), dict(omega=300, torque=16.0, i=97, u=60)), ExtExDc=_DC2, SeriesDc=_DC2, ShuntDc=_DC2,
    PMSM=(dict(omega=4e3 * PI30, torque=0, i=400, epsilon=math.pi, u=300), dict(omega=3e3 * PI30, torque=0, i=240, epsilon=math.pi, u=300)),
    SynRM=(dict(omega=4.3e3 * PI30, torque=0, i=18, epsilon=math.pi, u=80), dict(omega=3e3 * PI30, torque=0, i=10, epsilon=math.pi, u=80)),
    EESM=(dict(omega=12e3 * PI30, torque=0, i=150, i_e=150, epsilon=math.pi, u=320), dict(omega=4.3e3 * PI30, torque=0, i=120, i_e=150, epsilon=math.pi, u=320)),
    SCIM=(dict(omega=4e3 * PI30, torque=0, i=5.5, epsilon=math.pi, u=560), dict(omega=3e3 * PI30, torque=0, i=3.9, epsilon=math.pi, u=560)),
    DFIM=(dict(omega=1800 * PI30, torque=0, i=9, epsilon=math.pi, u=720), dict(omega=1650 * PI30, torque=0, i=7.5, epsilon=math.pi, u=720)))
PARAM = dict(S.PARAMS, EESM=dict(S.PARAMS["EESM"], l_m=1.589e-3))
_ST = [p + x for x in ("a", "b", "c", "alpha", "beta", "d", "q") for p in ("s",)]
PHASE = dict(  # suffixes of the phase and component quantities of the three-phase motors
    PMSM=["a", "b", "c", "sd", "sq"], SynRM=["a", "b", "c", "sd", "sq"], EESM=["a", "b", "c", "sd", "sq"], SCIM=_ST, DFIM=_ST + ["r" + x[1:] for x in _ST])


def jobs(tier, seed):
    n, m = (300, 60) if tier == "quick" else (3000, 600)
    js = [("component", dict(seed=[seed, j], kind=k, n=n)) for j, k in enumerate(S.KINDS)]
    js += [("system", dict(seed=[seed, 50 + j], kind=k, n=m, steps=15)) for j, k in enumerate(S.KINDS)]
    js += [("environment", dict(seed=[seed, 100 + j], ids=S.ENV_IDS[j::9], steps=12, n=4 if tier == "quick" else 30)) for j in range(9)]
    js += [("other", dict(seed=[seed, 200 + j], n=300 if tier == "quick" else 2000)) for j in range(2)]
    return js


# ---------------------------------------------------------------------------------------------------------------------------- oracle
def torque_formula(kind, p, L, N):
    """Torque limit of the documented relation at the limits L (None: not specified)."""
    if kind == "PermExDc":
        return p["psi_e"] * L["i"]
    if kind == "SeriesDc":
        return p["l_e_prime"] * L["i"] ** 2
    if kind in ("ExtExDc", "ShuntDc"):
        return p["l_e_prime"] * L["i_a"] * L["i_e"]
    if kind == "SynRM":
        return abs(1.5 * p["p"] * (p["l_d"] - p["l_q"]) * L["i"] ** 2 / 2)
    if kind in ("PMSM", "EESM"):
        psi = p["psi_p"] if kind == "PMSM" else p["l_m"] * L["i_e"]
        if p["l_d"] == p["l_q"]:
            return 1.5 * p["p"] * psi * L["i"]
        g = np.linspace(0, 2 * math.pi, 20001)  # the largest torque of the nominal current amplitude, by exhaustion
        d, q = N["i"] * np.cos(g), N["i"] * np.sin(g)
        return float(np.max(1.5 * p["p"] * (psi + (p["l_d"] - p["l_q"]) * d) * q))
    if kind in ("SCIM", "DFIM"):
        return 1.5 * p["p"] * p["l_m"] ** 2 / (p["l_m"] + p["l_sigr"]) * L["i"] ** 2 / 2
    return None


def expected(kind, par, lim, nom):
    """(limits, nominal values, derived keys) for the user entries lim and nom (torque of the EESM: None)."""
    L0 = dict(DEFAULT[kind][0], **lim)
    N0 = dict(DEFAULT[kind][1], **nom)
    p = dict(PARAM[kind], **par)
    dl, dn = {}, {}
    if kind in PHASE:
        for x in PHASE[kind]:
            dl["u_" + x], dl["i_" + x] = 0.5 * L0["u"], L0["i"]
            dn["u_" + x], dn["i_" + x] = 0.5 * N0["u"], N0["i"]
        if kind == "EESM":
            dl["u_e"], dn["u_e"] = 0.5 * L0["u"], 0.5 * N0["u"]
    elif kind == "PermExDc":
        dl = dict(u=60, i=L0["u"] / p["r_a"])
    elif kind == "SeriesDc":
        dl = dict(u=60, i=L0["u"] / (p["r_a"] + p["r_e"]))
    else:
        dl = dict(i_a=L0["i"] or L0["u"] / p["r_a"], i_e=L0["i"] or L0["u"] / p["r_e"])
        dl.update(dict(u_a=60, u_e=60) if kind == "ExtExDc" else dict(u=60))
    dl["omega"] = DEFAULT[kind][0]["omega"]
    dl["torque"] = torque_formula(kind, p, L0, dict(N0))
    L = dict(L0)
    derived = set()
    for k, v in dl.items():
        if L.get(k, 0) == 0:
            L[k] = v
            derived.add(k)
    N = dict(N0)
    for k in L:
        if N.get(k, 0) == 0:
            N[k] = dn.get(k, L[k])
    return L, N, derived


def random_overrides(rng, kind, zeros=True):
    """Random subsets of parameters, limits and nominal values."""
    def subset(d, lo, hi):
        return {k: float(d[k] * rng.uniform(lo, hi)) for k in d if rng.random() < 0.4 and d[k]}

    par = {k: v for k, v in subset(PARAM[kind], 0.6, 1.7).items() if k not in ("p", "k")}
    if rng.random() < 0.4 and "p" in PARAM[kind]:
        par["p"] = int(rng.integers(1, 7))
    if kind in ("PMSM", "SynRM") and rng.random() < 0.5:
        par["l_d"], par["l_q"] = float(rng.uniform(1e-4, 8e-3)), float(rng.uniform(1e-4, 8e-3))
        if kind == "PMSM" and rng.random() < 0.3:
            par["l_q"] = par["l_d"]
    if kind == "EESM":
        par["l_m"] = 1.0e-3  # (the documented default coupling is not passive together with other inductances)
        par.pop("l_d", None), par.pop("l_e", None)
        if rng.random() < 0.4:
            par["l_d"] = float(rng.uniform(0.7e-3, 4e-3))
        if rng.random() < 0.3:
            par["l_q"] = par.get("l_d", PARAM[kind]["l_d"])
    D, N = DEFAULT[kind]
    lim = {k: v for k, v in subset(D, 0.5, 3.0).items() if k != "epsilon"}
    nom = {k: v for k, v in subset(N, 0.3, 1.5).items() if k != "epsilon"}
    if "torque" in D and rng.random() < 0.4 and kind in PHASE:
        lim["torque"] = float(rng.uniform(1, 500))
        if rng.random() < 0.5:
            nom["torque"] = float(lim["torque"] * rng.uniform(0.3, 1.0))
    if zeros:
        zero = [k for k in ("omega", "torque") if rng.random() < 0.2]
        if kind not in PHASE and "torque" not in zero:
            c = [k for k in D if k.startswith("i") or k in ("u_a", "u_e")]
            if kind in ("PermExDc", "SeriesDc"):
                c = ["i"]
            elif kind == "ShuntDc":
                c = ["i", "i_a", "i_e"]
            zero += [k for k in c if rng.random() < 0.2]
        for k in zero:
            lim[k] = 0.0
        nom.update({k: 0.0 for k in ("omega", "torque") if rng.random() < 0.15})
    return par, lim, nom


def mk_motor(kind, par, lim, nom, init=None):
    from gym_electric_motor import physical_systems as ps

    kw = dict(motor_parameter=par, limit_values=lim, nominal_values=nom)
    if init is not None:
        kw["motor_initializer"] = init
    return getattr(ps, S.MOTOR_CLASS[kind])(**kw)


def judge(res, kind, motor, par, lim, nom, case, key=""):
    L, N, derived = expected(kind, par, lim, nom)
    p = dict(PARAM[kind], **par)
    for k, v in p.items():
        res.count("entries")
        res.check(motor.motor_parameter.get(k) == v, "parameter-%s%s" % ("user" if k in par else "default", key), "%s %s is %s instead of %s" % (kind, k, motor.motor_parameter.get(k), v), case)
    for what, got, exp, user in (("limit", motor.limits, L, lim), ("nominal", motor.nominal_values, N, nom)):
        for k, v in exp.items():
            res.count("entries")
            g = got.get(k)
            if k == "i" and kind in ("ExtExDc", "ShuntDc") and not v:
                continue  # only the source of the armature and excitation values, not a quantity of these drives
            if not res.check(g is not None and np.isfinite(g) and (g > 0), "%s-not-positive%s" % (what, key), "%s %s of %s is %s" % (kind, what, k, g), case):
                continue
            if user.get(k, 0):
                res.check(g == v, "%s-user%s" % (what, key), "%s %s of %s is %r instead of the given %r" % (kind, what, k, g, v), case)
            elif k not in derived and DEFAULT[kind][what == "nominal"].get(k, 0) and user.get(k) is None:
                res.close(g, DEFAULT[kind][what == "nominal"][k], "%s-default%s" % (what, key), "%s %s of %s against its default" % (kind, what, k), 1e-12, 0, case)
            elif v is not None:
                res.count("derived")
                if k == "torque":
                    res.count("torque")
                res.close(g, v, "%s-derived-%s%s" % (what, k[0] if k[0] in "ui" else k, key), "%s derived %s of %s" % (kind, what, k), 1e-6 if k == "torque" else 1e-12, 0, case)
    return L, N


# ---------------------------------------------------------------------------------------------------------------------------- jobs
def pristine(res, kind, case):
    """A default instance after all those constructions still has the documented defaults."""
    motor = mk_motor(kind, None, None, None)
    res.count("pristine")
    judge(res, kind, motor, {}, {}, {}, case, "-contaminated")


def component(res, seed, kind, n):
    rng = np.random.default_rng(seed)
    for j in range(n):
        par, lim, nom = ({}, {}, {}) if j == 0 else random_overrides(rng, kind)
        args = copy.deepcopy((par, lim, nom))
        case = dict(level="motor", kind=kind, parameter=par, limits=lim, nominal=nom)
        res.case((kind, "motor", tuple(sorted(par)), tuple(sorted(lim)), tuple(sorted(nom))))
        motor = mk_motor(kind, par, lim, nom)
        judge(res, kind, motor, par, lim, nom, case)
        res.check((par, lim, nom) == args, "arguments-changed", "%s changes the dictionaries passed by the user" % kind, case)
        if j % 2:
            pristine(res, kind, case)
        # initial states: named entries only
        names = list(motor.initializer["states"])
        states = {k: float(rng.uniform(0, 0.3)) for k in names if rng.random() < 0.5}
        states = {k: states.get(k, 0.0) for k in names}
        m2 = mk_motor(kind, None, None, None, dict(states=dict(states)))
        res.count("entries", len(names))
        res.check(dict(m2.initializer["states"]) == states and m2.initializer["interval"] is None and m2.initializer["random_init"] is None, "initializer-merge",
                  "%s initializer %s instead of the given states %s" % (kind, m2.initializer, states), case)
        # unknown names
        for what in ("motor_parameter", "limit_values", "nominal_values", "motor_initializer"):
            if rng.random() < 0.35:
                bad = {str(rng.choice(["no_such_entry", "r_x", "I", "Omega", "limit"])): 1.0}
                if rng.random() < 0.5:
                    bad = dict(dict(motor_parameter=par, limit_values=lim, nominal_values=nom).get(what, {}), **bad)
                res.count("refused")
                from gym_electric_motor import physical_systems as ps

                try:
                    getattr(ps, S.MOTOR_CLASS[kind])(**{what: bad})
                except KeyError:
                    continue
                res.violation("unknown-accepted", "%s accepts the unknown entry %s in %s" % (kind, sorted(bad), what), case)
    res.sample(dict(kind=kind, last=dict(parameter=par, limits=lim, nominal=nom), limits={k: float(v) for k, v in list(motor.limits.items())[:6]}))


def normal_check(res, kind, ps, L, u_sup, w_lim, state, case, key=""):
    """Limits of the physical system, and that the returned state is the physical one divided by them."""
    lim = dict(zip(ps.state_names, ps.limits))
    for k in ps.state_names:
        if k == "i_sum":
            continue
        exp = u_sup if k == "u_sup" else min(L.get(k) if L.get(k) is not None else np.inf, w_lim if k == "omega" else np.inf)
        if np.isinf(exp):
            continue
        res.count("env_entries")
        res.close(lim[k], exp, "system-limit" + key, "%s: limit of %s" % (kind, k), 1e-6 if k == "torque" else 1e-12, 0, case)
    return lim


def torque_of(kind, p, x, lim):
    """Torque from the normalised currents, for the motors whose torque follows from observed currents."""
    v = {k: x[k] * lim[k] for k in x}
    if kind == "PermExDc":
        return p["psi_e"] * v["i"]
    if kind == "SeriesDc":
        return p["l_e_prime"] * v["i"] ** 2
    if kind in ("ExtExDc", "ShuntDc"):
        return p["l_e_prime"] * v["i_a"] * v["i_e"]
    if kind in ("PMSM", "SynRM", "EESM"):
        return 1.5 * p["p"] * ((p["l_m"] * v["i_e"] if kind == "EESM" else p.get("psi_p", 0)) + (p["l_d"] - p["l_q"]) * v["i_sd"]) * v["i_sq"]
    return None


def drive(res, kind, ps, par, lim, rng, steps, case, key=""):
    """Executed steps: the physical relations hold with the reported limits (so these are the ones of the normalisation)."""
    p = dict(PARAM[kind], **par)
    names = list(ps.state_names)
    ps.reset()
    tl = lim["torque"]
    for _ in range(steps):
        s = ps.simulate(ps.action_space.sample())
        x = dict(zip(names, s))
        if not np.all(np.isfinite(s)):
            break
        res.count("normalised")
        if kind in PHASE:
            a, b, c = ("i_sa", "i_sb", "i_sc") if "i_sa" in x else ("i_a", "i_b", "i_c")
            amp = math.hypot(x["i_sd"] * lim["i_sd"], x["i_sq"] * lim["i_sq"])
            ab = [x[k] * lim[k] for k in (a, b, c)]
            amp2 = math.sqrt(2 / 3 * (ab[0] ** 2 + ab[1] ** 2 + ab[2] ** 2))
            res.close(amp, amp2, "normalisation-currents" + key, "%s: amplitude of the dq currents against the phase currents" % kind, 1e-6, 1e-9 * lim[a], case)
        if kind not in ("SCIM", "DFIM"):
            t = torque_of(kind, p, x, lim)
            res.close(x["torque"] * tl, t, "normalisation-torque" + key, "%s: torque state times limit against the torque of the currents" % kind, 1e-9, 1e-9 * tl, case)


def system(res, seed, kind, n, steps):
    rng = np.random.default_rng(seed)
    for j in range(n):
        spec = S.random_spec(rng, kind=kind, solver="euler", loads=("const", "poly"), supplies=("ideal",), scale=False)
        par, lim, nom = random_overrides(rng, kind, zeros=False)
        spec["param"], spec["limits"], spec["nominal"], spec["init"] = par, lim, nom, None
        spec["load"]["w"] = 0.0
        case = dict(level="system", spec=spec)
        res.case((kind, "system", tuple(sorted(par)), tuple(sorted(lim)), tuple(sorted(nom)), spec["cont"], spec["load"]["kind"]))
        ps, _ = S.mk_system(spec)
        L, N = judge(res, kind, ps.electrical_motor, par, lim, nom, case, "-system")
        ln = normal_check(res, kind, ps, L, spec["supply"]["u"], np.inf, None, case)
        nn = dict(zip(ps.state_names, ps.nominal_state))
        for k in ps.state_names:
            if k != "u_sup" and N.get(k) is not None and k != "i_sum":
                res.close(nn[k], N[k], "system-nominal", "%s: nominal value of %s" % (kind, k), 1e-6 if k == "torque" else 1e-12, 0, case)
        ps.seed(np.random.SeedSequence(int(rng.integers(1 << 30))))
        for sp in ps.action_space if isinstance(ps.action_space, (list, tuple)) else [ps.action_space]:
            sp.seed(int(rng.integers(1 << 30)))
        drive(res, kind, ps, par, ln, rng, steps, case)
    res.sample(dict(kind=kind, system_limits={k: float(v) for k, v in ln.items()}))


def environment(res, seed, ids, steps, n):
    rng = np.random.default_rng(seed)
    for i in ids:
        kind = i.split("-")[2]
        for j in range(n):
            par, lim, nom = random_overrides(rng, kind, zeros=False)
            kw = {}
            u = float(np.round(rng.uniform(20, 500), 2))
            kw["supply"] = dict(u_nominal=u)
            form = int(rng.integers(3))
            if form == 0:  # only some of the dictionaries
                par2, lim2, nom2 = [d if rng.random() < 0.6 else {} for d in (par, lim, nom)]
            else:
                par2, lim2, nom2 = par, lim, nom
            # (speed limits above the constant default speed, otherwise the drive would not be admissible)
            if lim2.get("omega", 1e9) < 240:
                lim2 = dict(lim2, omega=300.0)
            if nom2.get("omega", 1e9) < 240:
                nom2 = dict(nom2, omega=240.0)
            kw["motor"] = dict(motor_parameter=dict(par2), limit_values=dict(lim2), nominal_values=dict(nom2))
            given = copy.deepcopy(kw)
            case = dict(level="environment", id=i, kwargs=kw)
            res.case((kind, i, tuple(sorted(par2)), tuple(sorted(lim2)), tuple(sorted(nom2))))
            env = build(i, kw)
            res.check(kw == given, "arguments-changed-environment", "%s changes the dictionaries passed by the user" % i, case)
            ps = env.physical_system
            L, N = judge(res, kind, ps.electrical_motor, par2, lim2, nom2, case, "-env")
            ln = normal_check(res, kind, env.physical_system, L, u, np.inf, None, case, "-env")
            env.reset(seed=int(rng.integers(1 << 30)))
            names = list(env.physical_system.state_names)
            act = env.action_space
            act.seed(int(rng.integers(1 << 30)))
            p = dict(PARAM[kind], **par2)
            for _ in range(steps):
                out = env.step(act.sample())
                (s, r), _, done = out[0], out[1], out[2]
                x = dict(zip(names, s)) if len(s) == len(names) else None
                if x is None or not np.all(np.isfinite(s)):
                    break
                if kind not in ("SCIM", "DFIM"):
                    res.count("normalised")
                    res.close(x["torque"] * ln["torque"], torque_of(kind, p, x, ln), "normalisation-torque-env", "%s: torque state times limit against the torque of the currents" % i,
                              1e-9, 1e-9 * ln["torque"], case)
                if done:
                    env.reset()
            env.close()


def other(res, seed, n):
    """Loads and supplies: parameters named by the user are used, the others keep their documented default."""
    from gym_electric_motor.physical_systems import mechanical_loads as ml

    rng = np.random.default_rng(seed)
    D = ml.PolynomialStaticLoad().load_parameter
    D = {k: float(D[k]) for k in ("a", "b", "c", "j_load")}
    for j in range(n):
        res.count("loads")
        user = {k: float(rng.uniform(1e-5, 1.0)) for k in D if rng.random() < 0.5}
        given = dict(user)
        case = dict(level="load", parameter=user)
        res.case(("poly", tuple(sorted(user))))
        load = ml.PolynomialStaticLoad(load_parameter=user)
        eff = dict(D, **user)
        load.set_j_rotor(0.5)
        w = float(rng.uniform(10, 300)) * rng.choice([-1, 1])
        t = float(rng.uniform(-50, 50))
        static = np.sign(w) * (eff["c"] * w * w + eff["a"]) + eff["b"] * w
        got = float(np.asarray(load.mechanical_ode(0.0, [w], t)).ravel()[0])
        exp = (t - static) / (eff["j_load"] + 0.5)
        res.close(got, exp, "load-merge", "acceleration of the polynomial load with %s at omega=%g, torque=%g" % (user, w, t), 1e-9, 1e-9, case)
        res.check(user == given, "arguments-changed-load", "the load changes the dictionary of the user", case)
        default = ml.PolynomialStaticLoad()
        res.check({k: default.load_parameter[k] for k in D} == D, "load-contaminated", "defaults of the load are %s" % (default.load_parameter,), case)
        res.count("refused")
        try:
            ml.PolynomialStaticLoad(load_parameter=dict(user, d=1.0))
            res.violation("unknown-accepted-load", "the polynomial load accepts the unknown parameter d", case)
        except KeyError:
            pass
        # limits of a load cap the speed limit of the system
        wl = float(rng.uniform(20, 600))
        kind = str(rng.choice(S.KINDS))
        spec = S.random_spec(rng, kind=kind, loads=("poly",), supplies=("ideal",), scale=False)
        spec["init"] = None
        conv, sup, motor, _, solver = S.mk_conv(spec), S.mk_supply(spec), S.mk_motor(spec), None, S.mk_solver(spec)
        from gym_electric_motor import physical_systems as ps

        if rng.random() < 0.5:
            wn = float(rng.uniform(0.2, 1.0)) * wl

            class Load(ml.PolynomialStaticLoad):  # a user-defined load with its own limit and nominal speed
                limits = property(lambda self: dict(omega=wl))
                nominal_values = property(lambda self: dict(omega=wn))

            load = Load()
        else:
            wn, load = np.inf, ml.PolynomialStaticLoad(limits=dict(omega=wl))
        sysm = getattr(ps, S.SYSTEM_CLASS[kind])(converter=conv, motor=motor, load=load, supply=sup, ode_solver=solver, tau=spec["tau"])
        nom = dict(zip(sysm.state_names, sysm.nominal_state))
        motor_nom = float(motor.nominal_values["omega"])
        res.close(nom["omega"], min(wn, motor_nom), "load-nominal", "%s: nominal speed with a nominal speed of the load of %g and of the motor of %g" % (kind, wn, motor_nom), 1e-12, 0, dict(case, load_nominal=wn, kind=kind))
        lim = dict(zip(sysm.state_names, sysm.limits))
        res.close(lim["omega"], min(wl, DEFAULT[kind][0]["omega"]), "load-limit", "%s: speed limit with a load limit of %g" % (kind, wl), 1e-12, 0, dict(case, load_limit=wl, kind=kind))


def build(i, kw):
    import gym_electric_motor as gem

    return gem.make(i, visualization=(), **kw).unwrapped
