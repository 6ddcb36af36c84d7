"""C30: tuned controllers follow the symmetrical optimum and settle at their references."""
import numpy as np

from .. import ctrl as K
from . import c31

PROPERTY = "C30"
RULE = ("(law) random sequences of observations and references are fed into tuned current and speed controllers, their outputs are compared in every step"
        " with an independent P / PI / PID law with the gains of the symmetrical optimum and integrators that hold while the output is limited;"
        " (track) closed loops of random machines with constant and stepped reachable references: no limit violation, remaining error in the last part;"
        " distinct = motor x task x base controller x regime")
ASSUMPTIONS = ["gains of SCIM and EESM current controllers are only judged by the closed loop (SCIM) or not at all (EESM)",
               "torque control at high speeds is claimed up to 60 % of the torque that current and voltage limit permit there (limit cycles occur above)",
               "tracking is claimed for PI controllers with continuous actions, voltage limits equal to the supply, and reachable references;"
               " for finite actions up to the ripple of one switching step; SCIM speed control at low speeds (the flux observer diverges at high speeds)"]
REQUIRE = {"law_current": 5000, "law_speed": 2400, "law_held": 800, "track_runs": 60, "track_steps": 60000, "finite_runs": 9, "weakening_runs": 40, "weakened": 6, "winding_time_constant": 20}
JOB_LIMIT = dict(quick=400, thorough=1500)


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for j in range(12 if q else 48):
        out.append(("track", dict(seed=[seed, 1000 + j], n=9 if q else 18)))
    for j in range(6 if q else 24):
        out.append(("finite", dict(seed=[seed, 2000 + j], n=3)))
        out.append(("law", dict(seed=[seed, j], n=24 if q else 48, steps=120)))
    for j in range(4 if q else 12):
        out.append(("scim", dict(seed=[seed, 3000 + j], n=1 if q else 4)))
    for m, k, n in (("PMSM", 6, 3), ("SynRM", 5, 3), ("EESM", 4, 1)):
        for j in range(k if q else 5 * k):
            out.append(("weakening", dict(seed=[seed, 4000 + j], kind=m, n=n)))
    return out


def inductance(m, p):
    if m == "SeriesDc":
        return np.array([p["l_a"] + p["l_e"]])
    if m in ("ShuntDc", "PermExDc"):
        return np.array([p["l_a"]])
    if m == "ExtExDc":
        return np.array([p["l_a"], p["l_e"]])
    return np.array([p["l_d"], p["l_q"]])


def resistance(m, p):
    return np.array(dict(SeriesDc=[p["r_a"] + p.get("r_e", 0)], ExtExDc=[p["r_a"], p.get("r_e", 0)]).get(m, [p["r_a"]]))


class Law:
    """Discrete P / PI / PID controller, output first, integration afterwards (held for limited components)."""

    def __init__(self, base, p, i, tau, size):
        self.base, self.p, self.i, self.tau = base, p, i, tau
        self.sum, self.last = np.zeros(size), np.zeros(size)

    def output(self, e):
        u = self.p * e
        if self.base in ("PI", "PID"):
            u = u + self.i * self.sum
        if self.base == "PID":
            u = u + self.p * (e - self.last)
        self.last = e
        return u

    def integrate(self, e, free):
        if self.base in ("PI", "PID"):
            self.sum = self.sum + self.tau * e * free


def law(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    ms = K.DC + ("PMSM", "SynRM")
    for c in range(n):
        m = ms[c % len(ms)]
        # every combination of base controllers for every motor
        combo = (c // len(ms) + int(seed[1]) * (n // len(ms))) % 12
        task = "CC" if m in ("PMSM", "SynRM") or combo % 4 == 3 else "SC"
        base, cc = [(x, y) for x in ("PI", "P", "PID") for y in ("P", "PI", "PID", "")][combo]
        s = K.random_spec(rng, motor=m, task=task, finite=False, base=base)
        s["decoupling"] = False
        a = s["a"]
        load_j = float(10.0 ** rng.uniform(-4, 0))
        if task == "SC":
            from gym_electric_motor import physical_systems as ps

            s["load"] = ps.PolynomialStaticLoad(load_parameter=dict(a=0.01, b=0.0, c=0.0, j_load=load_j))
            s["sc"] = base
            s["cc"] = cc
        st = c31.Setup(s, both=False)
        env, p, tau = st.env, st.p, st.tau
        ctl = K.controller(s, env)
        so, ro = env.observation_space[0], env.observation_space[1]
        L = inductance(m, p)
        pc = L / (a * tau)
        ic = pc / (a**2 * tau)
        ii = K.idx(env, K.CURR[m])
        if task == "CC":
            model = Law(base, pc, ic, tau, len(L))
            big = np.array([st.lim[k] for k in (K.VOLT[m])])
            lo = np.array([st.low[k] * st.lim[k] for k in K.VOLT[m]])
        else:
            J = p["j_rotor"] + load_j
            t_n = a**2 * tau
            if s["cc"] == "P":  # no integrator: smallest time constant of the windings
                t_n = float(np.min(L / resistance(m, p)))
                res.count("winding_time_constant")
            tl = st.lim["torque"]
            big, lo = np.array([tl]), np.array([st.low["torque"] * tl])
        ctl.reset()
        speed = K.stages(ctl, s)[0]
        if task == "SC":
            model = Law(base, np.array([J / (a * t_n)]), np.array([J / (a * t_n) / (a * t_n)]), tau, 1)
        # errors that exhaust the limit now and then
        lim_x = np.array([st.lim[k] for k in (K.CURR[m] if task == "CC" else ["omega"])])
        amp = np.minimum(big / model.p / lim_x * float(10.0 ** rng.uniform(-1.5, 0.3)), 1.0)
        key = f"{m}-{task}-{base}"
        for k in range(steps):
            if k and rng.random() < 0.02:
                ctl.reset()
                model.sum[:] = 0
                model.last = np.zeros_like(model.last)
            o = rng.uniform(so.low, so.high) * float(10.0 ** -rng.uniform(0, 1.5))
            jj = ii if task == "CC" else K.idx(env, ["omega"])
            r = np.clip(o[jj] + amp * rng.normal(size=len(jj)), ro.low, ro.high)
            x = st.physical(o)
            act = ctl.control(o, r)
            e = (r - o[jj]) * lim_x
            u = model.output(e)
            if task == "CC":
                want = c31.limited(st, u)
                got = st.voltages(act, x)
            else:
                want = np.clip(u, lo, big)
                got = np.atleast_1d(np.asarray(speed.torque_reference, float))
            free = want == u
            if st.ac and task == "CC" and not np.array_equal(want, u):
                free = (want - u) == 0.0
            res.count("law_current" if task == "CC" else "law_speed")
            res.count("law_held", int(not np.all(free)))
            near = np.any(np.abs(np.abs(u) - np.abs(want)) < 1e-9 * big) and not np.all(free)
            ok = res.check(bool(np.all(np.abs(got - want) <= 1e-8 * big * (1 + k * 0.01))), f"control-law:{key}",
                           f"{K.tag(s)} {base} a={a} tau={tau}: output {got}, law {want} (unlimited {u}) for the error {e} after {k} steps")
            res.case((m, task, base, bool(np.all(free)), int(np.log10(np.abs(e).max() + 1e-9))))
            if not ok or near:
                break
            model.integrate(e, free)


def steady(s, p, x):
    """steady-state voltages of the windings for the currents and the speed x"""
    m = s["motor"]
    ff = c31.induced(s, p, x) if m != "SCIM" else None
    if m == "SeriesDc":
        return (p["r_a"] + p["r_e"]) * x["i"] + ff
    if m == "PermExDc":
        return p["r_a"] * x["i"] + ff
    if m == "ExtExDc":
        return np.array([p["r_a"] * x["i_a"], p["r_e"] * x["i_e"]]) + ff
    if m in ("PMSM", "SynRM"):
        return p["r_s"] * np.array([x["i_sd"], x["i_sq"]]) + ff


def closed_loop(env, ctl, refs, steps, seed):
    """-> (trace of the referenced states, terminated?)"""
    ii = K.idx(env, list(env.reference_names))
    (o, _), _ = env.reset(seed=seed)
    ctl.reset()
    tr, rr = [], []
    for r in refs:
        for _ in range(steps):
            (o, _), _, term, _, _ = env.step(ctl.control(o, r))
            tr.append(o[ii])
            rr.append(r)
            if term:
                return np.array(tr), np.array(rr), True
    return np.array(tr), np.array(rr), False


COMBOS = [(m, "CC") for m in ("PermExDc", "SeriesDc", "ExtExDc", "PMSM", "SynRM", "SCIM")] + [(m, t) for m in ("PermExDc", "ExtExDc") for t in ("TC", "SC")]
COMBOS += [("SeriesDc", "TC"), ("PMSM", "SC")]


def track_spec(rng, m, task, finite):
    from gym_electric_motor import physical_systems as ps

    s = K.random_spec(rng, motor=m, task=task, finite=finite, base="PI")
    s.update(conv=None, dead=0, a=float(rng.choice([3.0, 4.0, 5.0])), margin=0.2, tau=None, u=1.0)
    if not finite:
        s["tau"] = float(rng.choice([5e-5, 1e-4]))
    if m == "SynRM" and rng.random() < 0.5:
        s["swap"] = True
    if task == "SC":
        # current steps to the limit overshoot by up to 40 %, and the speed loop needs a fast current loop
        s.update(a=float(rng.choice([4.0, 5.0])), margin=0.35, decoupling=True)
        s["load"] = ps.PolynomialStaticLoad(load_parameter=dict(a=0.02, b=1e-3, c=0.0, j_load=float(10.0 ** rng.uniform(-3.5, -2.3))))
    else:
        s["load"] = ps.ConstantSpeedLoad(omega_fixed=float(rng.uniform(5, 60)) * (1 if m == "SeriesDc" or rng.random() < 0.5 else -1))
    return s


def track(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        m, task = COMBOS[(c + n * seed[-1]) % len(COMBOS)]
        s = track_spec(rng, m, task, False)
        st = c31.Setup(s, both=False)
        if st.ac:
            s["u_sup"] = 2 * st.lim[st.phases[0]]
            st = c31.Setup(s, both=False)
        env, p = st.env, st.p
        ctl = K.controller(s, env)
        ro = env.observation_space[1]
        w = 0.0 if task == "SC" else float(env.physical_system.mechanical_load.omega_fixed)
        refs = []
        names = list(env.reference_names)
        for _ in range(500):
            r = rng.uniform(np.maximum(ro.low, -1) * 0.4, np.minimum(ro.high, 1) * 0.4)
            if m in ("ExtExDc",) and task == "CC":
                r[1] = abs(r[1])
            if m == "SeriesDc":
                r = np.abs(r) + 0.02
            if task == "CC" and m == "SCIM":
                r = np.array([rng.uniform(0.15, 0.4), rng.uniform(-0.3, 0.3)])
            if task == "CC" and m != "SCIM":
                x = {k: 0.0 for k in st.names}
                x["omega"] = w
                for k, v in zip(names, r):
                    x[k] = float(v) * st.lim[k]
                u = steady(s, p, x)
                if st.ac:
                    if np.hypot(u[0], u[1]) > 0.6 * st.lim["u_sd"]:
                        continue
                elif np.any(np.abs(u) > 0.7 * st.ulim) or np.any(u < 0.7 * np.array([st.low[k] * st.lim[k] for k in st.phases])):
                    continue
            if task == "TC":
                r = np.clip(r, -0.25, 0.25)
            if task == "SC":
                r = np.clip(np.abs(r), 0.03, 0.3)
            refs.append(r)
            if len(refs) == 3:
                break
        if len(refs) < 3:
            continue
        if task == "SC":
            refs.sort(key=lambda r: float(r[0]))
        steps = 700
        if task == "SC":  # time to accelerate with a fifth of the torque limit, and to settle
            steps = int(1500 + (s["load"].j_total) * 0.3 * st.lim["omega"] / (0.2 * st.lim["torque"]) / st.tau)
            if steps > 12000:
                continue
        tr, rr, term = closed_loop(env, ctl, refs, steps, int(rng.integers(1 << 30)))
        res.count("track_runs")
        res.count("track_steps", len(tr))
        key = f"{m}-{task}"
        if not res.check(not term, f"limit-violated:{key}", f"{K.tag(s)} {s}: limit violation in step {len(tr)}, state {tr[-1]}, reference {rr[-1]}"):
            continue
        for j in range(len(refs)):
            part = slice((j + 1) * steps - steps // 8, (j + 1) * steps)
            err = np.abs(tr[part] - rr[part]).max(axis=0)
            res.check(bool(np.all(err <= 0.01)), f"remaining-error:{key}", f"{K.tag(s)} {s}: remaining error {err} at the reference {refs[j]} (speed {w})")
            res.case((m, task, j, bool(s["decoupling"]), s["a"]))


def finite(res, seed, n):
    rng = np.random.default_rng(seed)
    combos = [("PermExDc", "CC"), ("SeriesDc", "CC"), ("ExtExDc", "CC")]
    for c in range(n):
        m, task = combos[c % 3]
        s = track_spec(rng, m, task, True)
        st = c31.Setup(s, both=False)
        env, p = st.env, st.p
        ctl = K.controller(s, env)
        ro = env.observation_space[1]
        f = float(rng.uniform(0.1, 0.25))
        refs = [np.clip(f * np.ones(len(ro.high)), ro.low, ro.high), np.clip(0.5 * f * np.ones(len(ro.high)), ro.low, ro.high)]
        steps = 4000
        tr, rr, term = closed_loop(env, ctl, refs, steps, 1)
        res.count("finite_runs")
        key = f"{m}-{task}-finite"
        if not res.check(not term, f"limit-violated:{key}", f"{K.tag(s)} {s}: limit violation in step {len(tr)}"):
            continue
        # band: four switching steps of the full voltage
        for j in range(len(refs)):
            part = slice((j + 1) * steps - steps // 4, (j + 1) * steps)
            err = np.abs(tr[part] - rr[part]).mean(axis=0)
            band = 0.02 + 4 * st.tau * 2 * st.ulim / inductance(m, p) / np.array([st.lim[k] for k in env.reference_names])
            res.check(bool(np.all(err <= band)), f"remaining-error:{key}", f"{K.tag(s)} {s}: mean error {err} > {band} at {refs[j]}")
            res.case((m, task, "finite", j))


def scim(res, seed, n):
    """Speed control of induction machines at low speeds, where the flux observer is accurate"""
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for c in range(n):
        s = track_spec(rng, "SCIM", "SC", False)
        if c == 0 and seed[-1] == 3000:
            s["param"] = {}
        s.update(tau=1e-4, margin=0.35, a=4.0, load=ps.PolynomialStaticLoad(load_parameter=dict(a=0.02, b=1e-3, c=0.0, j_load=10 ** float(rng.uniform(-4, -2.8)))))
        st = c31.Setup(s, both=False)
        s["u_sup"] = 2 * st.lim["u_sa"]
        st = c31.Setup(s, both=False)
        ctl = K.controller(s, st.env)
        r = np.array([float(rng.uniform(0.04, 0.1))]) * (2 / max(st.p["p"], 2))
        tr, rr, term = closed_loop(st.env, ctl, [r], 10000, 1)
        res.count("scim_steps", len(tr))
        res.count("track_runs")
        res.case(("SCIM", "SC", bool(s["decoupling"])))
        if res.check(not term, "limit-violated:SCIM-SC", f"SCIM {s}: limit violation in step {len(tr)} at the constant speed reference {r}"):
            err = float(np.abs(tr[-1000:] - r).max())
            res.check(err <= 0.01, "remaining-error:SCIM-SC", f"SCIM {s}: remaining error {err} at the speed reference {r}")


def permitted(kind, p, w, il, ul, ie):
    """largest torque with a stator current of at most il and a stationary voltage of at most ul at the speed w, by exhaustion"""
    psi = p["l_m"] * ie if kind == "EESM" else p.get("psi_p", 0.0)
    a, g = np.linspace(0, il, 160)[:, None], np.linspace(0, np.pi, 361)[None, :]
    d, q = a * np.cos(g), a * np.sin(g)
    we = w * p["p"]
    u = np.hypot(p["r_s"] * d - we * p["l_q"] * q, p["r_s"] * q + we * (p["l_d"] * d + psi))
    t = 1.5 * p["p"] * (psi + (p["l_d"] - p["l_q"]) * d) * q
    return float(np.max(np.where(u <= ul, t, 0.0)))


def weakening(res, seed, kind, n):
    """torque control at constant speeds up to the speed limit, where the voltage limit demands field weakening"""
    import gem_controllers as gc
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor import reference_generators as rg

    from .. import systems as S

    rng = np.random.default_rng(seed + [ord(kind[0])])
    eid = "Cont-TC-%s-v0" % kind
    for _ in range(n):
        par = {k: float(v * rng.uniform(0.7, 1.4)) for k, v in S.PARAMS[kind].items() if k in ("r_s", "l_q", "psi_p") or (k == "l_d" and kind != "EESM")}
        if kind == "PMSM":
            par["l_d"] = min(par["l_d"], 0.8 * par["l_q"])
        if kind == "EESM":
            par["l_m"] = 1e-3
        base = gem.make(eid, visualization=(), motor=dict(motor_parameter=par)).unwrapped.physical_system
        lim = dict(zip(base.state_names, (float(x) for x in base.limits)))
        p = base.electrical_motor.motor_parameter
        w = float(rng.uniform(0.4, 1.0) * lim["omega"] * (1 if rng.random() < 0.7 else -1))
        il, ul, ie = 0.8 * lim["i_sd"], 0.95 * lim["u_sd"], 0.8 * lim.get("i_e", 0.0)
        reach, top = permitted(kind, p, abs(w), il, ul, ie), permitted(kind, p, 0.0, il, np.inf, ie)
        env = gem.make(eid, visualization=(), constraints=(), supply=ps.IdealVoltageSupply(u_nominal=2 * lim["u_sd"]), load=ps.ConstantSpeedLoad(omega_fixed=w),
                       motor=dict(motor_parameter=par, nominal_values=dict(omega=lim["omega"])), reference_generator=rg.ConstReferenceGenerator("torque", 0.0)).unwrapped
        ctl = gc.GemController.make(env, eid, block_diagram=False)
        ii = {q: list(env.state_names).index(q) for q in ("torque", "u_sd", "u_sq", "i_sd", "i_sq")}
        refs = [float(rng.uniform(0.15, 0.6) * reach * rng.choice([-1, 1])) for _ in range(2)]
        case = (kind, "w%d" % int(3 * w / lim["omega"]))
        for t in refs:
            (o, _), _ = env.reset(seed=int(rng.integers(1 << 30)))
            ctl.reset()
            x = np.empty((12000, 3))  # (the modulation controller that weakens the field is slow, in particular after it was wound up by other references)
            for k in range(len(x)):
                if k > 2000 and k % 500 == 0 and abs(x[k - 500:k, 0].mean() - t) <= 0.03 * top and x[k - 500:k, 0].std() <= 0.01 * top:
                    break
                o = env.step(ctl.control(o, np.array([t / lim["torque"]])))[0][0]
                v = {q: o[i] * lim[q] for q, i in ii.items()}
                x[k] = v["torque"], np.hypot(v["u_sd"], v["u_sq"]), np.hypot(v["i_sd"], v["i_sq"])
            end = x[max(0, k - 500):k]
            res.count("weakening_runs")
            res.count("weakened", int(end[:, 1].mean() > 0.97 * ul))
            what = "%s %s: speed %.4g, torque reference %.4g of %.4g permitted (%.4g at standstill): " % (kind, par, w, t, reach, top)
            res.case(case)
            res.check(bool(np.all(np.isfinite(end)) and abs(end[:, 0].mean() - t) <= 0.03 * top), "weakening-torque:%s" % kind, lambda: what + "stationary torque %.4g" % end[:, 0].mean(), case)
            res.check(bool(end[:, 0].std() <= 0.01 * top), "weakening-oscillation:%s" % kind, lambda: what + "torque oscillates by %.4g" % end[:, 0].std(), case)
            res.check(bool(end[:, 2].max() <= 1.02 * il), "weakening-current:%s" % kind, lambda: what + "current %.4g exceeds %.4g" % (end[:, 2].max(), il), case)
