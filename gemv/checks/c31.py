"""C31: the voltage path of the current controllers: decoupling, clipping, transformation to phase voltages and delay compensation."""
import numpy as np

from .. import ctrl as K

PROPERTY = "C31"
RULE = ("current controllers of random machines: (feedforward) controllers with and without decoupling are called with the same observations and references;"
        " the voltages recovered from the actions must differ by the induced voltage of an independent machine model at the observed state, saturating in"
        " the documented way, with phase voltages that belong to the advanced angle; (plant) in closed loops with 0-3 steps of dead time the dq"
        " voltages that the drive applied in a step are compared with the references that were issued for it; distinct = motor x task x dead time x regime")
ASSUMPTIONS = ["EESM: only the q component of the decoupling (the coupling of d axis and excitation is compensated approximately by the controller)",
               "the angle advance is judged for constant speed within the dead time; SCIM: the slip within the step is tolerated"]
REQUIRE = {"dc_feedforward": 4000, "ac_feedforward": 4000, "scim_feedforward": 1000, "saturated": 300, "plant_dc": 1500, "plant_ac": 1500,
           "plant_dead": 1500, "eesm_q": 150}
JOB_LIMIT = dict(quick=400, thorough=1500)


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for j in range(32 if q else 120):
        out.append(("feedforward", dict(seed=[seed, j], n=16 if q else 32, points=60 if q else 150)))
        out.append(("plant", dict(seed=[seed, 1000 + j], n=16 if q else 32, steps=40 if q else 120)))
    out.append(("mismatch", {}))
    out.append(("eesm", dict(seed=[seed, 5000], n=3 if q else 12, points=100)))
    return out


def spec(rng, c):
    ms = K.DC + K.AC[:3] + ("SCIM",)
    m = ms[c % len(ms)]
    while True:
        s = K.random_spec(rng, motor=m, finite=False)
        # the tuning of the torque controllers takes long: mostly current control for the three-phase machines
        if m in ("PMSM", "SynRM") and rng.random() < 0.5:
            s["task"] = "CC"
        if s["cc"] != "ThreePoint":
            return s


def induced(s, p, x):
    """Speed dependent voltages at the state x (dict of physical values)."""
    m, w = s["motor"], x["omega"]
    if m == "PermExDc":
        return np.array([p["psi_e"] * w])
    if m == "SeriesDc":
        return np.array([p["l_e_prime"] * x["i"] * w])
    if m == "ShuntDc":
        return np.array([p["l_e_prime"] * x["i_e"] * w])
    if m == "ExtExDc":
        return np.array([p["l_e_prime"] * x["i_e"] * w, 0.0])
    we = p["p"] * w
    if m in ("PMSM", "SynRM"):
        return np.array([-we * p["l_q"] * x["i_sq"], we * (p["l_d"] * x["i_sd"] + p.get("psi_p", 0.0))])
    if m == "EESM":
        return np.array([np.nan, we * (p["l_d"] * x["i_sd"] + p["l_m"] * x["i_e"]), np.nan])
    l_s, l_r = p["l_m"] + p["l_sigs"], p["l_m"] + p["l_sigr"]
    sl = l_s - p["l_m"] ** 2 / l_r
    psi = x["psi_abs"]
    ws = we + p["r_r"] * p["l_m"] / l_r * x["i_sq"] / psi
    return np.array([-ws * sl * x["i_sq"] - p["l_m"] * p["r_r"] / l_r**2 * psi, ws * sl * x["i_sd"] + we * p["l_m"] / l_r * psi])


def dq(u, angle):
    """amplitude invariant Park transformation of phase values"""
    a = 2 * np.pi / 3
    return 2 / 3 * np.array([sum(u[k] * np.cos(angle - k * a) for k in range(3)), -sum(u[k] * np.sin(angle - k * a) for k in range(3))])


class Setup:
    def __init__(self, s, both=True):
        self.s = s
        self.env = env = K.build(s)
        env.reset(seed=1)
        self.names = list(env.state_names)
        self.lim = dict(zip(self.names, map(float, env.limits)))
        self.low = dict(zip(self.names, map(float, env.observation_space[0].low)))
        self.p = K.params(s)
        self.tau = float(env.physical_system.tau)
        self.with_, self.without = None, None
        if both:
            self.with_ = K.controller(dict(s, decoupling=True), env)
            self.without = K.controller(dict(s, decoupling=False), env)
        self.ac = s["motor"] in K.AC
        m = s["motor"]
        self.phases = {"ExtExDc": ["u_a", "u_e"]}.get(m, ["u"]) if not self.ac else (["u_a", "u_b", "u_c", "u_e"] if m == "EESM" else
                                                                                      [["u_a", "u_b", "u_c"], ["u_sa", "u_sb", "u_sc"]]["u_sa" in self.names])
        self.ulim = np.array([self.lim[k] for k in self.phases])

    def physical(self, obs):
        return {k: float(v) * self.lim[k] for k, v in zip(self.names, obs)}

    def angle(self, x):
        e = x["psi_angle"] if self.s["motor"] == "SCIM" else x["epsilon"]
        return e + (0.5 + self.s["dead"]) * self.tau * self.p["p"] * x["omega"]

    def voltages(self, action, x):
        """-> dq (AC) or winding (DC) voltages that the action demands"""
        u = np.atleast_1d(np.asarray(action, float)) * self.ulim
        if not self.ac:
            return u
        return np.concatenate((dq(u[:3], self.angle(x)), u[3:]))


def limited(st, u):
    """documented clipping: DC windings component-wise to the voltage range, space vectors to the length of the limit"""
    s = st.s
    if not st.ac:
        return np.clip(u, [st.low[k] * st.lim[k] for k in K.VOLT[s["motor"]]], [st.lim[k] for k in K.VOLT[s["motor"]]])
    n = np.hypot(u[0], u[1]) / st.lim["u_sd"]
    return u if n <= 1 else u / n


def feedforward(res, seed, n, points):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = spec(rng, c)
        st = Setup(s)
        env, p = st.env, st.p
        key = f"{s['motor']}"
        scale = st.lim["u_sd"] if st.ac else np.array([st.lim[k] for k in K.VOLT[s["motor"]]])
        lowest = np.array([st.low[k] * st.lim[k] for k in K.VOLT[s["motor"]]])
        so, ro = env.observation_space[0], env.observation_space[1]
        for _ in range(points):
            o = rng.uniform(so.low, so.high)
            mode = int(rng.integers(4))
            if mode:
                o = o * 10.0 ** -rng.uniform(0, 2 * mode / 3)
            if rng.random() < 0.3:
                o = np.where(rng.random(o.shape) < 0.5, -o, o)
            r = rng.uniform(ro.low, ro.high)
            if s["task"] == "CC":
                ii = K.idx(env, env.reference_names)
                if mode == 3 or rng.random() < 0.3:
                    r = np.clip(o[ii], ro.low, ro.high)  # no control error: the decoupling alone
                else:
                    r = np.clip(o[ii] + 0.03 * rng.normal(size=len(ii)), ro.low, ro.high)
            if s["motor"] == "SCIM":
                k = st.names.index("psi_abs")
                if abs(o[k] * st.lim["psi_abs"]) < 1e-3:
                    o[k] = 1e-2 / st.lim["psi_abs"]
            x = st.physical(o)
            for ctl in (st.with_, st.without):
                ctl.reset()
            plain = st.voltages(st.without.control(o, r), x)
            full = st.voltages(st.with_.control(o, r), x)
            if not res.check(bool(np.all(np.isfinite(plain)) and np.all(np.isfinite(full))), f"voltage-not-finite:{key}", f"{K.tag(s)}: {plain} {full}"):
                continue
            if st.ac:
                if np.hypot(plain[0], plain[1]) > (1 - 1e-9) * st.lim["u_sd"]:
                    continue
            elif np.any(plain <= lowest + 1e-9 * scale) or np.any(plain >= scale * (1 - 1e-9)):
                continue
            ff = induced(s, p, x)
            want = limited(st, plain + ff)
            sat = bool(np.any(np.abs(want - plain - ff) > 1e-12 * scale))
            res.count("saturated", int(sat))
            res.count("ac_feedforward" if st.ac else "dc_feedforward")
            if s["motor"] == "SCIM":
                res.count("scim_feedforward")
            res.check(bool(np.all(np.abs(full - want) <= 1e-8 * scale)), f"decoupling:{key}" + (":saturated" if sat else ""),
                      f"{K.tag(s)} {s['cc']}: decoupling adds {full - plain}, the induced voltages are {ff} (expected reference {want}, got {full}) at {x}")
            res.case((s["motor"], s["task"], s["dead"], sat, mode))


def eesm(res, seed, n, points):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = K.random_spec(rng, motor="EESM", task="CC", finite=False, base=("P", "PI")[c % 2])
        st = Setup(s)
        so, ro = st.env.observation_space
        ii = K.idx(st.env, st.env.reference_names)
        for _ in range(points):
            o = rng.uniform(so.low, so.high) * 10.0 ** -rng.uniform(0.5, 2)
            x = st.physical(o)
            r = np.clip(o[ii], ro.low, ro.high)
            st.with_.reset()
            st.without.reset()
            plain, full = st.voltages(st.without.control(o, r), x), st.voltages(st.with_.control(o, r), x)
            if np.hypot(full[0], full[1]) > 0.999 * st.lim["u_sd"] or np.hypot(plain[0], plain[1]) > 0.999 * st.lim["u_sd"]:
                continue
            ff = induced(s, st.p, x)[1]
            res.count("eesm_q")
            res.check(abs(full[1] - plain[1] - ff) <= 1e-8 * st.lim["u_sd"], "decoupling:EESM", f"EESM: decoupling adds {full - plain}, induced q voltage {ff} at {x}")
            res.case(("EESM", round(float(np.log10(abs(ff) + 1e-9)))))


def plant(res, seed, n, steps):
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for c in range(n):
        s = spec(rng, c)
        s["dead"] = int(rng.integers(0, 4))
        s["u"] = 1.0
        s["conv"] = None if s["conv"] is None else "Cont-4QC"
        if s["task"] == "CC" and s["motor"] in K.AC:
            s["task"] = "TC" if s["motor"] == "SCIM" else s["task"]
        nom = {"PermExDc": 300, "SeriesDc": 300, "ShuntDc": 300, "ExtExDc": 300}.get(s["motor"], 300)
        s["load"] = ps.ConstantSpeedLoad(omega_fixed=float(rng.uniform(-1, 1) * 0.6 * nom) if s["motor"] in K.AC else float(rng.uniform(0.1, 0.5) * nom))
        try:
            st = Setup(s, both=False)
        except AssertionError:
            continue
        if st.ac:  # the voltage limits are those of the supply (known finding otherwise, job `mismatch`)
            s["u_sup"] = 2 * st.lim[st.phases[0]]
            st = Setup(s, both=False)
        env = st.env
        ctl = K.controller(s, env)
        issued, slips = [], []
        (o, r), _ = env.reset(seed=int(rng.integers(1 << 30)))
        ctl.reset()
        f = float(rng.uniform(0.05, 0.5))
        ro = env.observation_space[1]
        const = rng.uniform(ro.low, ro.high) * f
        idle = True
        for k in range(steps):
            if k % 17 == 16:
                const = rng.uniform(ro.low, ro.high) * f
            x = st.physical(o)
            a = ctl.control(o, const)
            cc = K.stages(ctl, s)[2]
            if st.ac and s["task"] != "CC":
                issued.append(np.array(cc.voltage_reference, float))
            else:
                issued.append(st.voltages(a, x))
            (o, r), _, term, _, _ = env.step(a)
            y = st.physical(o)
            if st.ac:
                ang = "psi_angle" if s["motor"] == "SCIM" else "epsilon"
                d = (y[ang] - x[ang] + np.pi) % (2 * np.pi) - np.pi
                slips.append(abs(d - st.tau * st.p["p"] * y["omega"]))
            j = k - s["dead"]
            if j >= 0:
                res.count("plant_ac" if st.ac else "plant_dc")
                if s["dead"]:
                    res.count("plant_dead")
                u = np.array([y[q] for q in st.phases])
                if st.ac:
                    # mean angle of the step, in the issued coordinates
                    got = dq(u[:3], x[ang] + d / 2)
                    tol = (0.02 * (1 + s["dead"]) if s["motor"] == "SCIM" else 1e-6) * st.lim["u_sd"]
                else:
                    got, tol = u, 1e-9 * st.ulim
                want = issued[j]
                if s["motor"] == "SCIM" and max(slips[j:]) > 0.01:
                    pass  # the flux is built up: its angle moves faster than the rotor
                else:
                    res.check(bool(np.all(np.abs(got[: len(want)] - want[: len(got)]) <= tol)), f"applied-voltage:{s['motor']}:{'dead' if s['dead'] else 'direct'}",
                              f"{K.tag(s)} dead time {s['dead']}: the drive applied {got} in the step for which {want} was demanded (omega={y['omega']})")
                res.case((s["motor"], s["task"], s["dead"], "plant"))
            if term:
                (o, r), _ = env.reset()
                ctl.reset()
                issued, slips = [], []
                break


def mismatch(res):
    """Known finding: environments whose voltage limits differ from the supply voltage"""
    for m in ("PMSM", "SynRM", "SCIM"):
        s = K.random_spec(np.random.default_rng(0), motor=m, task="CC", finite=False, base="P", default=True)
        s["dead"] = 0
        st = Setup(s, both=False)
        ctl = K.controller(s, st.env)
        (o, _), _ = st.env.reset(seed=1)
        ctl.reset()
        x = st.physical(o)
        a = ctl.control(o, np.array([0.01, 0.01]))
        want = np.asarray(K.stages(ctl, s)[2].voltage_reference, float)[:3]
        (o, _), _, _, _, _ = st.env.step(a)
        y = st.physical(o)
        got = np.array([y[q] for q in st.phases])[:3]
        res.count("mismatch")
        res.case(("mismatch", m))
        res.check(bool(np.all(np.abs(got - want) <= 1e-6 * st.ulim[0])), f"voltage-limit-differs-from-supply:{m}",
                  f"default Cont-CC-{m}: the controller demands the phase voltages {want} V, the drive applies {got} V")
