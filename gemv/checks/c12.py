"""C12: coordinate transformations are mutually inverse and every observation is consistent in itself."""
import numpy as np

from .. import refsim as R
from .. import systems as S
from .. import zoo

PROPERTY = "C12"
RULE = ("(a) the transformations of random three-phase systems on random quantities and angles: round trips, amplitude invariance,"
        " rotation composition and agreement with the textbook matrices; (b) every observation of random and default drives:"
        " phase currents sum to zero, abc and dq quantities have the same length, the dq currents are the phase currents seen at the observed"
        " angle, the torque follows from the observed currents, the angle"
        " is wrapped, its increments follow the speed; distinct = motor x transformation / motor x relation")
ASSUMPTIONS = ["a voltage acts during the step: the angle of an observed dq/abc voltage pair may be that of the beginning of its interval (lengths are compared)"]
REQUIRE = {"transform_points": 3000, "observations": 6000, "torque_checks": 4000, "angle_checks": 2000, "default_envs": 30, "revolutions": 20, "angle_pairs": 1500, "views": 600}


def jobs(tier, seed):
    n = 8 if tier == "quick" else 48
    js = [("transforms", dict(seed=[seed, j], n=10)) for j in range(8)]
    js += [("observations", dict(seed=[seed, 100 + j], n=18, steps=60 if tier == "quick" else 250)) for j in range(n)]
    ids = [i for i in S.ENV_IDS]
    js += [("defaults", dict(seed=[seed, 300 + j], ids=ids[j::9], steps=60 if tier == "quick" else 1000)) for j in range(9)]
    return js


def transforms(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = (S.SYNC + S.IND)[int(rng.integers(5))]
        s = S.random_spec(rng, kind=kind)
        sysm, _ = S.mk_system(s)
        for _ in range(60):
            v = rng.normal(size=2) * 10 ** rng.uniform(-2, 3)
            eps = float(rng.choice([rng.uniform(-np.pi, np.pi), rng.uniform(-50, 50), 0.0, np.pi, -np.pi / 2]))
            abc = rng.normal(size=3) * 10 ** rng.uniform(-2, 3)
            nz = float(rng.integers(2))
            normed = bool(rng.integers(2))
            e = eps / np.pi if normed else eps
            res.count("transform_points")
            t = lambda f, x, *a: np.asarray(getattr(sysm, f)(tuple(x) if rng.random() < 0.5 else np.array(x), *a), float)
            at = 1e-10 * (np.max(np.abs(v)) + np.max(np.abs(abc)))

            def cmp(got, want, what):
                res.close(got, want, f"transform:{what}:{kind}", f"{what} of {v} {abc} at {eps} normed={normed}", rtol=1e-9, atol=at, case=(kind, what, normed))

            cmp(t("abc_to_alphabeta_space", abc), R.abc2ab(abc), "abc->alphabeta")
            cmp(t("alphabeta_to_abc_space", v), R.ab2abc(v), "alphabeta->abc")
            cmp(t("abc_to_dq_space", abc, e, normed), R.abc2dq(abc, eps), "abc->dq")
            cmp(t("dq_to_abc_space", v, e, normed), R.dq2abc(v, eps), "dq->abc")
            cmp(t("alphabeta_to_dq_space", v, e, normed), R.ab2dq(v, eps), "alphabeta->dq")
            cmp(t("dq_to_alphabeta_space", v, e, normed), R.dq2ab(v, eps), "dq->alphabeta")
            cmp(t("abc_to_dq_space", t("dq_to_abc_space", v, e, normed), e, normed), v, "dq->abc->dq")
            cmp(t("dq_to_alphabeta_space", t("alphabeta_to_dq_space", v, e, normed), e, normed), v, "alphabeta->dq->alphabeta")
            cmp(t("abc_to_alphabeta_space", t("alphabeta_to_abc_space", v)), v, "alphabeta->abc->alphabeta")
            balanced = abc - np.mean(abc)
            cmp(t("alphabeta_to_abc_space", t("abc_to_alphabeta_space", balanced)), balanced, "abc->alphabeta->abc")
            cmp(t("abc_to_dq_space", abc + nz, e, normed), t("abc_to_dq_space", abc, e, normed), "zero-sequence")
            # the same transformations of the motor itself, by its electrical and by its mechanical angle
            m = sysm.electrical_motor
            p_ = m.motor_parameter["p"]
            u = lambda f, x, *a: np.asarray(f(tuple(x) if rng.random() < 0.5 else np.array(x), *a), float)
            cmp(u(m.t_23, abc), R.abc2ab(abc), "motor:t_23")
            cmp(u(m.t_32, v), R.ab2abc(v), "motor:t_32")
            cmp(u(m.q, v, eps), R.dq2ab(v, eps), "motor:q")
            cmp(u(m.q_inv, v, eps), R.ab2dq(v, eps), "motor:q_inv")
            cmp(u(m.q_me, v, eps / p_), R.dq2ab(v, eps), "motor:q_me")
            cmp(u(m.q_inv_me, v, eps / p_), R.ab2dq(v, eps), "motor:q_inv_me")
        # the angle may be a view of the caller's state array: one array through the whole chain of transformations
        for _ in range(12):
            state = rng.uniform(-1, 1, size=3)
            normed = bool(rng.integers(2))
            e = state[..., 1]
            kept = state.copy()
            v = rng.normal(size=2)
            abc = np.asarray(sysm.dq_to_abc_space(v, e, normed), float)
            dq = np.asarray(sysm.abc_to_dq_space(abc, e, normed), float)
            ab = np.asarray(sysm.dq_to_alphabeta_space(dq, e, normed), float)
            back = np.asarray(sysm.alphabeta_to_dq_space(ab, e, normed), float)
            want = R.dq2abc(v, kept[1] * np.pi if normed else kept[1])
            for got, exp, what in ((abc, want, "dq->abc"), (dq, v, "dq->abc->dq"), (back, v, "dq->abc->dq->alphabeta->dq")):
                res.close(got, exp, f"angle-of-a-state:{what}:{kind}", f"{what} of {v} at the angle {kept[1]} of a state array, normed={normed}", rtol=1e-9, atol=1e-9, case=(kind, what, "view", normed))
            res.check(bool(np.array_equal(state, kept)), f"transform-modifies-the-angle:{kind}", lambda: f"the transformations changed the caller's angle from {kept} to {state} (normed={normed})")
            res.count("views")
    if seed[1] == 0:
        res.sample(dict(kind=kind, v=v, eps=eps, abc=R.dq2abc(v, eps)))


class Judge:
    def __init__(self, res, kind, names, limits, param, tau, tag):
        self.res, self.kind, self.names, self.lim, self.p, self.tau, self.tag = res, kind, names, limits, param, tau, tag
        self.pos = {n: i for i, n in enumerate(names)}
        self.motor = R.MOTORS[kind](param)
        self.prev = None
        self.turn = 0.0

    def __call__(self, state, first=False):
        res, kind = self.res, self.kind
        if not np.all(np.isfinite(state)):
            return
        x = {n: float(state[i] * self.lim[i]) for n, i in self.pos.items()}
        res.count("observations")
        lim = {n: self.lim[i] for n, i in self.pos.items()}

        def near(a, b, scale, what):
            res.check(abs(a - b) <= 1e-9 * (abs(a) + abs(b) + scale), f"observation:{what}:{kind}", lambda: f"{what}: {a} vs {b} in {x} ({self.tag})", case=(kind, what))

        if kind in S.DC:
            cur = {"PermExDc": ["i"], "SeriesDc": ["i"]}.get(kind, ["i_a", "i_e"])
            if all(c in x for c in cur):
                near(x["torque"], self.motor.torque([x[c] for c in cur]), 1e-9, "torque")
                res.count("torque_checks")
            return
        sides = [("", "s")] if kind in S.SYNC else [("s", "s")] + ([("r", "r")] if kind == "DFIM" else [])
        for abc, dq in sides:
            for q in ("i", "u"):
                ph = [f"{q}_{abc}{l}" for l in "abc"]
                d, qq = f"{q}_{dq}d", f"{q}_{dq}q"
                if not all(n in x for n in ph + [d, qq]):
                    continue
                v = [x[n] for n in ph]
                ab = R.abc2ab(v)
                near(np.hypot(*ab), np.hypot(x[d], x[qq]), lim[d], f"length {q}_{dq}")
                if q == "i":
                    near(sum(v), 0.0, lim[d], f"sum i_{abc}abc")
        if kind in S.SYNC and all(n in x for n in ("i_a", "i_b", "i_c", "epsilon")):
            d, q = R.abc2dq([x["i_a"], x["i_b"], x["i_c"]], x["epsilon"])
            scale = lim["i_sd"] + 1e2 * np.hypot(d, q)
            near(d, x["i_sd"], scale, "i_sd of the phase currents")
            near(q, x["i_sq"], scale, "i_sq of the phase currents")
            res.count("angle_pairs")
        if kind in S.IND and "i_sq" in x:
            # torque = 1.5*p*l_m/l_r*|psi_r|*i_sq in the field oriented frame
            res.check(x["torque"] * x["i_sq"] >= -1e-9 * lim["torque"] * lim["i_sq"], f"observation:field-orientation:{kind}",
                      lambda: f"torque {x['torque']} with i_sq {x['i_sq']} ({self.tag})")
        if kind == "DFIM" and all(n in x for n in ("i_sa", "i_ra", "i_sd", "i_rd", "epsilon")):
            z = {s: complex(*R.abc2ab([x[f"i_{s}{l}"] for l in "abc"])) for s in "sr"}
            dq = {s: complex(x[f"i_{s}d"], x[f"i_{s}q"]) for s in "sr"}
            # z_s = dq_s*exp(j*field), z_r = dq_r*exp(j*(field-epsilon))
            a, b = z["s"] * np.conj(dq["s"]) * np.conj(z["r"]) * dq["r"], abs(z["s"] * z["r"]) ** 2 * np.exp(1j * x["epsilon"])
            m = abs(z["s"] * z["r"])
            if m > 0:
                near(abs(a - b) / m, 0.0, 10 * (abs(z["s"]) + lim["i_sd"]) * (abs(z["r"]) + lim["i_rd"]), "angle between the stator and the rotor frame")
            res.count("angle_pairs")
        if kind in S.SYNC:
            m = [x["i_sd"], x["i_sq"]] + ([x["i_e"]] if kind == "EESM" else []) + [0.0]
            near(x["torque"], self.motor.torque(m), lim["torque"], "torque")
            res.count("torque_checks")
        if "epsilon" in x:
            res.check(-np.pi - 1e-9 <= x["epsilon"] <= np.pi + 1e-9, f"observation:angle-wrap:{kind}", f"epsilon {x['epsilon']}")
            if self.prev is not None and not first:
                p = self.p["p"]
                d = (x["epsilon"] - self.prev["epsilon"] + np.pi) % (2 * np.pi) - np.pi
                lo, hi = sorted((self.prev["omega"], x["omega"]))
                slack = 0.02 * (abs(lo) + abs(hi)) + abs(hi - lo) + 1e-2  # the speed within the step need not lie between its ends
                if max(abs(lo), abs(hi)) * p * self.tau < 2.5:
                    res.count("angle_checks")
                    res.check(p * self.tau * (lo - slack) <= d <= p * self.tau * (hi + slack) + 1e-9, f"observation:angle-increment:{kind}",
                              lambda: f"angle advanced by {d} in {self.tau} s at speeds {lo}..{hi} p={p} ({self.tag})", case=(kind, "angle"))
                    self.turn += abs(d)
                    if self.turn > 2 * np.pi:
                        self.turn = 0.0
                        res.count("revolutions")
        self.prev = x


def observations(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = S.random_spec(rng, kind=S.KINDS[c % 9], til_prob=0.3)
        if s["cont"]:
            s["til"] = [0.0 if cv == "4QC" else t for cv, t in zip(s["conv"], s["til"])]
        sv = [dict(kind="euler", n=1), dict(kind="euler", n=5), dict(kind="ode"), dict(kind="ivp", method="Radau"), dict(kind="odeint")][int(rng.integers(5))]
        s["solver"] = sv
        sysm, sol = S.mk_system(s)
        j = Judge(res, s["kind"], list(sysm.state_names), sysm.limits, s["param"], s["tau"], str(s))
        act = S.Actions(sysm.action_space, rng)
        for ep in range(2):
            j.prev = None
            j(sysm.reset(), first=True)
            for _ in range(steps):
                o = sysm.simulate(act())
                if not np.all(np.isfinite(o)) or np.max(np.abs(o)) > 1e4:
                    break
                j(o)
        if c == 0:
            res.sample(dict(kind=s["kind"], obs=o, names=sysm.state_names))


def defaults(res, seed, ids, steps):
    import gym_electric_motor as gem

    rng = np.random.default_rng(seed)
    for i in ids:
        kind = i.split("-")[2]
        env = gem.make(i, visualization=()).unwrapped
        u = env.physical_system.unwrapped
        j = Judge(res, kind, list(env.state_names), env.limits, dict(u.electrical_motor.motor_parameter), env.physical_system.tau, i)
        act = S.Actions(env.action_space, rng)
        j(env.reset(seed=int(rng.integers(2**31)))[0][0], first=True)
        for _ in range(steps):
            o = env.step(act())
            j(o[0][0])
            if o[2]:
                j.prev = None
                j(env.reset()[0][0], first=True)
        res.count("default_envs")
