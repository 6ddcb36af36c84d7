"""C10: the analytic Jacobians are the derivatives of the simulated equations."""
import numpy as np

from .. import systems as S

PROPERTY = "C10"
RULE = ("at random states, inputs, speeds and parameters: motor Jacobian (three blocks), load Jacobian and the Jacobian that the physical"
        " system hands to the solver, each against central differences of the functions actually simulated; the pair (equation, Jacobian)"
        " is captured by a user-defined solver; distinct = motor x load x block")
ASSUMPTIONS = ["kinks of the static friction curve and the exact standstill point are excluded"]
REQUIRE = {"motor_points": 2000, "load_points": 800, "system_points": 1500, "kinds": 9, "no_jacobian": 20}


def jobs(tier, seed):
    n, m = (8, 30) if tier == "quick" else (64, 90)
    return [("jacobians", dict(seed=[seed, j], n=m, points=14 if tier == "quick" else 40)) for j in range(n)]


def fd(f, x, scale):
    """Central differences (two step sizes, Richardson) of a vector function."""
    x = np.asarray(x, dtype=float)
    cols = []
    for j in range(len(x)):
        h = scale[j]

        def d(h):
            a, b = x.copy(), x.copy()
            a[j] += h
            b[j] -= h
            return (np.asarray(f(a), float) - np.asarray(f(b), float)) / (2 * h)

        cols.append((4 * d(h / 2) - d(h)) / 3)
    return np.array(cols).T


def close(res, got, want, size, key, what, case):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ok = got.shape == want.shape and bool(np.all(np.abs(got - want) <= 1e-6 * np.abs(want) + 1e-7 * size))
    res.check(ok, key, lambda: f"{what}: Jacobian {got.tolist()} differences {want.tolist()}", case=case)


def jacobians(res, seed, n, points):
    from gym_electric_motor.physical_systems import OdeSolver

    rng = np.random.default_rng(seed)
    seen = set()

    class Capture(OdeSolver):
        def set_system_equation(self, system_equation, jac=None):
            super().set_system_equation(system_equation, jac)
            self.eq, self.jac = system_equation, jac

        def integrate(self, t):
            self._t = t
            return self._y

    for c in range(n):
        kind = S.KINDS[c % len(S.KINDS)]
        s = S.random_spec(rng, kind=kind, loads=("const", "poly"), til_prob=0.0)
        s["load"]["w"] = 0.0 if s["load"]["kind"] == "poly" else s["load"]["w"]
        seen.add(kind)
        import gym_electric_motor.physical_systems as ps

        cap = Capture()
        motor, load = S.mk_motor(s), S.mk_load(s)
        kw = dict(converter=S.mk_conv(s), motor=motor, load=load, supply=S.mk_supply(s), ode_solver=cap, tau=s["tau"])
        if c % 10 == 9:
            kw["calc_jacobian"] = False
        sysm = getattr(ps, S.SYSTEM_CLASS[kind])(**kw)
        if c % 10 == 9:
            res.count("no_jacobian")
            res.check(cap.jac is None, "calc_jacobian-ignored", "calc_jacobian=False, but a Jacobian was passed to the solver")
        else:
            res.check(cap.jac is not None, f"no-system-jacobian:{kind}", "motor and load provide Jacobians, but the solver gets none")
        inom, u = S.I_NOM[kind], s["supply"]["u"]
        nm = len(motor.CURRENTS) if kind in S.DC else len(S.R.MOTORS[kind].states)
        psi = 1.0
        sc = np.full(nm, inom)
        if kind in S.SYNC:
            sc[-1] = 3.0
        if kind in S.IND:
            sc[2:4] = psi
            sc[-1] = 3.0
        nu = {"ExtExDc": 2, "EESM": 3, "DFIM": 4}.get(kind, 1 if kind in S.DC else 2)
        for _ in range(points):
            x = rng.uniform(-1, 1, nm) * sc
            w = float(rng.uniform(-1, 1) * S.W_NOM[kind])
            uin = rng.uniform(-1, 1, nu) * u
            if kind == "DFIM":
                uin = uin.reshape(2, 2)
            ui = uin if kind in S.IND else list(uin)

            def el(x, w=w):
                return np.array(motor.electrical_ode(np.array(x, float), ui, w), float)

            size = np.max(np.abs(el(x))) / np.min(sc) + 1
            J, Jw, Jt = (np.asarray(v, float) for v in motor.electrical_jacobian(x.copy(), ui, w))
            res.count("motor_points")
            rows = np.max(np.abs(np.concatenate((J, Jw.reshape(-1, 1)), axis=1)), axis=1, keepdims=True) + 1e-9
            close(res, J, fd(el, x, 0.05 * sc), np.maximum(rows, size * 1e-3), f"motor:{kind}:states", f"d ode/d states at {x} u {uin} w {w} {s['param']}", (kind, "el"))
            close(res, Jw.ravel(), fd(lambda v: el(x, v[0]), [w], [5.0])[:, 0], np.maximum(rows[:, 0], 1e-3), f"motor:{kind}:omega", f"d ode/d omega at {x} w {w} {s['param']}", (kind, "w"))
            tw = fd(lambda v: [motor.torque(np.array(v, float))], x, 0.05 * sc)[0]
            close(res, Jt.ravel(), tw, np.max(np.abs(tw)) + 1e-9, f"motor:{kind}:torque", f"d torque/d states at {x} {s['param']}", (kind, "T"))
            if s["load"]["kind"] == "poly":
                lim = s["load"]["a"] / (s["load"]["j"] + s["param"]["j_rotor"]) * 1e-3
                wl = float(rng.choice([w, rng.uniform(-1, 1) * lim * 0.9 if lim else w, rng.choice([-1, 1]) * lim * 10 ** rng.uniform(0.05, 2) if lim else w]))
                h = min(1e-3 * abs(wl), 1e-2 * lim if lim else np.inf)
                if h == 0 or abs(abs(wl) - lim) < 4 * h or abs(wl) < 4 * h:
                    continue
            else:
                wl, h = w, 1.0
            T = float(rng.uniform(-50, 50))
            L, LT = load.mechanical_jacobian(0.1, np.array([wl]), T)
            want = fd(lambda v: load.mechanical_ode(0.1, np.array(v, float), T), [wl], [h])
            res.count("load_points")
            # cancellation: the torque terms are much larger than the friction slope
            noise = 1e-12 * (abs(T) + 10) / (s["param"]["j_rotor"] * h) if s["load"]["kind"] == "poly" else 0
            close(res, L, want, (np.abs(want) + 1e-9 + 1e7 * noise), f"load:{s['load']['kind']}:omega", f"load Jacobian at w {wl} {s['load']}", ("load", s["load"]["kind"]))
            wt = fd(lambda v: load.mechanical_ode(0.1, np.array([wl]), v[0]), [T], [1.0])
            close(res, np.ravel(LT), np.ravel(wt), np.abs(np.ravel(wt)) + 1e-9, f"load:{s['load']['kind']}:torque", f"load Jacobian at w {wl} {s['load']}", ("load", "T"))
            if cap.jac is None:
                continue
            full = np.concatenate(([wl], x))
            fsc = np.concatenate(([h / 0.05], sc)) * 0.05
            if s["load"]["kind"] == "const":
                fsc[0] = 5.0
            Jf = np.array(cap.jac(0.1, full.copy(), ui), float)
            want = fd(lambda v: np.array(cap.eq(0.1, np.array(v, float), ui), float), full, fsc)
            res.count("system_points")
            rows = np.max(np.abs(want), axis=1, keepdims=True) + 1e-9
            noise = np.array([1e-13 * np.max(np.abs(cap.eq(0.1, full, ui))) / v for v in fsc])[None, :]
            close(res, Jf, want, rows * 10 + 1e7 * noise, f"system:{kind}:{s['load']['kind']}", f"system Jacobian at {full} u {uin} spec {s}", (kind, "system", s["load"]["kind"]))
        if c == 0:
            res.sample(dict(kind=kind, x=x, jac=J))
    res.count("kinds", len(seen))
