"""C13: energy is conserved: supplied electrical power = losses + mechanical power + change of the magnetic energy."""
import numpy as np

from .. import refsim as R
from .. import systems as S

PROPERTY = "C13"
RULE = ("(a) instantaneous power balance of every motor model at random states, voltages, speeds and parameters; (b) simulated"
        " trajectories with short-circuited terminals and a passive load: total energy never increases and decays; (c) energy balance over simulated"
        " steps of whole drives driven by random actions; distinct = motor x relation x load")
ASSUMPTIONS = ["magnetically passive parameter sets only (the documented default EESM is not: l_d l_E < l_M^2)",
               "trajectories use accurate solvers: an explicit Euler discretisation does not conserve energy"]
REQUIRE = {"balance_points": 3000, "passive_steps": 2500, "balance_steps": 2500, "kinds": 9, "decayed": 40}


def jobs(tier, seed):
    n = 8 if tier == "quick" else 64
    return ([("balance", dict(seed=[seed, j], n=27, points=20)) for j in range(n)]
            + [("passive", dict(seed=[seed, 100 + j], n=9, steps=60 if tier == "quick" else 300)) for j in range(n)]
            + [("driven", dict(seed=[seed, 200 + j], n=9, steps=60 if tier == "quick" else 200)) for j in range(n)])


def energy(kind, p, x):
    """Magnetic energy and copper losses of the electrical state (independent of the code under test)."""
    m = R.MOTORS[kind](p)
    if kind in S.IND:
        ls, lr, lm = p["l_m"] + p["l_sigs"], p["l_m"] + p["l_sigr"], p["l_m"]
        ir = m.i_r(x)
        is_ = np.asarray(x[:2])
        return 0.75 * (ls * is_ @ is_ + lr * ir @ ir + 2 * lm * is_ @ ir), m.losses(x)
    if kind == "EESM":
        q = m._q()
        ie = q["f"] * x[2]
        e = 0.75 * (p["l_d"] * x[0] ** 2 + p["l_q"] * x[1] ** 2 + q["lE"] * ie**2 + 2 * q["lM"] * x[0] * ie)
        return e, 1.5 * p["r_s"] * (x[0] ** 2 + x[1] ** 2) + p["r_e"] * x[2] ** 2
    return m.stored(x), m.losses(x)


def power_in(kind, p, x, u):
    if kind in S.IND:
        ir = R.MOTORS[kind](p).i_r(x)
        us, ur = (u, (0.0, 0.0)) if kind == "SCIM" else u
        return 1.5 * (us[0] * x[0] + us[1] * x[1] + ur[0] * ir[0] + ur[1] * ir[1])
    if kind in S.SYNC:
        return 1.5 * (u[0] * x[0] + u[1] * x[1]) + (u[2] * x[2] if kind == "EESM" else 0.0)
    if kind == "ExtExDc":
        return u[0] * x[0] + u[1] * x[1]
    if kind == "ShuntDc":
        return u[0] * (x[0] + x[1])
    return u[0] * x[0]


def points(rng, kind, s):
    inom, u = S.I_NOM[kind], s["supply"]["u"]
    nm = len(R.MOTORS[kind].states)
    sc = np.full(nm, inom)
    if kind in S.SYNC + S.IND:
        sc[-1] = 3.0
    if kind in S.IND:
        sc[2:4] = 1.0
    x = rng.uniform(-1, 1, nm) * sc
    nu = {"ExtExDc": 2, "EESM": 3, "DFIM": 4}.get(kind, 1 if kind in S.DC else 2)
    v = rng.uniform(-1, 1, nu) * u
    if kind == "DFIM":
        v = v.reshape(2, 2)
    return x, v, float(rng.uniform(-1, 1) * S.W_NOM[kind])


def balance(res, seed, n, points_=None, **kw):
    rng = np.random.default_rng(seed)
    n_points = kw.get("points", 20)
    seen = set()
    for c in range(n):
        kind = S.KINDS[c % 9]
        seen.add(kind)
        s = S.random_spec(rng, kind=kind, til_prob=0)
        motor = S.mk_motor(s)
        p = s["param"]
        for _ in range(n_points):
            x, u, w = points(rng, kind, s)
            dx = np.array(motor.electrical_ode(np.array(x), u if kind in S.IND else list(u), w), float).ravel()
            T = float(motor.torque(np.array(x)))
            # gradient of the (quadratic) energy along the derivative: exact by a symmetric difference
            h = 1e-3 / (np.max(np.abs(dx)) + 1)
            de = (energy(kind, p, x + h * dx)[0] - energy(kind, p, x - h * dx)[0]) / (2 * h)
            loss = energy(kind, p, x)[1]
            pin = power_in(kind, p, x, u)
            mech = T * w
            tot = abs(pin) + loss + abs(mech) + abs(de) + 1e-9
            h_err = 1e-9 * energy(kind, p, x)[0] / h * 1e-3
            res.count("balance_points")
            res.check(abs(pin - loss - mech - de) <= 1e-6 * tot + h_err, f"power-balance:{kind}",
                      lambda: f"input {pin} != losses {loss} + mechanical {mech} + stored {de} at {x} u {u} w {w} {p}", case=(kind, "balance", c))
            res.check(mech == 0 or abs(T) < 1e9, f"torque-finite:{kind}", f"{T}")
    res.count("kinds", len(seen))


SOLVERS = [dict(kind="ivp", method="RK45", rtol=1e-9, atol=1e-9), dict(kind="ode", integrator="dop853", rtol=1e-9, atol=1e-9, nsteps=5000), dict(kind="euler", n=400)]


def total(kind, p, y, J):
    return energy(kind, p, y[1:])[0] + 0.5 * J * y[0] ** 2


def passive(res, seed, n, steps):
    """Terminals shorted by the converter (zero voltage), passive load: the total energy decays."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[c % 9]
        s = S.random_spec(rng, kind=kind, cont=True, loads=("poly",), supplies=("ideal",), til_prob=0)
        s["conv"] = ["B6" if cv == "B6" else "4QC" for cv in s["conv"]]
        s["init"] = S.random_spec(np.random.default_rng([*seed, c]), kind=kind)["init"]
        s["load"]["a"] = 0.0
        s["tau"] = 1e-4
        s["solver"] = dict(SOLVERS[int(rng.integers(2))])
        sysm, sol = S.mk_system(s)
        J = s["load"]["j"] + s["param"]["j_rotor"]
        res.check(abs(sysm.mechanical_load.j_total - J) <= 1e-12 + 1e-9 * J, "total-inertia", f"{sysm.mechanical_load.j_total} expected {J}")
        sysm.reset()
        zero = np.zeros(sysm.action_space.shape)
        e0 = e = total(kind, s["param"], np.array(sol.y, float), J)
        for k in range(steps):
            sysm.simulate(zero)
            y = np.array(sol.y, float)
            e2 = total(kind, s["param"], y, J)
            res.count("passive_steps")
            res.check(e2 <= e * (1 + 1e-7) + 1e-9, f"energy-created:{kind}", lambda: f"step {k}: total energy {e} -> {e2} without input, state {y} spec {s}", case=(kind, "passive", c))
            e = e2
        res.count("decayed", int(e < e0))
        res.check(e < e0 or e0 < 1e-12, f"no-dissipation:{kind}", lambda: f"energy {e0} -> {e} over {steps} steps, spec {s}")
        if c == 0:
            res.sample(dict(kind=kind, e0=e0, e=e))


def driven(res, seed, n, steps):
    """Whole drives under random actions: the change of the total energy over a step lies between the bounds given by the terminal
    power, the losses and the friction, integrated along the simulated trajectory with many small steps."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[c % 9]
        s = S.random_spec(rng, kind=kind, cont=bool(rng.integers(2)), loads=("poly",), supplies=("ideal",), til_prob=0)
        s["load"]["a"] = 0.0
        s["tau"] = 1e-5
        s["solver"] = dict(SOLVERS[int(rng.integers(2))])
        sysm, sol = S.mk_system(s)
        p = s["param"]
        J = s["load"]["j"] + p["j_rotor"]
        names = list(sysm.state_names)
        pos = {nm: i for i, nm in enumerate(names)}
        act = S.Actions(sysm.action_space, rng)
        sysm.reset()
        for k in range(steps):
            y0 = np.array(sol.y, float)
            obs = np.asarray(sysm.simulate(act())) * sysm.limits
            y1 = np.array(sol.y, float)
            if not np.all(np.isfinite(y1)) or np.max(np.abs(y1)) > 1e5:
                break
            # terminal voltages as observed; stator-fixed quantities are constant within the step
            if kind in S.SYNC:
                ua = R.abc2ab([obs[pos[q]] for q in ("u_a", "u_b", "u_c")])
                pw = lambda y: 1.5 * float(ua @ R.dq2ab(y[1:3], y[-1])) + (obs[pos["u_e"]] * y[3] if kind == "EESM" else 0.0)
                # the simulation keeps the rotor-fixed voltage constant within the step
                ud = R.ab2dq(ua, y0[-1])
                pw = lambda y: 1.5 * float(ud @ y[1:3]) + (obs[pos["u_e"]] * y[3] if kind == "EESM" else 0.0)
            elif kind in S.IND:
                ua = R.abc2ab([obs[pos[q]] for q in ("u_sa", "u_sb", "u_sc")])
                ur = np.zeros(2)
                if kind == "DFIM":
                    ur = R.dq2ab(R.abc2ab([obs[pos[q]] for q in ("u_ra", "u_rb", "u_rc")]), y0[-1])
                m = R.MOTORS[kind](p)
                pw = lambda y: 1.5 * float(ua @ y[1:3] + ur @ m.i_r(y[1:]))
            elif kind == "ExtExDc":
                pw = lambda y: obs[pos["u_a"]] * y[1] + obs[pos["u_e"]] * y[2]
            elif kind == "ShuntDc":
                pw = lambda y: obs[pos["u"]] * (y[1] + y[2])
            else:
                pw = lambda y: obs[pos["u"]] * y[1]

            def terms(y):
                b, cc = s["load"]["b"], s["load"]["c"]
                return np.array([pw(y), -energy(kind, p, y[1:])[1], -(b * y[0] ** 2 + cc * abs(y[0]) ** 3)])

            # Hermite-Simpson along the chord needs the midpoint: bound the quadrature error by the variation instead
            r0, r1, rm = terms(y0), terms(y1), terms(0.5 * (y0 + y1))
            want = s["tau"] * float(np.sum(r0 + 4 * rm + r1)) / 6
            got = total(kind, p, y1, J) - total(kind, p, y0, J)
            var = float(np.sum(np.maximum(np.maximum(abs(r0 - rm), abs(r1 - rm)), abs(r1 - r0))))
            tol = s["tau"] * (0.35 * var + 1e-4 * (abs(pw(y0)) + abs(pw(y1)))) + 1e-7 * (total(kind, p, y0, J) + total(kind, p, y1, J)) * 1e-2 + 1e-12
            res.count("balance_steps")
            res.check(abs(got - want) <= tol, f"energy-balance:{kind}", lambda: f"step {k}: energy changed by {got}, supplied {want} (tolerance {tol}) {y0} -> {y1} obs {obs} spec {s}", case=(kind, "driven", c))
