"""C11: all solver families simulate the same drive."""
import numpy as np

from .. import refsim as R
from .. import systems as S

PROPERTY = "C11"
RULE = ("random drives stepped with every solver family (with and without Jacobian): each step's ODE state against an independent"
        " high-resolution integration of the documented equations from the same state, with a tolerance fitting to the solver's"
        " settings; the Euler solver has to converge with its number of substeps; solver objects alone on time-varying linear systems with"
        " jumping inputs, uneven intervals and restarts; distinct = motor x solver x Jacobian x load")
ASSUMPTIONS = ["loads whose derivative is defined per Euler step (external speed, Ornstein-Uhlenbeck) are excluded",
               "steps crossing the kink of the static friction are excluded for the tight tolerances"]
REQUIRE = {"steps": 4000, "solvers": 100, "jacobian_on": 500, "jacobian_off": 300, "euler_convergence": 150, "contract": 2000}

TIGHT = dict(rtol=1e-8, atol=1e-8)
SOLVERS = [
    (dict(kind="ode", integrator="dopri5", nsteps=10000, **TIGHT), 2e-6), (dict(kind="ode", integrator="dop853", nsteps=10000, **TIGHT), 2e-6),
    (dict(kind="ode", integrator="vode", nsteps=10000, **TIGHT), 2e-5), (dict(kind="ode", integrator="vode", method="bdf", nsteps=10000, **TIGHT), 2e-5),
    (dict(kind="ode", integrator="lsoda", nsteps=10000, **TIGHT), 2e-5), (dict(kind="ode"), 5e-3),
    (dict(kind="ivp", method="RK45", **TIGHT), 2e-6), (dict(kind="ivp", method="RK23", **TIGHT), 2e-6), (dict(kind="ivp", method="DOP853", **TIGHT), 2e-6),
    (dict(kind="ivp", method="Radau", **TIGHT), 2e-5), (dict(kind="ivp", method="BDF", **TIGHT), 2e-5), (dict(kind="ivp", method="LSODA", **TIGHT), 2e-5),
    (dict(kind="ivp"), 2e-2), (dict(kind="odeint", mxstep=10000, **TIGHT), 2e-5), (dict(kind="odeint"), 1e-3),
]


def jobs(tier, seed):
    n, m, st = (32, 14, 18) if tier == "quick" else (160, 45, 60)
    return [("agreement", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)] + [
        ("euler", dict(seed=[seed, 500 + j], n=24 if tier == "quick" else 80)) for j in range(8)] + [
        ("contract", dict(seed=[seed, 600 + j], n=24 if tier == "quick" else 300)) for j in range(8)]


def integ(f, x, t0, t1):
    return R.rk4(f, x, t0, t1, 60)


def spec(rng):
    s = S.random_spec(rng, loads=("const", "poly"), supplies=("ideal", "ac1"), til_prob=0.3)
    if s["cont"]:
        s["til"] = [0.0 if cv == "4QC" else t for cv, t in zip(s["conv"], s["til"])]
    if s["load"]["kind"] == "poly":
        s["load"]["a"] = 0.0
        s["load"]["j"] = float(max(s["load"]["j"], 0.02 * s["param"]["j_rotor"]))
    return s


def near_switch(s, x, tw):
    """Sign of a current that decides a converter voltage is about to be decided by rounding."""
    m = x[1:]
    k = s["kind"]
    if k in S.SYNC:
        i = list(R.dq2abc(m[:2], m[-1])) + ([m[2]] if k == "EESM" else [])
    elif k in S.IND:
        i = list(R.ab2abc(m[:2])) + (list(R.ab2abc(R.ab2dq(tw.motor.i_r(m), m[4]))) if k == "DFIM" else [])
    else:
        i = tw.motor.i_in(m)
    return np.min(np.abs(i)) < 1e-3 * S.I_NOM[k]


def deviation(y, y2, x, kind):
    mag = np.abs(x) + np.abs(y2)
    mag[0] += 1.0
    mag[1:] += 0.05 * S.I_NOM[kind]
    if kind in S.IND:
        mag[3:5] = np.abs(x[3:5]) + np.abs(y2[3:5]) + 0.1
    if kind in S.SYNC + S.IND:
        mag[-1] = np.abs(x[-1]) + 1
    return np.abs(y - y2) / mag


def agreement(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = spec(rng)
        sv, tol = SOLVERS[int(rng.integers(len(SOLVERS)))] if c >= 4 else SOLVERS[(c * 7 + int(seed[1])) % len(SOLVERS)]
        s["solver"] = dict(sv)
        s["jac"] = bool(rng.random() < 0.6)
        name = sv["kind"] + "-" + str(sv.get("integrator") or sv.get("method") or "default") + ("-bdf" if sv.get("method") == "bdf" else "")
        sysm, sol = S.mk_system(s)
        tw = S.mk_twin(s, integ)
        act = S.Actions(sysm.action_space, rng)
        sysm.reset(), tw.reset()
        res.count("solvers")
        for k in range(steps):
            x = np.array(sol.y, float)
            a = act()
            multi = max(s["til"]) > 0
            sysm.simulate(a)
            y = np.array(sol.y, float)
            y2, _, _ = tw.step(x, a)
            res.case()
            if not np.all(np.isfinite(y2)) or np.max(np.abs(y2)) > 1e5:
                break
            if near_switch(s, x, tw) or (multi and (near_switch(s, y2, tw) or near_switch(s, y, tw))):
                continue
            if s["load"]["kind"] == "poly" and (x[0] * y2[0] <= 0):
                continue
            d = deviation(y, y2, x, s["kind"])
            j = int(np.argmax(d))
            res.count("steps")
            res.count("jacobian_on" if s["jac"] else "jacobian_off")
            res.check(d[j] <= tol, f"solver:{name}:{s['kind']}", lambda: f"step {k}: {y.tolist()} expected {y2.tolist()} (deviation {d[j]:.2e}) from {x.tolist()} action {a} spec {s}",
                      case=(name, s["kind"], s["jac"], s["load"]["kind"]))
        if c == 0:
            res.sample(dict(solver=sv, kind=s["kind"], y=y, twin=y2))


def euler(res, seed, n):
    """Error of the Euler solver over one step shrinks with the number of substeps (first order)."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = spec(rng)
        s["til"] = [0.0] * len(s["til"])
        s["tau"] = 5e-5
        seqs = []
        for nn in (1, 4, 16, 64, 256):
            r = np.random.default_rng([*seed, c, 1])
            s["solver"] = dict(kind="euler", n=nn)
            sysm, sol = S.mk_system(s)
            act = S.Actions(sysm.action_space, r)
            sysm.reset()
            tw = S.mk_twin(s, integ)
            tw.reset()
            x = np.array(sol.y, float)
            a = act()
            sysm.simulate(a)
            y2, _, _ = tw.step(x, a)
            seqs.append(float(np.max(deviation(np.array(sol.y, float), y2, x, s["kind"]))))
        res.count("euler_convergence")
        amb = near_switch(s, x, tw)
        if amb or not np.all(np.isfinite(seqs)):
            continue
        ok = all(b <= max(0.5 * a, 1e-9) for a, b in zip(seqs, seqs[1:])) if seqs[0] < 0.3 else seqs[-1] <= max(0.2 * seqs[0], 1e-9)
        res.check(ok, f"euler-does-not-converge:{s['kind']}", lambda: f"errors for 1, 4, 16, 64, 256 substeps: {seqs} spec {s}", case=("euler", s["kind"]))


def contract(res, seed, n):
    """A solver object alone: y' = M y + B u + c cos(w t + p) with inputs that jump between the calls."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        d = int(rng.integers(1, 5))
        M = rng.normal(size=(d, d)) * 2 - 3 * np.eye(d)
        B = rng.normal(size=(d, 2))
        C, w, ph = rng.normal(size=d) * 5, float(rng.uniform(1, 20)), float(rng.uniform(0, 6))
        f = lambda t, y, u, *_: M @ np.asarray(y, float) + B @ np.asarray(u, float) + C * np.cos(w * t + ph)
        euler = rng.random() < 0.35
        if euler:
            nn = int(rng.choice([1, 2, 3, 10, 57]))
            desc, tol = dict(kind="euler", n=nn), 1e-10
        else:
            desc, tol = SOLVERS[int(rng.integers(len(SOLVERS)))]
        sol = S.mk_solver(dict(solver=desc))
        jac = (lambda t, y, u, *_: M) if rng.random() < 0.5 else None
        if desc.get("method") in ("Radau", "BDF") or rng.random() < 0.7:
            sol.set_system_equation(f, jac)
        else:
            sol.set_system_equation(f)
        for e in range(2):
            t, y = float(rng.choice([0.0, rng.uniform(0, 3)])), rng.normal(size=d) * 3
            sol.set_initial_value(y.copy(), t)
            res.check(abs(sol.t - t) < 1e-12 and np.allclose(sol.y, y, rtol=0, atol=1e-12), "contract:initial", lambda: f"{desc}: starts at t={sol.t} y={sol.y} instead of {t} {y}")
            for k in range(8):
                u = rng.normal(size=2) * 10
                t2 = t + float(rng.uniform(0.002, 0.08))
                sol.set_f_params(list(u))
                out = np.array(sol.integrate(t2), float)
                if euler:
                    h, want = (t2 - t) / nn, y.copy()
                    for q in range(nn):
                        want = want + h * f(t + q * h, want, u)
                else:
                    want = R.rk4(lambda tt, x: f(tt, x, u), y, t, t2, 60)
                scale = np.max(np.abs(want)) + np.max(np.abs(y)) + 1
                res.count("contract")
                res.check(np.max(np.abs(out - want)) <= tol * scale, f"contract:{desc['kind']}", lambda: f"{desc} jac={jac is not None}: from t={t} y={y} to t={t2}: {out} expected {want}",
                          case=("contract", desc["kind"], desc.get("integrator"), desc.get("method"), jac is not None, desc.get("n")))
                res.check(abs(sol.t - t2) < 1e-12 and np.array_equal(np.asarray(sol.y), out), "contract:time", lambda: f"{desc}: t={sol.t} y={sol.y} after integrate({t2}) -> {out}")
                t, y = t2, out
