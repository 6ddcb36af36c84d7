"""C18: mechanical loads follow their documented torque-speed laws."""
import math

import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C18"
RULE = ("(a) random loads at random speeds and torques against an independent model of the documented laws: torque curve, odd symmetry, passivity,"
        " continuity at standstill, inertia; (b) coast-down and spin-up trajectories: never through standstill, final speed balances the torque;"
        " (c) whole drives: the observed speed increments follow from the observed torque and speed, fixed and external speeds are met exactly;"
        " (d) the Ornstein-Uhlenbeck speed: increments are tested against the process law, bounds; distinct = load x coefficient pattern x regime")
ASSUMPTIONS = ["the load object is used by one drive only", "external speed profiles are met exactly with the plain Euler solver (documented as Euler step)"]
REQUIRE = {"points": 4000, "coast_steps": 10000, "balanced": 60, "drive_steps": 2500, "external": 400, "constant": 400, "ou_steps": 8000, "standstill": 500, "ou_clipped": 20, "ou_inside": 5000, "without_load_inertia": 20}
TAU_DECAY = 1e-3


def jobs(tier, seed):
    n = 8 if tier == "quick" else 48
    st = 60 if tier == "quick" else 250
    return ([("points", dict(seed=[seed, j], n=60, pts=20)) for j in range(n)] + [("coast", dict(seed=[seed, 100 + j], n=16)) for j in range(n)]
            + [("drives", dict(seed=[seed, 200 + j], n=18, steps=st)) for j in range(n)] + [("ou", dict(seed=[seed, 300 + j], n=6, steps=1500)) for j in range(n)])


def params(rng):
    z = lambda p, v: float(v) if rng.random() < p else 0.0
    return dict(a=z(0.7, 10 ** rng.uniform(-3, 1)), b=z(0.7, 10 ** rng.uniform(-4, 0)), c=z(0.7, 10 ** rng.uniform(-6, -2)), j_load=z(0.88, 10 ** rng.uniform(-5, -1)))


def torque(p, J, w):
    """documented load torque; the constant part is replaced by a linear one below a small speed"""
    lim = p["a"] * TAU_DECAY / J
    sg = float(np.sign(w))
    fr = sg * p["a"] if abs(w) > lim else J / TAU_DECAY * w
    return sg * p["c"] * w * w + p["b"] * w + fr


def mk(p, jr, **kw):
    from gym_electric_motor import physical_systems as ps

    load = ps.PolynomialStaticLoad(load_parameter=dict(p), **kw)
    load.set_j_rotor(jr)
    return load


def points(res, seed, n, pts):
    rng = np.random.default_rng(seed)
    for c in range(n):
        p, jr = params(rng), float(10 ** rng.uniform(-5, -1))
        res.count("without_load_inertia", not p["j_load"])
        sub = [q for q in p if rng.random() < 0.8]  # parameters that are not named keep their defaults
        full = dict(a=0.0, b=0.0, c=0.0, j_load=1e-5)
        full.update({q: p[q] for q in sub})
        given = {q: p[q] for q in sub}
        load = mk(given, jr)
        res.check(given == {q: p[q] for q in sub}, "argument", lambda: f"{given}")
        p = full
        J = p["j_load"] + jr
        res.check(abs(load.j_total - J) <= 1e-12 * J, "inertia", lambda: f"{load.j_total} expected {J}")
        res.check(dict(load.load_parameter) == p, "parameters", lambda: f"{load.load_parameter} expected {p}")
        pat = tuple(p[q] > 0 for q in "abc")
        lim = p["a"] * TAU_DECAY / J
        for _ in range(pts):
            m = rng.random()
            w = 0.0 if m < 0.1 else float(rng.uniform(-1, 1) * (lim or 1.0)) if m < 0.4 else float(rng.choice([-1, 1]) * 10 ** rng.uniform(-3, 3))
            T = float(rng.uniform(-1, 1) * 10 ** rng.uniform(-2, 2))
            got = np.asarray(load.mechanical_ode(float(rng.uniform(0, 5)), np.array([w]), T), float)
            tl = torque(p, J, w)
            want = (T - tl) / J
            tol = 1e-9 * (abs(T) + abs(tl)) / J + 1e-12
            near = abs(abs(w) - lim) < 1e-9 * lim
            res.check(got.shape == (1,) and (near or abs(got[0] - want) <= tol), "law", lambda: f"{p} J {J} w {w} T {T}: {got} expected {want}", case=(pat, np.sign(w), abs(w) <= lim))
            t0 = J * float(load.mechanical_ode(0.0, np.array([w]), 0.0)[0])
            t1 = J * float(load.mechanical_ode(0.0, np.array([-w]), 0.0)[0])
            res.check(abs(t0 + t1) <= 1e-9 * (abs(t0) + abs(t1)) + 1e-12, "symmetry", lambda: f"{p} w {w}: {t0} and {t1}")
            res.check(t0 * w <= 0 and (w != 0 or t0 == 0), "passive", lambda: f"{p} w {w}: a free load is accelerated by {t0} Nm", case=(pat, "passive"))
            res.count("points")
            if m < 0.1:
                res.count("standstill")
        # continuity: the curve has no jump at standstill nor at the end of the linear part
        ws = np.concatenate((np.linspace(-2, 2, 81) * (lim or 1e-3), [0.0]))
        ws.sort()
        tq = np.array([-J * float(load.mechanical_ode(0.0, np.array([w]), 0.0)[0]) for w in ws])
        slope = J / TAU_DECAY + p["b"] + 2 * p["c"] * np.max(np.abs(ws)) + 1e-12
        res.check(np.all(np.abs(np.diff(tq)) <= 1.01 * slope * np.diff(ws) + 1e-12), "continuity", lambda: f"{p} J {J}: torque curve jumps: {list(zip(ws, tq))[:5]}", case=(pat, "cont"))
        res.count("standstill", 10)
        if c == 0:
            res.sample(dict(p=p, J=J))


def coast(res, seed, n):
    """Integrated with a small fixed step (own Euler loop over the executed derivative)."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        p, jr = params(rng), float(10 ** rng.uniform(-4, -2))
        load = mk(p, jr)
        J = load.j_total
        w = w0 = float(rng.choice([-1, 1]) * rng.uniform(1, 100))
        h = 1e-4
        T = 0.0
        for k in range(400):
            if p["b"] * h / J > 0.3 or p["c"] * abs(w) * h / J > 0.15:
                h *= 0.5
            w2 = w + h * float(load.mechanical_ode(k * h, np.array([w]), T)[0])
            res.count("coast_steps")
            res.check(w2 * w0 >= -1e-12 and abs(w2) <= abs(w) * (1 + 1e-12), "coast-down", lambda: f"{p} J {J}: without torque the speed goes {w} -> {w2}", case=(tuple(p[q] > 0 for q in "abc"), "coast"))
            w = w2
        # breakaway: with |T| < a the load stays close to standstill, with more it turns in the direction of the torque
        if p["a"] > 0:
            for f in (-0.9, 0.5, 0.9, -1.5, 2.0):
                T = f * p["a"]
                w, h = 0.0, min(1e-4, 0.2 * J / (p["b"] + 1e-9))
                for k in range(300):
                    w += h * float(load.mechanical_ode(0.0, np.array([w]), T)[0])
                lim = p["a"] * TAU_DECAY / J
                if abs(f) < 1:
                    res.check(abs(w) <= lim * 1.0001, "static-friction", lambda: f"{p} J {J}: torque {T} below the friction {p['a']} turns the load to {w} (> {lim})")
                else:
                    res.check(w * T > 0, "breakaway", lambda: f"{p} J {J}: torque {T} above the friction turns the load to {w}")
        # steady state
        wT = float(rng.choice([-1, 1]) * rng.uniform(5, 200))
        if p["b"] > 0 or p["c"] > 0:
            T = torque(p, J, wT)
            d = float(load.mechanical_ode(0.0, np.array([wT]), T)[0])
            lo, hi = (float(load.mechanical_ode(0.0, np.array([wT * q]), T)[0]) * np.sign(wT) for q in (0.9, 1.1))
            res.check(abs(d) * J <= 1e-9 * abs(T) + 1e-12 and lo > 0 > hi, "balance", lambda: f"{p}: speed {wT} does not balance {T}: {d}, {lo}, {hi}", case="balance")
            res.count("balanced")


def drives(res, seed, n, steps):
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[c % 9]
        s = S.random_spec(rng, kind=kind, til_prob=0, supplies=("ideal",))
        s["solver"] = dict(kind="euler", n=1)
        if s["load"]["kind"] == "poly":
            s["load"].update(a=float(rng.choice([0.0, 0.3, 2.0])), b=float(rng.choice([0.0, 0.01])), c=float(rng.choice([0.0, 1e-4])))
            if kind in S.DC and any(v != "4QC" for v in s["conv"]):
                s["load"]["w"] = abs(s["load"]["w"])
        sysm, sol = S.mk_system(s)
        pos, lim = sysm.state_positions, sysm.limits
        act = S.Actions(sysm.action_space, rng)
        x = sysm.reset() * lim
        lk = s["load"]["kind"]
        p = dict(a=s["load"].get("a"), b=s["load"].get("b"), c=s["load"].get("c"))
        J = s["load"].get("j", 0.0) + s["param"]["j_rotor"]
        prof = S.profile(s["load"]["profile"], s["load"]["w"], s["load"]["amp"], s["load"]["f"]) if lk == "ext" else None
        w0 = x[pos["omega"]]
        k = 0
        for _ in range(steps):
            if rng.random() < 0.02:
                x, k = sysm.reset() * lim, 0
            y = sysm.simulate(act()) * lim
            k += 1
            if not np.all(np.isfinite(y)) or np.max(np.abs(y)) > 1e7:
                break
            w, w2, T = x[pos["omega"]], y[pos["omega"]], x[pos["torque"]]
            res.count("drive_steps")
            if lk == "const":
                res.count("constant")
                res.check(abs(w2 - w0) <= 1e-12 * abs(w0) and abs(w0 - s["load"]["w"]) <= 1e-9 * abs(w0), "constant-speed", lambda: f"{kind}: {w0} -> {w2}, configured {s['load']['w']}", case=(kind, "const"))
            elif lk == "ext":
                res.count("external")
                want = float(prof(k * s["tau"]))
                res.check(abs(w2 - want) <= 1e-8 * (abs(want) + 1), "external-speed", lambda: f"{kind}: speed {w2} after {k} steps, profile {want} {s['load']}", case=(kind, "ext"))
            else:
                want = w + s["tau"] * (T - torque(p, J, w)) / J
                lm = p["a"] * TAU_DECAY / J
                tol = 1e-9 * (abs(want) + abs(w)) + 1e-9 * s["tau"] * (abs(T) + abs(torque(p, J, w))) / J + 1e-9
                if abs(abs(w) - lm) > 1e-6 * (lm + 1e-9) or p["a"] == 0:
                    res.check(abs(w2 - want) <= tol, "drive-law", lambda: f"{kind}: speed {w} -> {w2}, expected {want} with the observed torque {T}, {s['load']}", case=(kind, "poly", p["a"] > 0))
            x = y
    # profiles with keyword arguments
    for _ in range(6):
        amp, f, tau = float(rng.uniform(1, 50)), float(rng.uniform(1, 50)), float(rng.choice([1e-4, 1e-5]))
        kw = dict(amp=amp, f=f)
        load = ps.ExternalSpeedLoad(lambda t, amp, f: amp * np.cos(2 * np.pi * f * t), speed_profile_kwargs=kw, tau=tau)
        res.check(abs(float(load.omega) - amp) < 1e-12, "external-initial", lambda: f"{load.omega}")
        res.check(np.allclose(load.reset(), [amp]), "external-reset", lambda: f"{load.reset()}")
        w = amp
        for k in range(40):
            w = w + tau * float(load.mechanical_ode(k * tau, np.array([w]), float(rng.normal()))[0])
            res.count("external")
            res.check(abs(w - amp * math.cos(2 * math.pi * f * (k + 1) * tau)) < 1e-8 * amp, "external-kwargs", lambda: f"{w} at step {k + 1} {kw}", case="kwargs")


def ou(res, seed, n, steps):
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for c in range(n):
        tau = float(rng.choice([1e-5, 1e-4, 1e-3]))
        lo, hi = sorted(rng.uniform(-100, 100, 2))
        if hi - lo < 5:
            hi = lo + 5
        mu, th = float(rng.uniform(lo - 20, hi + 20)), float(rng.uniform(0.1, 20))
        tight = c % 3 == 0
        sg = float((hi - lo) / math.sqrt(tau) * rng.uniform(0.1, 0.4)) if tight else float(10 ** rng.uniform(-1, 1))
        load = ps.OrnsteinUhlenbeckLoad(mu=mu, sigma=sg, theta=th, tau=tau, omega_range=(lo, hi))
        load.seed(np.random.SeedSequence(int(rng.integers(2**31))))
        z, starts = [], []
        for ep in range(6):
            w = float(np.ravel(reset_ou(load, lo, hi))[0])
            starts.append(w)
            res.check(lo <= w <= hi, "ou:initial", lambda: f"initial speed {w} outside of ({lo}, {hi})")
            for k in range(steps // 6):
                d = np.asarray(load.mechanical_ode(k * tau, np.array([w]), float(rng.normal())), float)
                w2 = w + tau * float(np.ravel(d)[0])
                res.count("ou_steps")
                e = 1e-9 * (abs(lo) + abs(hi))
                res.check(lo - e <= w2 <= hi + e, "ou:range", lambda: f"speed {w} -> {w2} leaves ({lo}, {hi})", case=("ou", tight))
                mean = w + th * (mu - w) * tau
                far = 9 * sg * math.sqrt(tau)
                if lo + far < mean < hi - far:
                    res.count("ou_inside")
                    res.check(abs(w2 - mean) <= far, "ou:increment", lambda: f"speed {w} -> {w2}: expected {mean} up to {far}, range ({lo}, {hi})", case=("ou", "inside"))
                if mean > hi + far or mean < lo - far:
                    res.check(abs(w2 - (hi if mean > hi else lo)) < 1e-6 * (hi - lo), "ou:bound", lambda: f"speed {w} -> {w2}: expected the bound")
                if lo + 1e-9 < w2 < hi - 1e-9:
                    z.append((w2 - w - th * (mu - w) * tau) / (sg * math.sqrt(tau)))
                else:
                    res.count("ou_clipped")
                    z.append(None)
                w = min(max(w2, lo), hi)
        res.check(len(set(starts)) == len(starts), "ou:initial-repeats", lambda: f"{starts}")
        zz = np.array([v for v in z if v is not None])
        if not tight and len(zz) == len(z):
            m = len(zz)
            u = np.sort(0.5 * (1 + np.vectorize(math.erf)(zz / math.sqrt(2))))
            ks = max(np.max(np.arange(1, m + 1) / m - u), np.max(u - np.arange(m) / m)) * math.sqrt(m)
            lag = float(np.mean(zz[1:] * zz[:-1])) * math.sqrt(m)
            res.check(ks < 3.6 and abs(lag) < 7, "ou:law", lambda: f"mu {mu} sigma {sg} theta {th} tau {tau}: KS {ks}, std of the noise {zz.std()}, mean {zz.mean()}, lag correlation {lag}", case=("ou", "law"))


def reset_ou(load, lo, hi):
    from gymnasium.spaces import Box

    m = max(abs(lo), abs(hi)) + 1.0
    return load.reset(state_space=Box(-np.ones(1), np.ones(1)), state_positions=dict(omega=0), nominal_state=np.array([m]))
