"""C17: voltage supplies deliver the documented voltage for every load current, time and history."""
import math

import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C17"
RULE = ("random supplies driven by random histories of evaluation times, load currents and resets, standalone and spied on inside of drives: each returned"
        " voltage against an independent model (constant; RC circuit: exact solution within the error bound of one explicit Euler step; sine with"
        " documented amplitude, frequency and phases); distinct = supply x parameter choice x phase of the history")
ASSUMPTIONS = ["the buffered supply integrates with one explicit Euler step per evaluation (its error bound is part of the tolerance)",
               "the current handed to the buffered supply within a drive is judged in C08/C09"]
REQUIRE = {"ideal": 500, "rc": 3000, "rc_recovery": 100, "ac1": 1500, "ac3": 1500, "random_phases": 1000, "drive_steps": 1500, "resets": 300, "refused": 30}


def jobs(tier, seed):
    n, m = (12, 14) if tier == "quick" else (60, 80)
    return ([("standalone", dict(seed=[seed, j], n=m, steps=80)) for j in range(n)] + [("phases", dict(seed=[seed, 200 + j], n=200 if tier == "quick" else 2000)) for j in range(8)]
            + [("drives", dict(seed=[seed, 300 + j], n=6 if tier == "quick" else 20, steps=60 if tier == "quick" else 200)) for j in range(8)])


def rc_step(u, u0, i, r, c, dt):
    """exact solution of u' = (u0 - r i - u) / (r c) and the error bound of one Euler step"""
    x = dt / (r * c)
    d = u0 - r * i - u
    return u + d * -math.expm1(-x), abs(d) * 0.5 * x * x


def standalone(res, seed, n, steps):
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for c in range(n):
        u = float(np.round(rng.uniform(1, 800), 3))
        kind = ("ideal", "rc", "ac1", "ac3")[c % 4]
        if kind == "ideal":
            s = ps.IdealVoltageSupply(u_nominal=u)
            res.check(tuple(s.supply_range) == (u, u), "ideal:range", lambda: f"{s.supply_range} of {u}")
            for _ in range(steps):
                v = s.reset() if rng.random() < 0.1 else s.get_voltage(float(rng.uniform(0, 10)), float(rng.uniform(-1000, 1000)))
                res.check(len(v) == 1 and v[0] == u, "ideal:voltage", lambda: f"{v} expected {u}", case="ideal")
                res.count("ideal")
        elif kind == "rc":
            r, cap = float(10 ** rng.uniform(-2, 1)), float(10 ** rng.uniform(-3, -1))
            default = rng.random() < 0.2
            if default:
                r, cap = 1.0, 4e-3
            par = dict(R=r, C=cap)
            s = ps.RCVoltageSupply(u_nominal=u) if default else ps.RCVoltageSupply(u_nominal=u, supply_parameter=par)
            res.check(tuple(s.supply_range) == (0, u) and s.u_nominal == u, "rc:range", lambda: f"{s.supply_range} of {u}")
            fresh = s.reset()
            res.check(len(fresh) == 1 and fresh[0] == u, "rc:reset", lambda: f"{fresh} expected {u}")
            t, v, i = 0.0, u, 0.0
            for k in range(steps):
                m = rng.random()
                if m < 0.03:
                    res.count("resets")
                    got = s.reset()
                    t, v = 0.0, u
                    res.check(got[0] == u, "rc:reset", lambda: f"reset to {got} expected {u}")
                    continue
                if m < 0.3:
                    i = 0.0 if m < 0.15 else float(rng.uniform(-0.3, 1.2) * u / r)
                dt = float(r * cap * rng.choice([0.0, 1e-4, 1e-3, 1e-2, 0.1]))
                t2 = t + dt
                got = s.get_voltage(t2, i)
                want, tol = rc_step(v, u, i, r, cap, t2 - t)
                res.check(len(got) == 1 and abs(got[0] - want) <= tol + 1e-9 * (abs(want) + u) + 1e-9 * abs(i) * r, "rc:voltage",
                          lambda: f"U0 {u} R {r} C {cap}: from {v} V with {i} A for {t2 - t} s: {got} expected {want} +- {tol}", case=("rc", default, i == 0, i < 0))
                if i == 0:
                    res.count("rc_recovery")
                    res.check(abs(u - got[0]) <= abs(u - v) * (1 + 1e-12) + 1e-9 * u, "rc:recovery", lambda: f"without load {v} -> {got}, source {u}")
                res.count("rc")
                t, v = t2, float(got[0])
            res.check(par == dict(R=r, C=cap), "rc:argument", lambda: f"{par}")
        else:
            f, phi = float(10 ** rng.uniform(0, 3)), float(rng.choice([0.0, math.pi / 2, math.pi, rng.uniform(0, 2 * math.pi), rng.uniform(0, 2 * math.pi)]))
            cls = ps.AC1PhaseSupply if kind == "ac1" else ps.AC3PhaseSupply
            amp = u * math.sqrt(2) / (1 if kind == "ac1" else math.sqrt(3))
            par = dict(frequency=f, phase=phi)
            mode = rng.random()
            if mode < 0.5:
                s = cls(u_nominal=u, supply_parameter=par)
            elif mode < 0.8:
                par = dict(frequency=f)
                s, phi = cls(u_nominal=u, supply_parameter=par), None
            else:
                par, f, phi = None, 50.0, None
                s = cls(u_nominal=u)
            before = None if par is None else dict(par)
            res.check(abs(s.supply_range[1] - amp) < 1e-9 * amp and abs(s.supply_range[0] + amp) < 1e-9 * amp, f"{kind}:range", lambda: f"{s.supply_range} amplitude {amp}")
            ph = [0.0] if kind == "ac1" else [0, 2 * math.pi / 3, 4 * math.pi / 3]
            cur = phi
            for k in range(steps):
                if k == 0 or rng.random() < 0.05:
                    v, t = s.reset(), 0.0
                    res.count("resets")
                    if phi is None:  # random phase: read it off the first two evaluations
                        q = s.get_voltage(0.25 / f, 0.0)[0]
                        cur = math.atan2(v[0], q)
                else:
                    t = float(rng.uniform(0, 5) / f) if rng.random() < 0.8 else float(rng.uniform(0, 3))
                    v = s.get_voltage(t, float(rng.uniform(-100, 100)))
                want = [amp * math.sin(2 * math.pi * f * t + cur + p) for p in ph]
                res.check(len(v) == len(want) and np.allclose(v, want, rtol=0, atol=1e-7 * amp), f"{kind}:voltage",
                          lambda: f"{kind} {u} V rms {f} Hz at t={t}: {v} expected {want}", case=(kind, phi is None, par is None))
                if kind == "ac3":
                    res.check(abs(sum(v)) < 1e-9 * amp, "ac3:sum", lambda: f"{v}")
                res.count(kind)
            res.check(before == par, f"{kind}:argument", lambda: f"the parameter dictionary became {par}")
            for bad in (dict(phase=1.0), dict(frequency=50, phase=-0.1), dict(frequency=50, phase=7.0), [50.0]):
                try:
                    cls(u_nominal=u, supply_parameter=bad)
                    ok = False
                except AssertionError:
                    ok = True
                res.check(ok, f"{kind}:bad-parameter-accepted", lambda: f"{bad}")
                res.count("refused")
        if kind == "rc":
            for bad in (dict(R=1.0), dict(C=1.0)):
                try:
                    ps.RCVoltageSupply(u_nominal=u, supply_parameter=bad)
                    ok = False
                except AssertionError:
                    ok = True
                res.check(ok, "rc:bad-parameter-accepted", lambda: f"{bad}")
                res.count("refused")


def phases(res, seed, n):
    """Free phases are uniform on the circle and drawn anew for each episode."""
    from gym_electric_motor import physical_systems as ps

    rng = np.random.default_rng(seed)
    for cls in (ps.AC1PhaseSupply, ps.AC3PhaseSupply):
        s = cls(u_nominal=100.0, supply_parameter=dict(frequency=50.0))
        s.seed(np.random.SeedSequence(int(rng.integers(2**31))))
        ph = []
        for _ in range(n):
            v = s.reset()[0]
            ph.append(math.atan2(v, s.get_voltage(0.005)[0]) % (2 * math.pi))
        u = np.sort(np.array(ph) / (2 * math.pi))
        ks = max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)) * math.sqrt(n)
        res.check(ks < 3.6, "phase-law", lambda: f"{cls.__name__}: KS distance {ks}", case=cls.__name__)
        res.check(len(np.unique(np.round(ph, 9))) == n, "phase-repeats", lambda: f"{cls.__name__}: {len(np.unique(ph))} different phases in {n} episodes")
        res.count("random_phases", n)


def drives(res, seed, n, steps):
    """Inside of a drive: the supply voltage that is observed is the one delivered for the present time."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[(c + int(seed[1])) % 9]
        s = S.random_spec(rng, kind=kind, supplies=("ideal", "rc", "ac1"))
        sysm, sol = S.mk_system(s)
        sup = sysm.supply
        calls = []
        inner, inner_reset = sup.get_voltage, sup.reset
        busy = [0]

        def get_voltage(*a, **k):
            out = inner(*a, **k)
            if not busy[0]:
                calls.append((float(a[0]), float(a[1]), float(out[0])))
            return out

        def reset(*a, **k):
            busy[0] += 1
            out = inner_reset(*a, **k)
            busy[0] -= 1
            calls.append((0.0, None, float(out[0])))
            return out

        sup.get_voltage, sup.reset = get_voltage, reset
        act = S.Actions(sysm.action_space, rng)
        v = s["supply"]
        i_sup = sysm.state_positions["u_sup"]
        cur, t0 = v["u"], 0.0
        res.check(abs(sysm.limits[i_sup] - v["u"]) < 1e-12 * v["u"], "u_sup-limit", lambda: f"{sysm.limits[i_sup]} of {v['u']}")
        for k in range(steps):
            calls.clear()
            if k == 0 or rng.random() < 0.03:
                o = sysm.reset()
                cur, t0 = v["u"], 0.0
                step = 0
                res.count("resets")
            else:
                o = sysm.simulate(act())
                step += 1
            if not res.check(len(calls) >= 1, "supply-not-asked", f"{kind}: no voltage requested in step {step}"):
                break
            for t, i, got in calls:
                if v["kind"] == "ideal":
                    want, tol = v["u"], 0.0
                elif v["kind"] == "ac1":
                    want, tol = v["u"] * math.sqrt(2) * math.sin(2 * math.pi * v["f"] * t + v["phi"]), 0.0
                elif i is None:
                    want, tol = v["u"], 0.0
                else:
                    want, tol = rc_step(cur, v["u"], i, v["R"], v["C"], t - t0)
                res.check(abs(got - want) <= tol + 1e-9 * (abs(want) + v["u"]) + 1e-9 * abs(i or 0.0) * v.get("R", 0.0), f"drive:{v['kind']}", lambda: f"{v}: {got} expected {want} at t={t} for {i} A", case=(kind, v["kind"], s["cont"]))
                cur, t0 = got, t
            res.check(abs(o[i_sup] * v["u"] - cur) <= 1e-9 * (abs(cur) + v["u"]), "observed-u_sup", lambda: f"{kind} {v}: observed {o[i_sup] * v['u']}, delivered {cur}", case=(kind, "observed", v["kind"]))
            res.count("drive_steps")
            if not np.all(np.isfinite(o)) or np.max(np.abs(o)) > 1e6:
                break
