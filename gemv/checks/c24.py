"""C24: the operating points of the torque controllers realise the demanded torque within the current limit."""
import math

import numpy as np

from .. import ctrl as K

PROPERTY = "C24"
RULE = ("torque controllers of random machines: for grids and random torque references and machine states (currents, flux, speed, voltages) the selected"
        " currents are read after the controller call and judged with independent torque equations: torque, sign, current limit with margin, minimal"
        " current / losses where documented; (flux) the solver of torque and flux equations; distinct = motor x saliency x region")
ASSUMPTIONS = ["table based selections are judged with the resolution of their torque tables (0.5 % of the largest torque for PMSM, 1.3 % for SynRM, 2 % for the EESM)",
               "PMSM with l_d > l_q: the tables cover negative i_sd only (known finding); these machines are judged in the job `inverse` only",
               "SCIM: for arbitrary fluxes the equality of the torque is claimed up to 35 % of the torque limit (beyond, the bound for the nominal speed may reduce it), in the steady state for every demand"]
REQUIRE = {"dc_points": 3000, "table_points": 700, "table_reached": 400, "pm_points": 700, "synrm_points": 700, "scim_points": 400, "minimal": 800, "reached": 3000, "limited": 400,
           "flux_points": 2500, "scim_steady": 12, "weakening": 300}
JOB_LIMIT = dict(quick=500, thorough=2000)


def jobs(tier, seed):
    q = tier == "quick"
    out = []
    for j in range(8 if q else 40):
        out.append(("dc", dict(seed=[seed, j], n=6 if q else 20, points=120)))
        out.append(("sync", dict(seed=[seed, 100 + j], n=6 if q else 12, points=41 if q else 101)))
        out.append(("scim", dict(seed=[seed, 200 + j], n=2 if q else 6, points=60)))
        out.append(("flux", dict(seed=[seed, 300 + j], n=6 if q else 12, points=150 if q else 400)))
    for j in range(1 if q else 3):
        out.append(("eesm", dict(seed=[seed, 400 + j], default=j == 0)))
    for j in range(5 if q else 12):
        out.append(("scim_steady", dict(seed=[seed, 600 + j], n=1 if q else 6)))
    out.append(("inverse", dict(points=41)))
    for j in range(4 if q else 16):
        out.append(("tables", dict(seed=[seed, 500 + j], kind=("analytical", "interpolate")[j % 2], motor=("PMSM", "SynRM")[j // 2 % 2])))
    return out


def setup(s):
    env = K.build(s)
    env.reset(seed=1)
    c = K.controller(s, env)
    c.reset()
    n = list(env.state_names)
    lim = {k: float(v) for k, v in zip(n, env.limits)}
    return env, c, n, lim


def obs(n, lim, **values):
    o = np.zeros(len(n))
    for k, v in values.items():
        o[n.index(k)] = v / lim[k]
    return o


def dc(res, seed, n, points):
    rng = np.random.default_rng(seed)
    for c in range(n):
        m = K.DC[(c + seed[-1]) % 4]
        s = K.random_spec(rng, motor=m, task="TC", finite=bool(rng.random() < 0.25))
        env, ctl, names, lim = setup(s)
        p = K.params(s)
        so, ro = env.observation_space
        tc = K.stages(ctl, s)[1]
        T, mar = lim["torque"], 1 - s["margin"]
        low = {k: float(so.low[names.index(k)]) for k in names}
        for _ in range(points):
            x = float(rng.uniform(ro.low[0], ro.high[0])) if rng.random() < 0.8 else float(rng.choice([ro.low[0], ro.high[0], 0.0, 1e-3]))
            x = min(max(x, float(ro.low[0])), float(ro.high[0]))
            o = rng.uniform(so.low, so.high)
            if rng.random() < 0.3:
                o[names.index("omega")] = 0.0
            ctl.control(o, np.array([x]))
            cur = np.atleast_1d(np.asarray(tc.current_reference, float))
            want = x * T
            st = dict(zip(names, o * env.limits))
            res.count("dc_points")
            key = f"{m}-torque"
            for k, i in zip(K.CURR[m], cur):
                res.check(low[k] * lim[k] * mar - 1e-9 * lim[k] <= i <= lim[k] * mar * (1 + 1e-9), f"{m}-current-limit", f"{m}: {k}*={i}, limit {lim[k]}, margin {s['margin']}")
            if m == "PermExDc":
                need = want / p["psi_e"]
                emf = (lim["u"] - p["psi_e"] * abs(st["omega"])) / p["r_a"]
                motoring = want * st["omega"] > 0
                bound = min(lim["i"] * mar, emf if motoring else math.inf)
                if emf <= 0:
                    continue  # over speed: the induced voltage exceeds the supply
                if low["i"] * lim["i"] * mar <= need and abs(need) <= bound * (1 - 1e-9):
                    res.close(p["psi_e"] * cur[0], want, key, f"{m}: torque of the selected current", atol=1e-9 * T)
                    res.count("reached")
                else:
                    tq = p["psi_e"] * cur[0]
                    res.count("limited")
                    res.check(tq * want >= -1e-12 and abs(tq) <= abs(want) * (1 + 1e-9), f"{m}-limited", f"{m}: torque {tq} for the demanded {want}, bound {bound} A")
                    if need > 0 and bound == lim["i"] * mar:
                        res.close(cur[0], bound, f"{m}-limited", f"{m}: the limit is used", case="limit")
            elif m == "SeriesDc":
                need = math.sqrt(max(want, 0.0) / p["l_e_prime"])
                if need <= lim["i"] * mar:
                    res.close(p["l_e_prime"] * cur[0] ** 2, want, key, f"{m}: torque of the selected current", atol=1e-9 * T)
                    res.count("reached")
                else:
                    res.close(cur[0], lim["i"] * mar, f"{m}-limited", f"{m}: the limit is used")
                    res.count("limited")
            elif m == "ShuntDc":
                ie = st["i_e"]
                if abs(ie) > lim["i_e"] * mar * (1 + 1e-9):
                    # an excessive excitation current is lowered by the opposite armature current
                    exp = -math.copysign(lim["i_a"] * mar, ie)
                    res.close(cur[0], max(exp, low["i_a"] * lim["i_a"] * mar), f"{m}-excitation", f"{m}: i_e={ie} beyond the limit")
                    res.count("limited")
                elif abs(ie) > 1e-3 and abs(ie) < lim["i_e"] * mar * (1 - 1e-9):
                    need = want / (p["l_e_prime"] * ie)
                    if low["i_a"] * lim["i_a"] * mar <= need <= lim["i_a"] * mar:
                        res.close(p["l_e_prime"] * ie * cur[0], want, key, f"{m}: torque of the selected current", atol=1e-9 * T)
                        res.count("reached")
                    else:
                        res.count("limited")
                        res.close(cur[0], min(max(need, low["i_a"] * lim["i_a"] * mar), lim["i_a"] * mar), f"{m}-limited", f"{m}: the limit is used")
            else:
                ie = st["i_e"]
                # loss optimal excitation: minimum of r_a i_a^2 + r_e i_e^2 for i_a i_e = T / l'
                opt = math.sqrt(abs(want) / p["l_e_prime"] * math.sqrt(p["r_a"] / p["r_e"]))
                res.close(cur[1], min(opt, lim["i_e"] * mar), f"{m}-excitation", f"{m}: loss optimal excitation current for {want}", atol=1e-9)
                res.count("minimal")
                if ie > 1e-3:
                    need = want / (p["l_e_prime"] * ie)
                    if low["i_a"] * lim["i_a"] * mar <= need <= lim["i_a"] * mar:
                        res.close(p["l_e_prime"] * ie * cur[0], want, key, f"{m}: torque of the selected currents", atol=1e-9 * T)
                        res.count("reached")
                    else:
                        res.count("limited")
                        res.close(cur[0], min(max(need, low["i_a"] * lim["i_a"] * mar), lim["i_a"] * mar), f"{m}-limited", f"{m}: the limit is used")
            res.case((m, s["conv"], x > 0, round(x, 1)))


def mtpc(p, ld, lq, psi, torque, grid=4001):
    """Minimal current amplitude for a torque (brute force over the current angle, i_d <= 0)."""
    if torque == 0:
        return 0.0
    a = np.linspace(np.pi / 2, np.pi, grid)[:-1]  # i_d <= 0, i_q > 0
    t1, t2 = 1.5 * p * psi * np.sin(a), 1.5 * p * (ld - lq) * np.sin(a) * np.cos(a)
    if psi == 0:
        t2 = np.abs(t2)
    t = abs(torque)
    best = math.inf
    with np.errstate(all="ignore"):
        lin = np.abs(t2) < 1e-15 * max(1.0, np.max(np.abs(t1)))
        x = np.where(lin, t / t1, 0)
        d = t1**2 + 4 * t2 * t
        r1, r2 = (-t1 + np.sqrt(d)) / (2 * t2), (-t1 - np.sqrt(d)) / (2 * t2)
        for v in (np.where(lin, x, r1), np.where(lin, x, r2)):
            v = v[np.isfinite(v) & (v > 0)]
            if len(v):
                best = min(best, float(np.min(v)))
    return best


def judge(res, s, p, lim, want, cur, tol, region, low_speed, key):
    ld, lq, psi = p["l_d"], p["l_q"], p.get("psi_p", 0.0)
    I = lim["i_sd"] * (1 - s["margin"])
    T = 1.5 * p["p"] * (psi + (ld - lq) * cur[0]) * cur[1]
    a = math.hypot(*cur)
    res.check(a <= I * (1 + 1e-9), f"{key}-current-limit", f"{key}: |i*|={a}, permitted {I} (region {region})")
    res.check(abs(T) <= abs(want) + tol, f"{key}-too-much", f"{key} {s['param']}: torque {T} of the selected currents {cur} exceeds the demanded {want} ({region})")
    if abs(T) > tol and abs(want) > tol:
        res.check(T * want > 0, f"{key}-sign", f"{key} {s['param']}: torque {T} of the selected currents {cur} has the wrong sign, demanded {want} ({region})")
    if not low_speed:
        res.count("weakening")
        return
    best = mtpc(p["p"], ld, lq, psi, abs(want) + tol)
    if best < I * 0.995:
        res.count("reached")
        res.check(abs(T - want) <= tol, f"{key}-torque", f"{key} {s['param']}: torque {T} of the selected currents {cur}, demanded {want}, tolerance {tol}")
        res.count("minimal")
        res.check(a <= best * 1.01 + 2e-3 * I, f"{key}-minimal-current",
                  f"{key} {s['param']}: current {cur} (|i|={a}) for the torque {want}; {best} suffices")
    elif mtpc(p["p"], ld, lq, psi, abs(want)) > I * 1.03:
        res.count("limited")
        res.check(abs(T) > 0.5 * mtpc_torque(p["p"], ld, lq, psi, I), f"{key}-limited", f"{key} {s['param']}: torque {T} at the current limit {I}, demanded {want}")


def mtpc_torque(p, ld, lq, psi, I):
    a = np.linspace(np.pi / 2, np.pi, 721)
    return float(np.max(np.abs(1.5 * p * (psi + (ld - lq) * I * np.cos(a)) * I * np.sin(a))))


def sync(res, seed, n, points):
    rng = np.random.default_rng(seed)
    for c in range(n):
        m = ("PMSM", "SynRM")[c % 2]
        s = K.random_spec(rng, motor=m, task="TC", default=c < 2 and seed[-1] == 100, swap=0.3 if m == "SynRM" else 0.0)
        if m == "PMSM" and rng.random() < 0.2:
            s["lratio"] = 1.0
        env, ctl, names, lim = setup(s)
        p = K.params(s)
        p["psi_p"] = p.get("psi_p", 0.0) if m == "PMSM" else 0.0
        tc = K.stages(ctl, s)[1]
        sal = "equal" if p["l_d"] == p["l_q"] else ("d" if p["l_d"] > p["l_q"] else "q")
        I = lim["i_sd"]
        top = max(1.5 * p["p"] * (p["psi_p"] + abs(p["l_d"] - p["l_q"]) * I) * I, lim["torque"])
        tol = (2.2 * top / 249 / 2 if m == "PMSM" else 0.013 * top) + 1e-9
        for x in np.concatenate([np.linspace(-1, 1, points), rng.uniform(-1, 1, points)]):
            ctl.reset()
            w = float(rng.choice([0.0, 1e-3, -1.0, 1.0]))
            ctl.control(obs(names, lim, omega=w), np.array([x]))
            cur = np.asarray(tc.current_reference, float)
            res.count("pm_points" if m == "PMSM" else "synrm_points")
            judge(res, s, p, lim, x * lim["torque"], cur, tol, "low", True, f"{m}-{sal}")
            res.case((m, sal, "low", round(float(x), 1)))
        # arbitrary states, histories and speeds
        so = env.observation_space[0]
        for _ in range(points):
            o = rng.uniform(so.low, so.high)
            x = float(rng.uniform(-1, 1))
            ctl.control(o, np.array([x]))
            cur = np.asarray(tc.current_reference, float)
            judge(res, s, p, lim, x * lim["torque"], cur, 2 * tol, "any", False, f"{m}-{sal}")
            if rng.random() < 0.05:
                ctl.reset()


def inverse(res, points):
    """PMSM with l_d > l_q (known finding): one fixed machine"""
    s = K.random_spec(np.random.default_rng(0), motor="PMSM", task="TC", default=True)
    s.update(swap=True, margin=0.2, dead=0, param=dict(l_d=0.7, l_q=1.35, psi_p=0.65, p=3))
    env, ctl, names, lim = setup(s)
    p = K.params(s)
    tc = K.stages(ctl, s)[1]
    bad = []
    for x in np.linspace(-1, 1, points):
        ctl.reset()
        ctl.control(obs(names, lim), np.array([x]))
        i = np.asarray(tc.current_reference, float)
        res.count("inverse_points")
        T, want = 1.5 * p["p"] * (p["psi_p"] + (p["l_d"] - p["l_q"]) * i[0]) * i[1], x * lim["torque"]
        need = abs(want) / (1.5 * p["p"] * p["psi_p"])  # with i_sd = 0
        if (need < 0.8 * lim["i_sd"] and abs(T - want) > 0.03 * lim["torque"]) or (T * want < 0 and abs(T) > 0.03 * lim["torque"]):
            bad.append((want, T, i.tolist()))
    res.case(("PMSM", "inverse"))
    res.check(not bad, "pmsm-inverse-saliency-torque", f"PMSM l_d={p['l_d']}, l_q={p['l_q']}: {len(bad)} torques missed, e.g. {bad[:2]}")


def scim(res, seed, n, points):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = K.random_spec(rng, motor="SCIM", task="TC", default=c == 0 and seed[-1] == 200)
        env, ctl, names, lim = setup(s)
        p = K.params(s)
        tc = K.stages(ctl, s)[1]
        lr = p["l_m"] + p["l_sigr"]
        k = 1.5 * p["p"] * p["l_m"] / lr
        I = lim["i_sd"] * (1 - s["margin"])
        so = env.observation_space[0]
        for j in range(points):
            x = float(rng.uniform(-1, 1))
            want = x * lim["torque"]
            # flux for minimal losses: r_s i_d^2 + (r_s + r_r l_m^2 / l_r^2) (T / (k l_m i_d))^2 -> min
            rq = p["r_s"] + p["r_r"] * p["l_m"] ** 2 / lr**2
            idopt = (rq / p["r_s"] * (want / (k * p["l_m"])) ** 2) ** 0.25
            kind = j % 3
            if kind == 2:
                o = rng.uniform(so.low, so.high)
                ctl.control(o, np.array([x]))
                psi = o[names.index("psi_abs")] * lim["psi_abs"]
            else:
                factor = float(rng.uniform(0.5, 0.9)) if kind == 0 else float(rng.uniform(1.1, 1.4))
                psi = min(factor * p["l_m"] * idopt, lim["psi_abs"])
                ctl.reset()
                ctl.control(obs(names, lim, psi_abs=psi, omega=float(rng.uniform(-1, 1))), np.array([x]))
            cur = np.asarray(tc.current_reference, float)
            T = k * psi * cur[1]
            res.count("scim_points")
            res.check(math.hypot(*cur) <= I * (1 + 1e-9), "SCIM-current-limit", f"SCIM: |i*|={cur}, permitted {I}")
            if psi > 0.002:
                res.check(T * want >= -1e-12 and abs(T) <= abs(want) * (1 + 1e-9), "SCIM-sign", f"SCIM {s['param']}: torque {T} for the demanded {want}")
            if kind != 2:
                isd_alone = abs(cur[0])
                room = math.sqrt(max(I**2 - isd_alone**2, 0.0))
                need = abs(want) / (k * max(psi, 1e-3))
                if 0.005 < abs(x) < 0.35 and psi > 0.002:
                    if need <= room * (1 - 1e-6):
                        res.count("reached")
                        res.close(T, want, "SCIM-torque", f"SCIM {s['param']}: torque of the selected currents", rtol=1e-7, atol=1e-9)
                    else:
                        res.count("limited")
                        res.close(abs(cur[1]), room, "SCIM-limited", "SCIM: the remaining current is used", rtol=1e-6, atol=1e-6)
                if abs(x) > 0.1 and math.hypot(idopt, want / (k * p["l_m"] * idopt)) < 0.9 * I and 1.0 < idopt / (I / 500 + 1e-12) / 5:
                    res.count("minimal")
                    if abs(x) < 0.35:
                        res.check(cur[0] > 0 if kind == 0 else cur[0] <= 0, "SCIM-flux",
                                  f"SCIM {s['param']}: flux {psi} ({'below' if kind == 0 else 'above'} the loss optimal {p['l_m'] * idopt} for the torque {want}) but i_sd*={cur[0]}")
            res.case(("SCIM", kind, round(x, 1)))


def scim_steady(res, seed, n):
    """Constant torque demand at a low speed: flux model in the loop with the selected currents, the torque in the end is judged."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = K.random_spec(rng, motor="SCIM", task="TC", default=c == 0)
        s["tau"] = 2e-4
        env, ctl, names, lim = setup(s)
        p = K.params(s)
        tc = K.stages(ctl, s)[1]
        lr = p["l_m"] + p["l_sigr"]
        k = 1.5 * p["p"] * p["l_m"] / lr
        T_r = lr / p["r_r"]
        I = lim["i_sd"] * (1 - s["margin"])
        top = k * p["l_m"] * I**2 / 2
        for want in (float(rng.uniform(0.1, 0.6)) * top, -float(rng.uniform(0.6, 0.97)) * top, float(rng.choice([-1.0, 1.0])) * max(1.2 * top, lim["torque"])):
            x = want / lim["torque"]
            if abs(x) > 1:
                x = math.copysign(1.0, x)
            want = x * lim["torque"]
            ctl.reset()
            psi, log = 0.01 * p["l_m"] * I, []
            steps = int(14 * T_r / 2e-4)
            d = 1 - math.exp(-2e-4 / T_r)
            for j in range(steps):
                ctl.control(obs(names, lim, psi_abs=psi, omega=2.0), np.array([x]))
                cur = np.asarray(tc.current_reference, float)
                psi += d * (p["l_m"] * cur[0] - psi)
                if j > 0.8 * steps:
                    log.append(k * psi * cur[1])
            T = float(np.mean(log))
            res.count("scim_steady")
            res.case(("SCIM", "steady", abs(want) > top, round(abs(want) / top, 1)))
            goal = math.copysign(min(abs(want), top), want)
            res.check(abs(T - goal) <= 0.02 * top, "SCIM-steady-torque", f"SCIM {s['param']} margin {s['margin']}: torque {T} in the steady state for the demanded {want} ({top} within the current limit)")


def flux(res, seed, n, points):
    """The analytical solution fulfils the torque and the flux equation."""
    import gem_controllers as gc

    rng = np.random.default_rng(seed)
    for c in range(n):
        s = K.random_spec(rng, motor="PMSM", task="TC", default=c == 0 and seed[-1] == 300)
        if rng.random() < 0.2:
            s["lratio"] = 1.0
        env, ctl, names, lim = setup(s)
        p = K.params(s)
        stage = K.stages(ctl, s)[1].torque_to_current_stage
        if not hasattr(stage, "solve_analytical"):
            res.count("no_solver")
            continue
        ld, lq, psi, pp = p["l_d"], p["l_q"], p["psi_p"], p["p"]
        if ld > lq:
            continue
        I = lim["i_sd"]
        for _ in range(points):
            idd = -float(rng.uniform(0.02, 0.98)) * I
            iq = float(rng.uniform(-1, 1)) * math.sqrt(I**2 - idd**2)
            if psi + ld * idd <= 0.02 * psi:
                continue  # beyond the point of vanishing flux
            T = 1.5 * pp * (psi + (ld - lq) * idd) * iq
            f = math.hypot(psi + ld * idd, lq * iq)
            got = np.array(stage.solve_analytical(T, f), float)
            T2 = 1.5 * pp * (psi + (ld - lq) * got[0]) * got[1]
            f2 = math.hypot(psi + ld * got[0], lq * got[1])
            res.count("flux_points")
            res.check(abs(T2 - T) <= 1e-6 * abs(T) + 1e-9 and abs(f2 - f) <= 1e-4 * f, "PMSM-analytical",
                      f"PMSM {s['param']}: solve_analytical({T}, {f}) -> {got}: torque {T2}, flux {f2}; ({idd}, {iq}) fulfils both")
            res.check(math.hypot(*got) <= math.hypot(idd, iq) * (1 + 1e-3), "PMSM-analytical-minimal",
                      f"PMSM {s['param']}: solve_analytical({T}, {f}) -> {got}, but ({idd}, {iq}) is smaller")
        # selected operating points at high speed: bounded flux
        tc = K.stages(ctl, s)[1]
        slack = 0.2 * math.hypot(psi + ld * I, lq * I)
        for _ in range(points):
            w = float(rng.uniform(0.3, 1.0)) * lim["omega"]
            ctl.reset()
            ctl.control(obs(names, lim, omega=w), np.array([float(rng.uniform(-1, 1))]))
            i = np.asarray(tc.current_reference, float)
            bound = lim["u_a"] / (w * pp) + slack
            if bound < 0.3 * psi:
                continue
            f = math.hypot(psi + ld * i[0], lq * i[1])
            floor = max(psi - ld * I * (1 - s["margin"]), 0.0)
            res.count("weakening")
            res.check(f <= max(bound, floor) * 1.03 + 0.02 * psi, "PMSM-flux-limit", f"PMSM {s['param']}: flux {f} of the selected currents {i} at omega={w}; the voltage permits {bound}")
        res.case(("PMSM", "flux", c, s["param"].get("p")))


def eesm(res, seed, default):
    rng = np.random.default_rng(seed)
    s = K.random_spec(rng, motor="EESM", task="TC", default=default)
    env, ctl, names, lim = setup(s)
    p = K.params(s)
    tc = K.stages(ctl, s)[1]
    I, E = lim["i_sq"] * (1 - s["margin"]), lim["i_e"] * (1 - s["margin"])
    top = 0.0
    ie = E
    a = np.linspace(0, np.pi, 721)
    top = float(np.max(1.5 * p["p"] * (p["l_m"] * ie + (p["l_d"] - p["l_q"]) * I * np.cos(a)) * I * np.sin(a)))
    for x in np.concatenate([np.linspace(-1, 1, 101), rng.uniform(-1, 1, 60)]):
        ctl.reset()
        ctl.control(obs(names, lim, omega=float(rng.uniform(-1, 1))), np.array([x]))
        i = np.asarray(tc.current_reference, float)
        want = x * lim["torque"]
        T = 1.5 * p["p"] * (p["l_m"] * i[2] + (p["l_d"] - p["l_q"]) * i[0]) * i[1]
        res.count("eesm_points")
        res.case(("EESM", round(float(x), 1)))
        if not res.check(bool(np.all(np.isfinite(i))), "EESM-finite", f"EESM {s['param']}: {i} for {want}"):
            continue
        res.check(math.hypot(i[0], i[1]) <= I * (1 + 1e-9) and -1e-9 <= i[2] <= E * (1 + 1e-9), "EESM-current-limit", f"EESM: {i}")
        tol = 0.02 * lim["torque"]
        res.check(abs(T) <= abs(want) + tol, "EESM-too-much", f"EESM {s['param']}: torque {T} of {i}, demanded {want}")
        res.check(T * want >= -1e-9 or abs(T) < tol, "EESM-sign", f"EESM {s['param']}: torque {T} of {i}, demanded {want}")
        if abs(want) < 0.7 * top:
            res.check(abs(T - want) <= tol, "EESM-torque", f"EESM {s['param']}: torque {T} of {i}, demanded {want}")


def tables(res, seed, kind, motor):
    """The precomputed variants of the PMSM selection give the same torque as the online solution."""
    import gem_controllers as gc

    rng = np.random.default_rng(seed)
    s = K.random_spec(rng, motor=motor, task="TC", default=False)
    env, ctl, names, lim = setup(s)
    p = K.params(s)
    p["psi_p"] = p.get("psi_p", 0.0) if motor == "PMSM" else 0.0
    tc = K.stages(ctl, s)[1]
    stage = gc.stages.operation_point_selection.PMSMOperationPointSelection(torque_control=kind)
    stage.tune(env, K.env_id(s), current_safety_margin=s["margin"])
    tc.torque_to_current_stage = stage
    ctl.reset()
    I = lim["i_sd"]
    top = max(1.5 * p["p"] * (p["psi_p"] + abs(p["l_d"] - p["l_q"]) * I) * I, lim["torque"])
    for x in rng.uniform(-1, 1, 200):
        ctl.reset()
        ctl.control(obs(names, lim, omega=0.0), np.array([x]))
        cur = np.asarray(tc.current_reference, float)
        res.count("table_points")
        if not res.check(bool(np.all(np.isfinite(cur))), f"{motor}-{kind}-finite", f"{motor} {kind}: {cur}"):
            continue
        tol = (5 if kind == "analytical" else 15) * top / 249
        judge(res, s, p, lim, x * lim["torque"], cur, tol, kind, False, f"{motor}-{kind}")
        # the demanded torque is reached wherever the current limit leaves room for it
        T = 1.5 * p["p"] * (p["psi_p"] + (p["l_d"] - p["l_q"]) * cur[0]) * cur[1]
        if mtpc(p["p"], p["l_d"], p["l_q"], p["psi_p"], abs(x) * lim["torque"] + 2 * tol) < I * (1 - s["margin"]) * 0.97:
            res.count("table_reached")
            res.check(abs(T - x * lim["torque"]) <= tol, f"{motor}-{kind}-torque", f"{motor} {kind} {s['param']}: torque {T} of the selected currents {cur}, demanded {x * lim['torque']}, tolerance {tol}")
