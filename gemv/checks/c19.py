"""C19: episodes start in the configured initial state."""
import math

import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C19"
RULE = ("random drives with constant, uniform and normal initialisers (with and without user intervals in the order of the initial states, means and deviations) for motor and load, reset"
        " many times: the electrical and mechanical state at the solver and in the observation against the configuration; bounds, distribution test"
        " (Kolmogorov-Smirnov per state), independence over states and episodes; infeasible constants have to be refused;"
        " distinct = motor x initialiser x interval x state")
ASSUMPTIONS = ["the nominal range is that of the motor's public nominal values and the declared state space",
               "initial rotor fluxes of induction machines are judged by their bound only (its range depends on drawn currents, known finding C02)"]
REQUIRE = {"constant": 500, "uniform": 3000, "normal": 3000, "ks": 150, "refused": 60, "load_random": 1000, "observed": 3000, "default_states": 100, "phase_currents": 500, "unspecified": 15}

ELECTRIC = dict(PermExDc=["i"], SeriesDc=["i"], ExtExDc=["i_a", "i_e"], ShuntDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq", "epsilon"], SynRM=["i_sd", "i_sq", "epsilon"],
                EESM=["i_sd", "i_sq", "i_e", "epsilon"], SCIM=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"],
                DFIM=["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"])


def jobs(tier, seed):
    n, m, r = (16, 18, 60) if tier == "quick" else (96, 27, 200)
    return [("initial", dict(seed=[seed, j], n=m, resets=r)) for j in range(n)] + [("constant", dict(seed=[seed, 300 + j], n=m)) for j in range(n)]


def phi(x):
    return 0.5 * math.erfc(-x / math.sqrt(2))


def truncnorm_cdf(x, lo, hi, mu, sg):
    a, b = (lo - mu) / sg, (hi - mu) / sg
    if a > 0:  # better conditioned in the other tail
        return np.array([1 - (phi(-(v - mu) / sg) - phi(-b)) / (phi(-a) - phi(-b)) for v in x])
    return np.array([(phi((v - mu) / sg) - phi(a)) / (phi(b) - phi(a)) for v in x])


def ks(u):
    n = len(u)
    u = np.sort(u)
    return max(np.max(np.arange(1, n + 1) / n - u), np.max(u - np.arange(n) / n)) * math.sqrt(n)


def build(rng, kind, motor_init, load_init, w, cont, conv4=True):
    from gym_electric_motor import physical_systems as ps

    s = S.random_spec(rng, kind=kind, cont=cont, loads=("const",), supplies=("ideal",), til_prob=0)
    if conv4:
        s["conv"] = [v if v == "B6" else "4QC" for v in s["conv"]]
    s["init"] = None
    s["dq"] = False
    s["initializer"] = motor_init
    solver = S.mk_solver(dict(solver=dict(kind="euler", n=1)))
    if load_init is None:
        load = ps.ConstantSpeedLoad(omega_fixed=w)
    elif load_init.get("kind") == "const":
        load = ps.ConstantSpeedLoad(load_initializer={k: v for k, v in load_init.items() if k != "kind"})
    else:
        load = ps.PolynomialStaticLoad(load_parameter=dict(a=0.0, b=0.01, c=0.0, j_load=1e-3), load_initializer={k: v for k, v in load_init.items() if k != "kind"})
    sysm = getattr(ps, S.SYSTEM_CLASS[kind])(converter=S.mk_conv(s), motor=S.mk_motor(s), load=load, supply=S.mk_supply(s), ode_solver=solver, tau=s["tau"])
    return s, sysm, solver


def ranges(kind, sysm, names):
    """nominal range of every electrical state"""
    nom = sysm.electrical_motor.nominal_values
    out = []
    for q in names:
        if q in sysm.state_positions:
            p = sysm.state_positions[q]
            out.append((nom[q] * sysm.state_space.low[p], nom[q]))
        elif q.startswith("psi"):
            out.append(None)
        else:
            out.append((-abs(nom.get(q, nom["i"])), abs(nom.get(q, nom["i"]))))
    if kind in S.IND:
        out[-1] = (-nom["epsilon"], nom["epsilon"])
    return out


def observed(res, kind, sysm, y, o):
    """the returned observation shows the initial state"""
    x = o * sysm.limits
    pos = sysm.state_positions
    res.count("observed")
    res.close(x[pos["omega"]], y[0], "observed:omega", f"{kind} omega", rtol=1e-9, atol=1e-9)
    names = ELECTRIC[kind]
    if kind == "ShuntDc" or kind in S.DC or kind in S.SYNC:
        for i, q in enumerate(names):
            v = y[1 + i]
            if q == "epsilon":
                d = (x[pos[q]] - v + math.pi) % (2 * math.pi) - math.pi
                res.check(abs(d) < 1e-9, "observed:epsilon", lambda: f"{kind}: observed {x[pos[q]]} state {v}")
            else:
                res.close(x[pos[q]], v, f"observed:{q}", f"{kind} {q}", rtol=1e-9, atol=1e-9)
        if kind in S.SYNC:
            from .. import refsim as R

            i = dict(zip(names, y[1:]))
            c, sn = math.cos(i["epsilon"]), math.sin(i["epsilon"])
            iab = R.abc2ab(np.array([x[pos[q]] for q in ("i_a", "i_b", "i_c")]))
            res.close(iab, np.array([c * i["i_sd"] - sn * i["i_sq"], sn * i["i_sd"] + c * i["i_sq"]]), "observed:phase-currents", f"{kind} phase currents", rtol=1e-9, atol=1e-9)
            res.count("phase_currents", int(abs(i["i_sq"]) > 0 and abs(i["epsilon"]) > 0.1))
    else:
        from .. import refsim as R

        iab = R.abc2ab(np.array([x[pos[q]] for q in ("i_sa", "i_sb", "i_sc")]))
        res.close(iab, y[1:3], "observed:i_s", f"{kind} stator currents", rtol=1e-9, atol=1e-9)
        d = (x[pos["epsilon"]] - y[5] + math.pi) % (2 * math.pi) - math.pi
        res.check(abs(d) < 1e-9, "observed:epsilon", lambda: f"{kind}: observed {x[pos['epsilon']]} state {y[5]}")


def initial(res, seed, n, resets):
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[c % 9]
        names = ELECTRIC[kind]
        dist = str(rng.choice(["uniform", "normal", "gaussian"]))
        probe = build(np.random.default_rng([*seed, c]), kind, None, None, 0.0, cont=True)[1]
        rg = ranges(kind, probe, names)
        init = dict(random_init=dist)
        if rng.random() < 0.3:
            init["states"] = {q: 0.0 for q in (names if rng.random() < 0.5 else [str(v) for v in rng.permutation(names)])}
        iv = None
        if rng.random() < 0.5:
            iv = []
            # the rows belong to the states in the order of the (given or default) initial states
            order = list(init["states"]) if "states" in init else list(probe.electrical_motor.initializer["states"])
            for q in order:
                r = rg[names.index(q)]
                lo, hi = r or (-1.0, 1.0)
                a, b = sorted(rng.uniform(1.3 * lo - 0.1, 1.3 * hi + 0.1, 2))
                if min(hi, b) - max(lo, a) < 0.05 * (hi - lo):
                    a, b = lo, 0.5 * (lo + hi)
                iv.append([float(a), float(b)])
            init["interval"] = iv if rng.random() < 0.5 else np.array(iv)
            iv = [iv[order.index(q)] for q in names]
        mu = sg = None
        if dist != "uniform":
            m = rng.random()
            mu = None if m < 0.3 else 0.0 if m < 0.6 else float(rng.uniform(-1, 1))
            sg = None if rng.random() < 0.3 else float(rng.uniform(0.5, 30))
            init["random_params"] = (mu, sg)
        w = 0.0
        lk = None
        lmu = lsg = liv = None
        if rng.random() < 0.6 and kind not in S.IND:
            ld = str(rng.choice(["uniform", "normal", "gaussian"]))
            lk = dict(kind=str(rng.choice(["const", "poly"])), random_init=ld)
            if rng.random() < 0.5:
                a = float(rng.uniform(0, 0.5) * S.W_NOM[kind])
                liv = [[a, float(a + rng.uniform(0.1, 0.5) * S.W_NOM[kind])]]
                lk["interval"] = liv
            if ld != "uniform":
                lmu = None if rng.random() < 0.5 else 0.0 if rng.random() < 0.5 else float(rng.uniform(0, 100))
                lsg = None if rng.random() < 0.3 else float(rng.uniform(1, 100))
                lk["random_params"] = (lmu, lsg)
        before = (E.bits(init.get("interval")), str(init.get("states")), str(lk))
        s, sysm, solver = build(np.random.default_rng([*seed, c]), kind, init, lk, w, cont=True)
        # a fresh set of ranges: the parameters are the same as those of the probe system
        sysm.seed(np.random.SeedSequence(int(rng.integers(2**31))))
        ys = []
        act = S.Actions(sysm.action_space, rng)
        for r in range(resets):
            o = sysm.reset()
            y = np.array(solver.y, float)
            res.count("uniform" if dist == "uniform" else "normal")
            observed(res, kind, sysm, y, o)
            ys.append(y)
            for _ in range(int(rng.integers(0, 3))):
                sysm.simulate(act())
        ys = np.array(ys)
        res.check(before == (E.bits(init.get("interval")), str(init.get("states")), str(lk)), "argument-modified", f"{init} {lk}")
        fl = [i for i in range(len(names)) if rg[i] is None]
        if len(fl) == 2:
            psi = ys[:, 1 + fl[0]] + 1j * ys[:, 1 + fl[1]]
            if np.all(np.abs(psi) > 1e-9):
                res.count("flux_angles")
                ang = np.angle(psi)
                res.check(len(np.unique(np.round(ang, 9))) > 0.9 * len(ang), f"flux-angle-repeated:{kind}", lambda: f"{kind} {init}: only {len(np.unique(np.round(ang, 9)))} different initial flux angles in {len(ang)} episodes")
        for i, q in enumerate(names):
            x = ys[:, 1 + i]
            if rg[i] is None:
                lim = sysm.electrical_motor.motor_parameter["l_m"] * sysm.electrical_motor.nominal_values["i"] * (1 + 1e-9)
                if iv is None:
                    res.check(np.all(np.abs(x) <= lim + 1e-9), f"flux-bound:{kind}", lambda: f"initial flux {np.abs(x).max()} exceeds {lim}")
                continue
            lo, hi = rg[i]
            if iv is not None:
                lo, hi = max(lo, iv[i][0]), min(hi, iv[i][1])
            case = (kind, dist, iv is None, q)
            eps = 1e-9 * (abs(lo) + abs(hi))
            res.check(np.all((x >= lo - eps) & (x <= hi + eps)), f"bounds:{kind}:{q}", lambda: f"{kind} {q}: {x.min()} .. {x.max()} outside of ({lo}, {hi}) init {init}", case=case)
            if hi - lo < 1e-9:
                continue
            if dist == "uniform":
                u = (x - lo) / (hi - lo)
            else:
                m_ = mu if mu is not None else (lo + hi) / 2
                s_ = sg or 1.0
                if min(abs(lo - m_), abs(hi - m_)) / s_ > 6 and not lo <= m_ <= hi:
                    continue
                u = truncnorm_cdf(x, lo, hi, m_, s_)
            d = ks(np.clip(u, 0, 1))
            res.count("ks")
            res.check(d < 3.6, f"distribution:{dist}", lambda: f"{kind} {q} in ({lo}, {hi}) {dist} {init.get('random_params')}: KS {d}, mean {x.mean()} std {x.std()}", case=case)
            res.check(len(np.unique(np.round(x, 12))) > 0.97 * len(x) or hi - lo < 1e-6, "repeated", lambda: f"{kind} {q}: {len(np.unique(x))} different initial values in {len(x)} episodes")
            for j in range(i):
                if rg[j] is None:
                    continue
                z = ys[:, 1 + j]
                if z.std() > 0 and x.std() > 0:
                    r = float(np.corrcoef(x, z)[0, 1])
                    res.check(abs(r) * math.sqrt(len(x)) < 6.5 and abs(r) < 0.999, "correlated", lambda: f"{kind}: {q} and {names[j]} are correlated by {r}")
        wv = ys[:, 0]
        if lk is None:
            res.check(np.all(wv == 0.0), "load-constant", lambda: f"{wv}")
        else:
            pw = sysm.state_positions["omega"]
            hi = float(sysm.nominal_state[pw])
            lo = hi * float(sysm.state_space.low[pw])
            if liv:
                lo, hi = max(lo, liv[0][0]), min(hi, liv[0][1])
            if hi - lo < 1e-6:
                continue
            res.count("load_random", len(wv))
            eps = 1e-9 * (abs(lo) + abs(hi))
            res.check(np.all((wv >= lo - eps) & (wv <= hi + eps)), "load-bounds", lambda: f"{kind} omega {wv.min()}..{wv.max()} outside of ({lo},{hi}) {lk}", case=(kind, "load", lk["random_init"], liv is None))
            if lk["random_init"] == "uniform":
                u = (wv - lo) / (hi - lo)
            else:
                m_, s_ = (lmu if lmu is not None else (lo + hi) / 2), (lsg or 1.0)
                if min(abs(lo - m_), abs(hi - m_)) / s_ > 6 and not lo <= m_ <= hi:
                    continue
                u = truncnorm_cdf(wv, lo, hi, m_, s_)
            res.check(ks(np.clip(u, 0, 1)) < 3.6, f"load-distribution:{lk['random_init']}", lambda: f"{kind} omega in ({lo},{hi}) {lk}: mean {wv.mean()} std {wv.std()}")
        if c == 0:
            res.sample(dict(kind=kind, init=str(init), load=str(lk), first=ys[0]))


def constant(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = S.KINDS[c % 9]
        names = ELECTRIC[kind]
        probe = build(np.random.default_rng([*seed, c]), kind, None, None, 0.0, cont=True)[1]
        rg = [r or (0.0, 0.0) for r in ranges(kind, probe, names)]
        sub = [q for q in names if rng.random() < 0.6 and not q.startswith("psi")] or [names[0]]
        sub = [str(q) for q in rng.permutation(sub)]
        st = {q: float(rng.uniform(*rg[names.index(q)])) for q in sub}
        edge = rng.random()
        if edge < 0.25:  # the bounds themselves are still inside
            q = str(rng.choice(sub))
            st[q] = float(rg[names.index(q)][1 if edge < 0.15 else 0])
        bad = None
        m = rng.random()
        if m < 0.25:
            q = str(rng.choice(sub))
            lo, hi = rg[names.index(q)]
            st[q] = float(hi + (hi - lo) * rng.uniform(0.01, 1)) if rng.random() < 0.5 else float(lo - (hi - lo) * rng.uniform(0.01, 1))
            bad = q
        nomw = float(probe.nominal_state[probe.state_positions["omega"]])
        roww = float(probe.state_space.low[probe.state_positions["omega"]])
        w = float(rng.uniform(nomw * roww, nomw))
        if edge < 0.15:
            w = nomw
            res.count("at_bound")
        if kind in S.IND:
            w = 0.0
        badw = False
        if m > 0.85:
            w, badw = float(nomw * rng.uniform(1.01, 2)), True
        lk = dict(kind=str(rng.choice(["const", "poly"])), states=dict(omega=w))
        given = dict(st)
        init = dict(states=st)
        if bad is None and rng.random() < 0.15:  # no initial states at all: all start at zero
            st = given = {}
            init = dict(states=None if rng.random() < 0.5 else {})
            res.count("unspecified")
        s, sysm, solver = build(np.random.default_rng([*seed, c]), kind, init, lk, 0.0, cont=True)
        if bad or badw:
            res.count("refused")
            try:
                sysm.reset()
                ok = False
            except Exception:  # documented: initial values have to be within the nominal boundaries
                ok = True
            res.check(ok, "infeasible-accepted:" + ("load" if badw else "motor"), lambda: f"{kind}: initial states {st}, omega {w} accepted (ranges {list(zip(names, rg))}, omega nominal {nomw})", case=(kind, "refused", badw))
            continue
        act = S.Actions(sysm.action_space, rng)
        for r in range(4):
            o = sysm.reset()
            y = np.array(solver.y, float)
            res.count("constant")
            for i, q in enumerate(names):
                if q not in st:
                    res.count("default_states")
                res.close(y[1 + i], st.get(q, 0.0), f"constant:{kind}:{q}", f"{kind} initial {q} with {st}", rtol=1e-12, atol=1e-12, case=(kind, q, q in st))
            res.close(y[0], w, f"constant:omega:{lk['kind']}", f"{kind} initial speed", rtol=1e-12, atol=1e-12, case=(kind, "omega", lk["kind"]))
            if lk["kind"] == "const":
                res.close(sysm.mechanical_load.omega_fixed, w, "omega-fixed", f"{kind}: declared constant speed", rtol=1e-12, atol=1e-12)
            observed(res, kind, sysm, y, o)
            for _ in range(int(rng.integers(0, 4))):
                sysm.simulate(act())
        res.check(given == st, "argument-modified", lambda: f"{st}")
