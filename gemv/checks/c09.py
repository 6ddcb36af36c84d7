"""C09: every simulated step obeys the documented drive equations (step-by-step lockstep with an independent twin)."""
import numpy as np

from .. import refsim as R
from .. import systems as S

PROPERTY = "C09"
RULE = ("random drives (motor, parameters, converter composition, interlocking, supply, load, control space, solver substeps,"
        " tau) driven by mixed actions; a case is one simulated step compared with the twin; distinct = motor x converter x"
        " interlocking x supply x load x substeps x number of switching segments with non-zero currents")
ASSUMPTIONS = ["the public solver property y exposes the ODE state [omega, electrical states]",
               "Euler integration with a user chosen number of substeps is part of the public contract"]
REQUIRE = {"steps": 5000, "segmented_steps": 200, "dq_steps": 100, "kinds": 9}


def jobs(tier, seed):
    n, m, st = (48, 30, 60) if tier == "quick" else (240, 90, 150)
    return [("lockstep", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]


def compare_obs(res, s, names, obs, ob, info, tag):
    kind = s["kind"]
    pos = {n: i for i, n in enumerate(names)}
    for n, v in ob.items():
        if n not in pos:
            continue
        o = obs[pos[n]]
        if n == "epsilon":
            ok = R.angle_close(o, v, 1e-7 * (1 + abs(info["eps_abs"]))) and -np.pi - 1e-9 <= o <= np.pi + 1e-9
            res.check(ok, f"{tag}:{kind}:epsilon", f"epsilon observed {o} expected {v} spec {s}")
            continue
        res.close(o, v, f"{tag}:{kind}:{n}", f"observed quantity {n} spec {s}", rtol=1e-7, atol=1e-7 * info["scale"].get(n[0], 1.0))
    sc_i = info["scale"]["i"]

    def near(a, b, sc):
        return np.all(np.abs(np.asarray(a) - np.asarray(b)) <= 1e-7 * (np.abs(b) + sc))

    if kind in S.SYNC:
        o = [obs[pos[n]] for n in ("i_a", "i_b", "i_c")]
        res.check(near(o, info["i_abc"], sc_i), f"{tag}:{kind}:i_abc", f"phase currents {o} expected {info['i_abc']} spec {s}")
    if kind in S.IND:
        sides = ["s"] + (["r"] if kind == "DFIM" else [])
        for side in sides:
            iab = info["i_s"] if side == "s" else info["i_r"]
            o = [obs[pos[f"i_{side}d"]], obs[pos[f"i_{side}q"]]]
            exp = R.ab2dq(iab, info["angles"][1])
            res.check(near(o, exp, sc_i), f"{tag}:{kind}:i_{side}dq", f"field oriented currents {o} expected {exp} spec {s}")
        o = [obs[pos["u_sd"]], obs[pos["u_sq"]]]
        cands = [R.ab2dq(info["u_s"], a) for a in info["angles"]]
        res.check(any(near(o, c, info["scale"]["u"]) for c in cands), f"{tag}:{kind}:u_sdq",
                  f"field oriented voltages {o} expected {cands} spec {s}")
        if kind == "DFIM":
            oabc = [obs[pos[n]] for n in ("i_ra", "i_rb", "i_rc")]
            exp = R.ab2abc(R.ab2dq(info["i_r"], info["eps_el"][1]))
            res.check(near(oabc, exp, sc_i), f"{tag}:{kind}:i_rabc", f"rotor phase currents {oabc} expected {exp} spec {s}")
            udq = [obs[pos["u_rd"]], obs[pos["u_rq"]]]
            ur = R.abc2ab([ob["u_ra"], ob["u_rb"], ob["u_rc"]])
            cands = [R.ab2dq(ur, a - e) for a in info["angles"] for e in info["eps_el"]]
            res.check(any(near(udq, c, info["scale"]["u"]) for c in cands), f"{tag}:{kind}:u_rdq",
                      f"rotor voltages {udq} expected {cands} spec {s}")


def ambiguous(s, x, tw):
    """The sign of a (practically) zero phase current decides a voltage: rounding may legitimately differ."""
    if s["kind"] in S.DC:
        return False
    m = x[1:]
    if s["kind"] in S.SYNC:
        i = list(R.dq2abc(m[:2], m[-1])) + ([m[2]] if s["kind"] == "EESM" else [])
    else:
        i = list(R.ab2abc(m[:2]))
        if s["kind"] == "DFIM":
            i += list(R.ab2abc(R.ab2dq(tw.motor.i_r(m), m[4])))
    return bool(np.min(np.abs(i)) < 1e-7 * S.I_NOM[s["kind"]])


def lockstep(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    seen = set()
    order = rng.permutation(len(S.KINDS))
    for c in range(n):
        kind = S.KINDS[order[c % len(order)]]
        s = S.random_spec(rng, kind=kind)
        if s["cont"]:  # interlocking of the averaged four quadrant converter: see C08 and known_findings.json
            s["til"] = [0.0 if cv == "4QC" else t for cv, t in zip(s["conv"], s["til"])]
        sysm, sol = S.mk_system(s)
        tw = S.mk_twin(s)
        names = list(sysm.state_names)
        act = S.Actions(sysm.action_space, rng)
        for episode in range(2):
            sysm.reset()
            tw.reset()
            for k in range(steps if episode == 0 else steps // 3):
                x = np.array(sol.y, dtype=float)
                a = act()
                amb = ambiguous(s, x, tw)
                obs = np.asarray(sysm.simulate(a)) * sysm.limits
                y = np.array(sol.y, dtype=float)
                y2, ob, info = tw.step(x, a)
                if not np.all(np.isfinite(y2)) or np.max(np.abs(y2)) > 1e7:
                    res.count("diverged_specs")
                    if not np.all(np.isfinite(y2)) or np.max(np.abs(y2)) > 1e12:
                        break
                segs = len(tw.conv.times) if not s["cont"] else 1
                if amb or (segs > 1 and s["kind"] not in S.DC and ambiguous(s, y, tw)):
                    res.count("skipped_ambiguous_sign")
                    continue
                inom = S.I_NOM[kind]
                info["scale"] = dict(i=inom + np.max(np.abs(y[1:3])), u=s["supply"]["u"], o=1.0 + abs(y[0]), t=1.0 + abs(ob["torque"]), e=1.0)
                info["eps_abs"] = y[-1]
                mag = np.abs(x) + np.abs(y2) + np.concatenate(([1.0], np.full(len(x) - 1, 0.01 * inom)))
                if kind in S.IND:
                    mag[3:5] = np.abs(x[3:5]) + np.abs(y2[3:5]) + 0.05
                err = np.abs(y - y2) / mag
                if kind in S.SYNC + S.IND:
                    d = y[-1] - y2[-1]
                    err[-1] = abs((d + np.pi) % (2 * np.pi) - np.pi) / mag[-1]
                bad = int(np.argmax(err))
                res.check(err[bad] <= 1e-8, f"dynamics:{kind}:{(['omega'] + R.MOTORS[kind].states)[bad]}",
                          lambda: f"step {k}: ODE state after the step {y.tolist()} expected {y2.tolist()} from {x.tolist()} action {a} spec {s}",
                          case=(kind, tuple(s["conv"]), s["cont"], max(s["til"]) > 0, s["supply"]["kind"], s["load"]["kind"],
                                s["dq"], s["solver"]["n"], segs) if np.max(np.abs(x[1:])) > 0 else None)
                compare_obs(res, s, names, obs, ob, info, "observed")
                res.count("steps")
                res.count("segmented_steps", int(segs > 1))
                res.count("dq_steps", int(s["dq"]))
                res.count("steps_" + kind)
                if kind not in seen:
                    seen.add(kind)
                if k == 0 and episode == 0:
                    res.sample(dict(spec=s, x=x, action=a, y=y, twin=y2))
    res.count("kinds", len(seen))
