"""C08: converters obey their switching table, interlocking, output range and power balance for every action history."""
import numpy as np

from .. import refsim as R

PROPERTY = "C08"
RULE = ("random converter compositions driven by long random histories (actions, currents of both signs and zero, step times,"
        " resets, step size changes); a case is one switching segment compared with the switching table; distinct = converter"
        " x interlocking x previous command x command x current signs x segment")
ASSUMPTIONS = ["segments are converted in time order, each at its end time, as the documented interface requires"]
REQUIRE = {"segments": 5000, "interlocking_segments": 300, "rejected_actions": 20, "clipped_actions": 100, "resets": 100}

N = {"1QC": 1, "2QC": 1, "4QC": 1, "B6": 3}


def jobs(tier, seed):
    n, m, st = (16, 60, 120) if tier == "quick" else (64, 250, 300)
    return [("history", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]


def build(rng):
    from gym_electric_motor import physical_systems as ps

    cont = bool(rng.integers(2))
    pre = "Cont" if cont else "Finite"
    name = {"1QC": "1QC", "2QC": "2QC", "4QC": "4QC", "B6": "B6C"}
    tau = float(rng.choice([1e-5, 1e-4, 3e-4]))
    r = rng.random()
    units = [str(rng.choice(["1QC", "2QC", "4QC", "B6"]))]
    if r < 0.5:
        units = [str(rng.choice(["1QC", "2QC", "4QC", "B6"])) for _ in range(rng.integers(2, 4))]
    # interlocking times of different converters are equal or clearly distinct (solver time tolerance: tau / 1000)
    grid = [0.0, 0.02, 0.1, 0.3] if rng.random() < 0.5 else [float(x) for x in 0.005 + np.sort(rng.choice(60, size=4, replace=False)) * 0.006]
    tils = [float(np.round(tau * rng.choice(grid), 13)) for _ in units]
    mode = "instances"
    if len(units) > 1 and rng.random() < 0.3:
        tils = [tils[0]] * len(units)
        mode = "classes"
    cls = [getattr(ps, pre + name[u]) for u in units]
    tau_arg = tau if rng.random() < 0.5 else float(rng.choice([1e-5, 1e-4]))
    if len(units) == 1:
        conv = cls[0](tau=tau_arg, interlocking_time=tils[0])
    elif mode == "instances":
        conv = getattr(ps, pre + "Multi")(subconverters=[c(tau=tau_arg, interlocking_time=t) for c, t in zip(cls, tils)])
    else:
        conv = getattr(ps, pre + "Multi")(subconverters=cls, tau=tau_arg, interlocking_time=tils[0])
    if tau_arg != tau:
        conv.tau = tau
    elif len(units) > 1:
        conv.tau = tau
    twin = (R.ContConv if cont else R.FiniteConv)(units, tils)
    return cont, units, tils, tau, conv, twin, mode


def old4qc(a, i, r):
    """the voltage of the averaged 4QC if the second half bridge is handed the current of the first one"""
    c = R.ContConv(["2QC"], [0.0])
    v0, _ = c._half(0.5 * (a + 1), i, r)
    v1, _ = c._half(-0.5 * (a - 1), i, r)
    return v0 - v1


def history(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cont, units, tils, tau, conv, twin, mode = build(rng)
        tag = ("Cont" if cont else "Finite") + ("-".join(units) if len(units) == 1 else "-Multi")
        desc = f"{'Cont' if cont else 'Finite'} {units} til={tils} tau={tau} {mode}"
        t = 0.0
        nph = sum(N[u] for u in units)
        conv.reset()
        twin.reset()
        space = conv.action_space
        prev = None
        for k in range(steps):
            if rng.random() < 0.03:
                u0 = conv.reset()
                twin.reset()
                t = 0.0
                prev = None
                res.count("resets")
                res.check(len(u0) == nph and np.all(np.asarray(u0) >= conv.voltages.low - 1e-12)
                          and np.all(np.asarray(u0) <= conv.voltages.high + 1e-12), f"reset:{tag}",
                          f"reset voltages {u0} of {desc}")
            a = space.sample() if k == 0 else None
            if cont:
                a = rng.uniform(space.low, space.high)
                if rng.random() < 0.25:
                    a = np.where(rng.random(a.shape) < 0.5, space.low, space.high)
                a_used = a
                if len(units) >= 1 and rng.random() < 0.1:  # beyond the action space: equals the clipped action
                    a_used = a + rng.normal(size=a.shape) * 2
                    a = np.clip(a_used, space.low, space.high)
                    res.count("clipped_actions")
            else:
                if hasattr(space, "nvec"):
                    a = np.array([rng.integers(m) for m in space.nvec])
                else:
                    a = int(rng.integers(space.n))
                a_used = a
                if rng.random() < 0.02:
                    if hasattr(space, "nvec"):
                        badv = np.array(a)
                        if rng.random() < 0.4:  # too short or too long
                            badv = badv[:-1] if rng.random() < 0.5 else np.append(badv, 0)
                        else:
                            badv[rng.integers(len(badv))] = 17
                    else:
                        badv = int(rng.choice([-1, space.n, 99]))
                    try:
                        conv2 = conv.set_action(badv, t)
                        res.violation(f"reject:{'multi-length' if np.shape(badv) != np.shape(a) else tag}", f"invalid action {badv} accepted by {desc} -> {conv2}")
                        return
                    except Exception:
                        res.count("rejected_actions")
                        conv.reset()
                        twin.reset()
                        t = 0.0
                        prev = None
            i = rng.normal(size=nph) * 10
            i[rng.random(nph) < 0.08] = 0.0
            times = list(conv.set_action(a_used, t))
            want = [t + x for x in twin.begin(a, tau)]
            ok = len(times) == len(want) and np.allclose(times, want, rtol=1e-9, atol=1e-13)
            res.check(ok, f"times:{tag}", f"switching times {times} expected {want}, action {a} after {prev} of {desc}")
            if not ok:
                break
            for j, te in enumerate(times):
                u = conv.convert(list(i), te)
                isup = float(np.sum(conv.i_sup(list(i))))
                uw, iw = twin.output(list(i), want[j] - t)
                res.count("segments")
                res.count("interlocking_segments", int(len(times) > 1 and j == 0) if not cont else int(max(tils) > 0))
                key = (tag, tuple(units) if len(units) > 1 else 0, max(tils) > 0, repr(prev) if not cont else 0,
                       repr(a) if not cont else 0, j, len(times), tuple(np.sign(i)) if nph <= 3 else 0)
                u = np.array([float(np.squeeze(v)) for v in u])
                good = u.shape == (nph,) and np.allclose(u, uw, atol=1e-9)
                res.case(key)
                if not good:
                    known = False
                    if cont and "4QC" in units and max(tils) > 0 and u.shape == (nph,):
                        alt, a0, k0 = list(uw), 0, 0
                        for un, ti in zip(units, tils):
                            if un == "4QC":
                                alt[k0] = old4qc(a[a0], i[k0], ti / tau)
                            k0 += N[un]
                            a0 += N[un]
                        known = np.allclose(u, alt, atol=1e-9)
                    res.violation("cont4qc-interlocking-cancels" if known else f"voltage:{tag}",
                                  f"voltages {u} expected {uw}, action {a} after {prev}, i={i}, segment {j} of {desc}")
                res.close(isup, iw, f"supply-current:{tag}", f"supply current action {a} after {prev} i={i} seg {j} of {desc}",
                          rtol=1e-9, atol=1e-9)
                lo, hi = conv.voltages.low, conv.voltages.high
                if u.shape == (nph,):
                    res.check(np.all(u >= lo - 1e-9) and np.all(u <= hi + 1e-9), f"range:{tag}",
                              f"voltages {u} outside the declared {conv.voltages} of {desc}")
                    if max(tils) == 0:
                        # energy balance of lossless switching: supply power = output power (zero-sum part for B6)
                        p, k0, valid = 0.0, 0, True
                        for un in units:
                            if un == "B6":
                                p += sum((u[k0 + q] + 0.5) * i[k0 + q] for q in range(3))
                            else:
                                p += u[k0] * i[k0]
                                if un == "1QC" and i[k0] < 0:
                                    valid = False
                            k0 += N[un]
                        if valid:
                            res.close(isup, p, f"power:{tag}", f"power balance of {desc} action {a} i={i}", 1e-9, 1e-9)
                            res.count("power_balances")
                # the current changes between the segments
                i = i + rng.normal(size=nph) * (3.0 if rng.random() < 0.5 else 0.0)
                if j == 0:
                    res.sample(dict(converter=desc, action=a, i=i, u=u, i_sup=isup))
            prev = a
            t += tau
