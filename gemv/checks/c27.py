"""C27: references follow their configured signal laws within their margins."""
import math

import numpy as np

from .. import systems as S
from .. import zoo
from .c19 import ks, phi

PROPERTY = "C27"
RULE = ("reference traces of every generator on real drives, segmented into sub-episodes: margin (all generators, all kinds of margins), law of every segment fitted"
        " (amplitude, frequency, offset, levels, slopes, increments) and compared with the configured ranges, distributions of the drawn parameters,"
        " lengths of sub-episodes and super-episodes, choice probabilities, continuity of random walks, the first reference of an episode; distinct = generator x margin kind x parameter")
ASSUMPTIONS = ["the first super-episode of a switched reference may contain the value of the reset in addition",
               "distribution tests at a false alarm probability below 1e-10"]
REQUIRE = {"margin": 20000, "Sinus": 300, "Triangle": 300, "Sawtooth": 300, "Step": 300, "Wiener": 300, "Laplace": 300, "Const": 40, "ks": 60, "lengths": 1500,
           "super_lengths": 1500, "choices": 1500, "first": 500, "env_steps": 3000, "mixed": 300, "forms": 200, "int_lengths": 150}

WAVES = ("Sinus", "Triangle", "Sawtooth", "Step")


def jobs(tier, seed):
    q = tier == "quick"
    n, r = (8, 1) if q else (48, 4)
    js = []
    for j in range(n):
        js += [("margins", dict(seed=[seed, j], n=40 * r)), ("waves", dict(seed=[seed, 100 + j], n=16 * r)), ("walks", dict(seed=[seed, 200 + j], n=12 * r)),
               ("lengths", dict(seed=[seed, 300 + j], n=12 * r)), ("switched", dict(seed=[seed, 400 + j], n=10 * r)), ("envs", dict(seed=[seed, 500 + j], n=5 * r)), ("forms", dict(seed=[seed, 600 + j], n=10 * r))]
    return js


def drive(rng, sym=None):
    """physical system, referenced state -> with the declared bounds of that state"""
    kind = str(rng.choice(["PMSM", "SynRM", "PermExDc", "SCIM", "EESM", "ExtExDc"] if sym or rng.random() < 0.6 else ["SeriesDc", "ShuntDc"]))
    s = S.random_spec(rng, kind=kind, cont=True, loads=("const",), supplies=("ideal",), til_prob=0, scale=False)
    s["dq"] = False
    s["conv"] = [v if v == "B6" else "4QC" if sym or rng.random() < 0.5 else "1QC" for v in s["conv"]]
    s["init"] = None
    s["load"]["w"] = 0.0
    s["tau"] = float(rng.choice([5e-5, 1e-4, 1e-3]))
    ps = S.mk_system(s)[0]
    names = [n for n in ps.state_names if n != "epsilon" and not n.startswith("u_sup")]
    names = [n for n in names if (ps.state_space.low[ps.state_positions[n]] == -1.0) or not sym]
    st = str(rng.choice(names))
    return kind, ps, st


def margin_of(ps, st, m):
    p = ps.state_positions[st]
    lo, hi = float(ps.state_space.low[p]), float(ps.state_space.high[p])
    if m is None:
        r = float(ps.nominal_state[p] / ps.limits[p])
        return r * lo, r * hi
    if isinstance(m, (int, float)):
        return m * lo, m * hi
    return m[0] * lo, m[1] * hi


def start(gen, ps, rng):
    gen.set_modules(ps)
    if hasattr(gen, "seed"):
        gen.seed(np.random.SeedSequence(int(rng.integers(2**31))))
    return gen


def trace(gen, ps, n, state=None):
    """reference at the reset, observations"""
    state = np.zeros(len(ps.state_names)) if state is None else state
    ref, obs, _ = gen.reset(state)
    out = [np.array(obs, float)]
    for _ in range(n - 1):
        gen.get_reference(state)
        out.append(np.array(gen.get_reference_observation(state), float))
    return np.array(ref, float), np.array(out)


def uniform(res, x, lo, hi, key, what, case):
    if hi - lo < 1e-9 or len(x) < 25:
        return
    res.count("ks")
    u = (np.asarray(x) - lo) / (hi - lo)
    res.check(ks(np.clip(u, 0, 1)) < 3.6, key, lambda: f"{what}: not uniform in ({lo}, {hi}): n {len(x)} min {np.min(x)} max {np.max(x)} mean {np.mean(x)}", case=case)


def margins(res, seed, n):
    rng = np.random.default_rng(seed)
    for _ in range(n):
        kind, ps, st = drive(rng)
        r = zoo.random_ref(rng, [st])
        given = zoo.mk_ref(r)
        gen = start(given, ps, rng)
        mk = "const" if r["cls"] == "Const" else type(r["margin"]).__name__
        m = (r["value"], r["value"]) if r["cls"] == "Const" else margin_of(ps, st, tuple(r["margin"]) if isinstance(r.get("margin"), list) else r["margin"])
        res.check(list(gen.reference_names) == [st], f"names:{r['cls']}", f"{gen.reference_names}")
        res.close([gen.reference_space.low[0], gen.reference_space.high[0]], m, f"space:{r['cls']}:{mk}", f"{r} on {kind}: declared range", rtol=1e-6, case=(r["cls"], mk, st))
        for e in range(2):
            ref, x = trace(gen, ps, int(rng.integers(20, 150)))
            eps = 1e-12
            res.count("margin", len(x))
            ok = x.shape[1] == 1 and np.all((x >= m[0] - eps) & (x <= m[1] + eps))
            res.check(ok, f"margin:{r['cls']}", lambda: f"{kind} {r}: references in [{x.min()}, {x.max()}] margin {m}", case=(r["cls"], mk, kind, st))
            if r["cls"] == "Const":
                res.count("Const")
                res.check(np.all(x == r["value"]), "law:Const", f"{r} {x[:5]}")
            if r["cls"] in WAVES and "amp" in r:
                # never further from each other than the widest wave allowed around any allowed offset
                a = min(r["amp"][1], (m[1] - m[0]) / 2)
                off = r.get("off", m)
                lo, hi = min(max(off[0], m[0]), m[1]) - a, max(min(off[1], m[1]), m[0]) + a
                lo, hi = min(lo, m[1] - 2 * a), max(hi, m[0] + 2 * a)
                res.check(np.all((x >= lo - 1e-9) & (x <= hi + 1e-9)), f"reach:{r['cls']}", lambda: f"{kind} {r}: references in [{x.min()}, {x.max()}] but at most [{lo}, {hi}]")


def eff(rng_, lo, hi):
    return min(max(rng_[0], lo), hi), min(max(rng_[1], lo), hi)


def fit_sinus(x, tau):
    """amplitude, frequency, offset of an (unclipped) sine"""
    s = x[2:] + x[:-2]
    A = np.stack([x[1:-1], np.ones(len(s))], 1)
    (c, d), *_ = np.linalg.lstsq(A, s, rcond=None)
    if abs(c) >= 2 - 1e-9:
        return None
    w = math.acos(c / 2)
    off = d / (2 - c)
    k = np.arange(len(x))
    B = np.stack([np.sin(w * k), np.cos(w * k), np.ones(len(k))], 1)
    # refine the frequency by Gauss-Newton on the exact model
    for _ in range(8):
        p, *_ = np.linalg.lstsq(B, x, rcond=None)
        J = np.concatenate([B, ((p[0] * np.cos(w * k) - p[1] * np.sin(w * k)) * k)[:, None]], 1)
        q, *_ = np.linalg.lstsq(J, x - B @ p, rcond=None)
        w += q[3]
        B = np.stack([np.sin(w * k), np.cos(w * k), np.ones(len(k))], 1)
    p, *_ = np.linalg.lstsq(B, x, rcond=None)
    r = np.max(np.abs(B @ p - x))
    return math.hypot(p[0], p[1]), w / (2 * math.pi * tau), p[2], math.atan2(p[1], p[0]), r


def fit_step(x, tau, period_max):
    v = np.unique(np.round(x, 12))
    v = np.array([a for i, a in enumerate(v) if i == 0 or a - v[i - 1] > 1e-9])
    if len(v) == 1:
        return None
    lo, hi = v[0], v[-1]
    extra = [a for a in v[1:-1] if abs(a - (lo + hi) / 2) > 1e-9]  # the sign of an exact zero
    falls = np.flatnonzero((x[1:] < (lo + hi) / 2 - 1e-9) & (x[:-1] >= (lo + hi) / 2 - 1e-9)) + 1
    falls = falls[falls > period_max + 2]
    f = err = None
    if len(falls) > 2:
        sp = np.diff(falls)
        hi_ = x > (lo + hi) / 2
        runs = np.diff(np.concatenate([[0], np.flatnonzero(hi_[1:] != hi_[:-1]) + 1, [len(x)]]))[1:-1]
        if runs.min() > 2:  # narrower pulses may fall between two samples
            if sp.max() - sp.min() > 2:
                extra.append(("edges", falls.tolist()))
            f = 1 / (sp.mean() * tau)
            err = 3.0 / (len(sp) * sp.mean())
    return (hi - lo) / 2, f, (hi + lo) / 2, err, extra


def fit_saw(x, tau):
    """slope, jumps -> amplitude, frequency, offset (+- half a slope step)"""
    d = np.diff(x)
    sl = float(np.median(d))
    jump = d < 0
    if sl <= 0:
        return None
    rest = np.abs(d[~jump] - sl).max()
    js = d[jump]
    if len(js) == 0:
        return dict(slope=sl / tau, rest=rest)
    amp = (sl - js) / 2
    a = float(amp.mean())
    spread = float(np.ptp(amp))
    before = x[:-1][jump]
    return dict(slope=sl / tau, rest=rest, amp=a, freq=sl / tau / (2 * a), top=(float(before.max()), float(before.min() + sl)), spread=spread)


def fit_tri(x):
    """maximal runs of constant slope -> (rising slope, falling slope, tops, bottoms) per sample"""
    d = np.diff(x)
    runs, i = [], 0
    while i < len(d):
        j = i
        while j + 1 < len(d) and abs(d[j + 1] - d[i]) < 1e-9 + 1e-7 * abs(d[i]):
            j += 1
        if j - i >= 2:
            runs.append((i, j + 1, float(np.mean(d[i:j + 1]))))
        i = j + 1
    up = [r[2] for r in runs if r[2] > 1e-9]
    dn = [r[2] for r in runs if r[2] < -1e-9]
    tops, bots = [], []
    for (a0, a1, s0), (b0, b1, s1) in zip(runs, runs[1:]):
        if s0 * s1 < 0 and b0 - a1 <= 2:
            k = (x[b0] - s1 * b0 - x[a0] + s0 * a0) / (s0 - s1)
            (tops if s0 > 0 else bots).append((k, x[a0] + s0 * (k - a0)))
    return up, dn, tops, bots, runs


def waves(res, seed, n):
    rng = np.random.default_rng(seed)
    pool = {}
    for c in range(n):
        cls = WAVES[c % 4]
        kind, ps, st = drive(rng, sym=rng.random() < 0.6)
        tau = float(ps.tau)
        m = None if rng.random() < 0.3 else float(rng.uniform(0.2, 1.0)) if rng.random() < 0.5 else (float(rng.uniform(0.2, 1.0)), float(rng.uniform(0.2, 1.0)))
        mm = margin_of(ps, st, m)
        M = (mm[1] - mm[0]) / 2
        C = (mm[1] + mm[0]) / 2
        N = int(rng.integers(150, 400))
        # a period has 20..N/3 samples
        p_hi = N / 3.2
        p_lo = rng.uniform(20, p_hi * 0.9) if rng.random() < 0.7 else 20
        f_lo, f_hi = 1 / (p_hi * tau), 1 / (p_lo * tau)
        r = dict(cls=cls, state=st, len=[N, N], margin=list(m) if isinstance(m, tuple) else m, freq=[f_lo, f_hi])
        if rng.random() < 0.7:
            a = rng.uniform(0.05, 0.5) * M
            r["amp"] = [float(a), float(a + rng.uniform(0.0, 1.0) * M)]
        if rng.random() < 0.7:
            a = C + rng.uniform(-0.9, 0.4) * M
            r["off"] = [float(a), float(a + rng.uniform(0.0, 0.6) * M)]
        gen = start(zoo.mk_ref(r), ps, rng)
        ar = eff(r.get("amp", (0, math.inf)), 0.0, M)
        orange = eff(r.get("off", (-math.inf, math.inf)), *mm)
        segs = 12
        amps, offs, freqs = [], [], []
        for e in range(3):
            _, tr = trace(gen, ps, N * segs + int(rng.integers(0, N)))
            tr = tr[:, 0]
            for k in range(segs):
                x = tr[k * N:(k + 1) * N]
                what = lambda t: (lambda: f"{kind} {r} segment {k}: {t}")
                case = (cls, type(m).__name__, "amp" in r, "off" in r)
                A = f = O = None
                tolf, tola, tolo = 1e-3, 1e-6, 1e-6
                if cls == "Sinus":
                    if np.ptp(x) < 1e-3 * M:
                        continue
                    z = fit_sinus(x, tau)
                    if not res.check(z is not None and z[4] < 1e-8 + 1e-6 * np.ptp(x), "law:Sinus", what(f"no sine: {z} {x[:6]}"), case=case):
                        continue
                    A, f, O = z[:3]
                    pool.setdefault("phase", []).append(z[3] / (2 * math.pi) + 0.5)
                elif cls == "Step":
                    z = fit_step(x, tau, p_hi)
                    if N > 1.5 * p_hi and ar[0] > 1e-6:  # at least one whole period: both levels appear unless the duty ratio is extreme
                        pool.setdefault("one_level", []).append(z is None)
                    if z is None:
                        continue
                    A, f, O, err, extra = z
                    if not res.check(not extra, "law:Step", what(f"levels or edges {extra[:4]} of a step reference {x[:6]}"), case=case):
                        continue
                    tolf = err or 0
                elif cls == "Sawtooth":
                    if np.ptp(x) < 1e-3 * M:
                        continue
                    z = fit_saw(x, tau)
                    if not res.check(z is not None and z["rest"] < 1e-8 and z.get("spread", 0) < 1e-8, "law:Sawtooth", what(f"{z} {x[:6]}"), case=case):
                        continue
                    if "amp" not in z:
                        continue
                    A, f = z["amp"], z["freq"]
                    # the top lies between the last value before a jump and its continuation
                    lo, hi = z["top"]
                    res.check(lo <= hi + 1e-9, "law:Sawtooth-period", what(z))
                    O = (lo + hi) / 2 - A
                    tolo = abs(hi - lo) / 2 + 1e-6
                else:
                    if np.ptp(x) < 1e-3 * M:
                        continue
                    up, dn, tops, bots, runs = fit_tri(x)
                    if len(up) < 1 or len(dn) < 1 or not tops or not bots:
                        res.count("triangle_steep")  # an edge of less than three samples
                        continue
                    ok = np.ptp(up) < 1e-7 and np.ptp(dn) < 1e-7 and np.ptp([t[1] for t in tops]) < 1e-6 and np.ptp([t[1] for t in bots]) < 1e-6
                    if not res.check(ok, "law:Triangle", what(f"slopes {up} {dn} tops {tops} bottoms {bots}"), case=case):
                        continue
                    A = (tops[0][1] - bots[0][1]) / 2
                    O = (tops[0][1] + bots[0][1]) / 2
                    per = 2 * A / up[0] + 2 * A / -dn[0]
                    f = 1 / (per * tau)
                    for q in (tops, bots):
                        if len(q) > 1:
                            n_ = np.diff([t[0] for t in q]) / per  # short edges are not always detected
                            res.check(np.all(np.abs(n_ - np.round(n_)) < 1e-4) and np.all(n_ > 0.5), "law:Triangle-period", what(f"{q} period {per}"))
                    w = (2 * A / up[0]) / per
                    pool.setdefault("width", []).append(w)
                res.count(cls)
                res.check(ar[0] - tola <= A <= ar[1] + tola, f"amplitude:{cls}", what(f"amplitude {A} not in {ar}"), case=case + ("amp",))
                if f is not None:
                    res.check(f_lo * (1 - tolf) - 1e-9 <= f <= f_hi * (1 + tolf) + 1e-9, f"frequency:{cls}", what(f"frequency {f} not in ({f_lo}, {f_hi})"), case=case + ("freq",))
                    freqs.append(f)
                ol, oh = eff(orange, mm[0] + A, mm[1] - A)
                res.check(ol - tolo <= O <= oh + tolo, f"offset:{cls}", what(f"offset {O} not in ({ol}, {oh}), amplitude {A}"), case=case + ("off",))
                amps.append(A)
                if oh - ol > 50 * tolo:
                    offs.append((O - ol) / (oh - ol))
        if cls in ("Sinus", "Step"):  # the fit of the others loses segments depending on their parameters
            if ar[0] > 1e-2 * M:
                uniform(res, amps, *ar, f"amplitude-distribution:{cls}", f"{r} amplitudes", (cls, "amp-ks"))
                uniform(res, offs, 0, 1, f"offset-distribution:{cls}", f"{r} offsets", (cls, "off-ks"))
        if cls in ("Sinus", "Triangle"):
            uniform(res, freqs, f_lo, f_hi, f"frequency-distribution:{cls}", f"{r} frequencies", (cls, "freq-ks"))
        if c < 2:
            res.sample(dict(cfg=r, amplitudes=amps[:3], offsets=offs[:3], frequencies=freqs[:3]))
    one = pool.get("one_level", [])
    if len(one) >= 30:
        res.count("step_levels", len(one))
        res.check(np.mean(one) < 0.2, "law:Step-levels", lambda: f"{sum(one)} of {len(one)} step references over more than one period stay at one level", case=("step-levels",))
    uniform(res, pool.get("phase", []), 0, 1, "phase-distribution", "phase of sines", ("phase",))


def walks(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cls = ("Wiener", "Laplace")[c % 2]
        kind, ps, st = drive(rng, sym=rng.random() < 0.7)
        m = None if rng.random() < 0.3 else float(rng.uniform(0.3, 1.0))
        lo, hi = margin_of(ps, st, m)
        if hi - lo < 0.1:
            continue
        deg = rng.random() < 0.4
        N = int(rng.integers(60, 160))
        s_lo = 10 ** rng.uniform(-6, -4.5) if rng.random() < 0.8 else 10 ** rng.uniform(-3, -1)
        s_hi = s_lo if deg else s_lo * 10 ** rng.uniform(0.5, 1.5)
        r = dict(cls=cls, state=st, len=[N, N], margin=m, sigma=[s_lo, s_hi])
        ini = None
        if cls == "Wiener" and rng.random() < 0.5:
            a = rng.uniform(lo, lo + 0.6 * (hi - lo))
            ini = r["initial"] = [float(a), float(a + rng.uniform(0.05, 0.4) * (hi - lo))]
        gen = start(zoo.mk_ref(r), ps, rng)
        sig, z, first = [], [], []
        tail = 9.0 if cls == "Wiener" else 45.0
        for e in range(40):
            segs = int(rng.integers(1, 6))
            ref, tr = trace(gen, ps, segs * N + int(rng.integers(0, N)))
            x = tr[:, 0]
            res.count("margin", len(x))
            p = ps.state_positions[st]
            x0 = ref[p]
            res.check(np.all(np.delete(ref, p) == 0), "other-references", f"{ref}")
            first.append(x0)
            res.count("first")
            allx = np.concatenate([[x0], x])
            if cls == "Laplace" and lo <= 0 <= hi:
                res.check(abs(x0) < 1e-12, "initial:Laplace", lambda: f"{r}: the episode starts at {x0}")
            elif cls == "Wiener":
                i0, i1 = ini or (lo, hi)
                res.check(i0 - 1e-12 <= x0 <= i1 + 1e-12, "initial:Wiener", lambda: f"{r}: the episode starts at {x0}, initial range {(i0, i1)}")
            inside = lo <= x0 <= hi
            inc = np.diff(allx)
            if inside:
                res.check(np.all(np.abs(inc) <= tail * s_hi + 1e-12), f"increment:{cls}", lambda: f"{kind} {r}: increment {np.abs(inc).max()} at {np.argmax(np.abs(inc))}, sigma at most {s_hi}",
                          case=(cls, deg, type(m).__name__))
            for k in range(segs):
                y = allx[k * N:(k + 1) * N + 1]
                if np.any(y <= lo + 1e-12) or np.any(y >= hi - 1e-12) or not inside:
                    continue
                far = min(y.min() - lo, hi - y.max()) > tail * s_hi
                d = np.diff(y)
                sd = math.sqrt(np.mean(d * d)) if cls == "Wiener" else float(np.mean(np.abs(d)))
                if far:
                    res.count(cls)
                    tol = 7 / math.sqrt((2 if cls == "Wiener" else 1) * N)
                    res.check(s_lo * (1 - tol) <= sd <= s_hi * (1 + tol), f"sigma:{cls}", lambda: f"{kind} {r} segment {k}: deviation {sd} not in ({s_lo}, {s_hi})", case=(cls, "sigma", deg))
                    sig.append(math.log10(sd))
                    if deg:
                        z.append(d / s_lo)
        if z:
            z = np.concatenate(z)
            u = np.array([phi(v) for v in z]) if cls == "Wiener" else np.where(z < 0, 0.5 * np.exp(np.minimum(z, 0)), 1 - 0.5 * np.exp(-np.maximum(z, 0)))
            res.count("ks")
            res.check(ks(u) < 3.6, f"increments:{cls}", lambda: f"{r}: increments do not follow the law, mean {z.mean()} std {z.std()}", case=(cls, "law"))
            res.check(abs(np.corrcoef(z[1:], z[:-1])[0, 1]) * math.sqrt(len(z)) < 7, f"increments-correlated:{cls}", f"{r}")
        elif not deg and len(sig) > 40 and s_hi < 1e-3:
            uniform(res, sig, math.log10(s_lo), math.log10(s_hi), f"sigma-distribution:{cls}", f"{r} log10 sigma", (cls, "sigma-ks"))
        if cls == "Wiener":
            uniform(res, first, *(ini or (lo, hi)), "initial-distribution:Wiener", f"{r} first references", (cls, "first-ks", ini is None))


def flat(rng, cls, st, lens, off, margin=1.0):
    """a wave of amplitude zero: a new constant value (its offset) in each sub-episode"""
    return dict(cls=cls, state=st, len=list(lens), margin=margin, amp=[0.0, 0.0], off=list(off), freq=[1.0, 2.0])


def runs_of(x):
    """lengths and values of the constant pieces"""
    b = np.flatnonzero(np.abs(np.diff(x)) > 1e-12) + 1
    e = np.concatenate([[0], b, [len(x)]])
    return np.diff(e), x[e[:-1]]


def forms(res, seed, n):
    """equal configurations written in different ways give equal references; a length given as a number"""
    from gym_electric_motor import reference_generators as rg

    rng = np.random.default_rng(seed)
    for _ in range(n):
        kind, ps, st = drive(rng, sym=True)
        sd = np.random.SeedSequence(int(rng.integers(2**31)))

        def get(gen):
            gen.set_modules(ps)
            gen.seed(np.random.SeedSequence(sd.entropy))
            x = [trace(gen, ps, 60)[1] for _ in range(2)]
            return np.concatenate(x), gen.reference_space, list(gen.reference_names)

        def same(a, b, key, what):
            res.count("forms")
            res.check(a[0].shape == b[0].shape and np.array_equal(a[0], b[0]) and a[1] == b[1] and a[2] == b[2], key,
                      lambda: f"{kind} {what}: {a[0][:4].tolist()} {a[1]} {a[2]} != {b[0][:4].tolist()} {b[1]} {b[2]}", case=("form", key, r["cls"]))

        r = zoo.random_ref(rng, [st])
        while r["cls"] == "Const":
            r = zoo.random_ref(rng, [st])
        cls, kw = zoo.ref_args(r)
        others = [q for q in ps.state_names if q not in (st, "epsilon") and not q.startswith("u_sup")]
        q = str(rng.choice(others))
        # ranges and lengths as lists and arrays
        alt = {k: (list(v) if rng.random() < 0.5 else np.array(v)) if isinstance(v, tuple) and k in ("episode_lengths", "frequency_range", "sigma_range") else v for k, v in kw.items()}
        base = get(cls(**kw))
        same(get(cls(**alt)), base, f"ranges:{r['cls']}", f"{kw} / {alt}")
        # a multiple of one: instance, class with a list of arguments, a dictionary or keyword arguments
        one = get(rg.MultipleReferenceGenerator([cls(**kw)]))
        same(get(rg.MultipleReferenceGenerator([cls], sub_args=[kw])), one, "multiple:list", f"{cls.__name__} {kw}")
        same(get(rg.MultipleReferenceGenerator([cls], sub_args=dict(kw))), one, "multiple:dict", f"{cls.__name__} {kw}")
        same(get(rg.MultipleReferenceGenerator([cls], **kw)), one, "multiple:kwargs", f"{cls.__name__} {kw}")
        # mixed: an instance and a class
        o = dict(kw, reference_state=q)
        if "initial_range" not in o and "offset_range" not in o and "amplitude_range" not in o:
            two = get(rg.MultipleReferenceGenerator([cls(**kw), cls(**o)]))
            same(get(rg.MultipleReferenceGenerator((cls(**kw), cls), sub_args=({}, o))), two, "multiple:mixed", f"{cls.__name__} {kw} {q}")
        # a switched reference with a tuple of generators and its equal probabilities given or not
        L = int(rng.integers(3, 25))
        k2 = dict(kw, episode_lengths=(5, 9))
        sw = get(rg.SwitchedReferenceGenerator([cls(**kw), cls(**k2)], super_episode_length=(L, L + 1)))
        same(get(rg.SwitchedReferenceGenerator((cls(**kw), cls(**k2)), p=[0.5, 0.5], super_episode_length=(L, L + 1))), sw, "switched:p", f"{kw} {L}")
        same(get(rg.SwitchedReferenceGenerator((cls(**kw), cls(**k2)), super_episode_length=L)), sw, "switched:number", f"{kw} {L}")
        # a single number as the length of the sub-episodes
        L = int(rng.integers(1, 30))
        w = flat(rng, WAVES[int(rng.integers(4))], st, (L, L), (-0.9, 0.9))
        wc, wk = zoo.ref_args(w)
        gen = start(wc(**dict(wk, episode_lengths=L if rng.random() < 0.7 else float(L))), ps, rng)
        for e in range(2):
            _, x = trace(gen, ps, 12 * L + 3)
            l, _ = runs_of(x[:, 0])
            res.count("int_lengths", len(l))
            res.check(sum(l) == 12 * L + 3 and np.all(l[:-1] == L) and l[-1] == (3 % L or L), "length:number", lambda: f"{w['cls']} with episode_lengths {L}: constant pieces {l}", case=("int", w["cls"]))


def lengths(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind, ps, st = drive(rng, sym=True)
        cls = WAVES[c % 4]
        a = int(rng.integers(1, 60))
        b = a + int(rng.integers(0, 60))
        off = sorted(rng.uniform(-0.95, 0.95, 2))
        if off[1] - off[0] < 0.05:
            off = [-0.5, 0.6]
        multi = None
        r = flat(rng, cls, st, (a, b), off)
        col = 0
        if rng.random() < 0.4:  # as part of a multiple generator: every column has its own schedule
            others = [q for q in ps.state_names if q not in (st, "epsilon", "u_sup") and ps.state_space.low[ps.state_positions[q]] == -1.0]
            q = str(rng.choice(others))
            multi = flat(rng, str(rng.choice(WAVES)), q, (int(a + 3), int(b + 9)), (-0.99, 0.99))
            subs = [r, multi] if rng.random() < 0.5 else [multi, r]
            col = subs.index(r)
            gen = start(zoo.mk_ref(dict(cls="Multiple", subs=subs)), ps, rng)
        else:
            gen = start(zoo.mk_ref(r), ps, rng)
        ls, vs = [], []
        for e in range(3):
            _, x = trace(gen, ps, int((a + b) / 2 * 40) + 5)
            l, v = runs_of(x[:, col])
            ls += list(l[:-1])
            vs += list(v)
        ls, vs = np.array(ls), np.array(vs)
        res.count("lengths", len(ls))
        what = f"{kind} {r} {'in a multiple' if multi else ''}"
        res.check(np.all((ls >= a) & (ls <= max(a, b))), "sub-episode-length", lambda: f"{what}: lengths {ls.min()}..{ls.max()} configured {a}..{b}", case=(cls, "length", multi is not None, a == b))
        res.check(np.all((vs >= off[0] - 1e-9) & (vs <= off[1] + 1e-9)), f"flat-offset:{cls}", lambda: f"{what}: offsets {vs.min()}..{vs.max()} configured {off}")
        uniform(res, vs, *off, f"flat-offset-distribution:{cls}", f"{what} offsets", (cls, "flat-off"))
        if b - a >= 10:
            m = len(ls)
            mean = (a + b - 1) / 2
            dev = abs(ls.mean() - mean) * math.sqrt(m) / ((b - a) / math.sqrt(12))
            res.check(dev < 7 + 0.6 * math.sqrt(m) / (b - a) * math.sqrt(12), "length-distribution", lambda: f"{what}: mean length {ls.mean()} expected {mean} from {m} sub-episodes")
            res.check(len(np.unique(ls)) > 3, "length-constant", f"{what}: {np.unique(ls)}")


def switched(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind, ps, st = drive(rng, sym=True)
        k = int(rng.integers(2, 5))
        p = None if rng.random() < 0.3 else [float(v) for v in rng.dirichlet(np.ones(k) * 2)]
        pe = p or [1 / k] * k
        fixed = rng.random() < 0.5
        a = int(rng.integers(2, 25))
        b = a + 1 if fixed else a + int(rng.integers(2, 40))
        subs, bands = [], []
        for i in range(k):
            lo = -0.9 + 1.8 * i / k
            hi = lo + 1.2 / k
            bands.append((lo, hi))
            t = rng.random()
            if t < 0.35:
                subs.append(dict(cls="Const", state=st, value=float(rng.uniform(lo, hi))))
            elif t < 0.7:
                subs.append(flat(rng, str(rng.choice(WAVES)), st, (10000, 10001), (lo, hi)))
            else:  # waves with all their values inside of the band
                h = (hi - lo) / 2
                w = dict(cls=str(rng.choice(WAVES)), state=st, len=[10000, 10001], margin=1.0, amp=[0.1 * h, 0.5 * h], off=[lo + 0.5 * h, hi - 0.5 * h],
                         freq=[0.01 / ps.tau, 0.05 / ps.tau])
                subs.append(w)
        spec = dict(cls="Switched", subs=subs, p=p, len=[a, b])
        gen = zoo.mk_ref(spec)
        if fixed and rng.random() < 0.5:
            from gym_electric_motor.reference_generators import SwitchedReferenceGenerator

            gen = SwitchedReferenceGenerator([zoo.mk_ref(q) for q in subs], p=p, super_episode_length=a)
        start(gen, ps, rng)
        allflat = all(q["cls"] == "Const" or q["amp"] == [0.0, 0.0] for q in subs)
        novel = all(q["cls"] != "Const" for q in subs) and allflat  # every super-episode shows a new value
        counts = np.zeros(k)
        for e in range(3):
            T = int((a + b) / 2 * 60)
            _, tr = trace(gen, ps, T)
            x = tr[:, 0]
            sel = np.full(T, -1)
            for i, (lo, hi) in enumerate(bands):
                sel[(x >= lo - 1e-9) & (x <= hi + 1e-9)] = i
            res.count("mixed", T)
            res.check(np.all(sel >= 0), "foreign-value", lambda: f"{kind} {spec}: {x[sel < 0][:5]} belongs to no sub-generator", case=("mixed", tuple(q["cls"] for q in subs)))
            for i, q in enumerate(subs):
                if q["cls"] == "Const":
                    res.check(np.all(np.abs(x[sel == i] - q["value"]) < 1e-12), "const-value", lambda: f"{spec} {x[sel == i][:5]}")
            l, v = runs_of(sel.astype(float))
            if fixed:
                # switches occur at multiples of the super-episode length only (the first one may include the reset)
                sw = np.cumsum(l)[:-1]
                off = set((sw % a).tolist())
                res.count("super_lengths", len(sw))
                res.check(len(off) <= 1 and off <= {0, 1 % a}, "super-length:fixed", lambda: f"{spec}: switched at {sw[:10]}, super-episode length {a}", case=("fixed", p is None))
                o = max(off, default=1 % a)
                for j in range(0 if o == 0 else 1 - a if a > 1 else 0, T, a):
                    if j >= 0:
                        counts[sel[j]] += 1
            if novel:
                l, v = runs_of(x)
                res.count("super_lengths", len(l) - 1)
                ok = np.all((l[1:-1] >= a) & (l[1:-1] <= b)) and (len(l) < 2 or a <= l[0] <= b + 1)
                res.check(ok, "super-length:range", lambda: f"{spec}: super-episodes lasted {l}, configured {a}..{b}", case=("range", a, b))
                if not fixed:
                    for val in v:
                        counts[[i for i, (lo, hi) in enumerate(bands) if lo - 1e-9 <= val <= hi + 1e-9][0]] += 1
        tot = counts.sum()
        if tot > 50:
            res.count("choices", int(tot))
            exp = tot * np.array(pe)
            dev = np.abs(counts - exp) / np.sqrt(exp * (1 - np.array(pe)) + 1)
            res.check(np.all(dev < 8), "probabilities" + (":default" if p is None else ""), lambda: f"{spec}: {counts} choices, expected {exp}", case=("p", k, p is None))
    # random walks continue over the switch
    for c in range(n):
        kind, ps, st = drive(rng, sym=True)
        s = 10 ** rng.uniform(-5, -3.5)
        subs = [dict(cls=q, state=st, len=[7, 31], margin=0.9, sigma=[s, 2 * s]) for q in ("Wiener", "Laplace", "Wiener")]
        gen = start(zoo.mk_ref(dict(cls="Switched", subs=subs, p=None, len=[5, 20])), ps, rng)
        _, x = trace(gen, ps, 400)
        d = np.abs(np.diff(x[:, 0]))
        res.count("margin", 400)
        res.check(d.max() < 45 * 2 * s, "switch-discontinuous", lambda: f"random walk jumped by {d.max()} at {d.argmax()} (sigma {2 * s})", case=("walk-switch", kind))
        res.check(d.max() > 0, "walk-constant", "no increments")


def envs(res, seed, n):
    """the same inside of environments: observed references over episodes of different lengths"""
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps_

    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = str(rng.choice(["PMSM", "SynRM", "PermExDc", "SCIM", "ExtExDc"]))
        N = int(rng.integers(3, 40))
        st = dict(PMSM=["i_sd", "i_sq", "torque"], SynRM=["i_sd", "i_sq", "torque"], PermExDc=["i", "torque", "omega"], SCIM=["i_sd", "i_sq", "torque"], ExtExDc=["i_a", "torque", "omega"])[kind]
        q = [str(v) for v in rng.choice(st, size=2, replace=False)]
        r0 = flat(rng, str(rng.choice(WAVES)), q[0], (N, N), (-0.8, 0.8))
        s = 10 ** rng.uniform(-4, -2)
        r1 = dict(cls=str(rng.choice(["Wiener", "Laplace"])), state=q[1], len=[2 * N, 2 * N], margin=float(rng.uniform(0.4, 1)), sigma=[s, s])
        subs = [r0, r1] if rng.random() < 0.5 else [r1, r0]
        spec = dict(cls="Multiple", subs=subs)
        env = gem.make(f"{rng.choice(['Cont', 'Finite'])}-CC-{kind}-v0", reference_generator=zoo.mk_ref(spec), visualization=(), constraints=(), load=ps_.ConstantSpeedLoad(0.0),
                       ode_solver=ps_.EulerSolver()).unwrapped
        act = S.Actions(env.action_space, rng)
        m = margin_of(env.physical_system, q[1], r1["margin"])
        for e in range(8):
            (_, ref), _ = env.reset(seed=int(rng.integers(2**31))) if e == 0 else env.reset()
            tr = [ref]
            for _ in range(int(rng.integers(0, 5 * N))):
                (_, ref), _, _, _, _ = env.step(act())
                tr.append(ref)
            tr = np.array(tr)
            res.count("env_steps", len(tr))
            x, y = tr[:, subs.index(r0)], tr[:, subs.index(r1)]
            pieces = [x[i:i + N] for i in range(0, len(x), N)]
            res.check(all(np.ptp(v) < 1e-12 for v in pieces) and (len(pieces) < 2 or all(abs(a[0] - b[0]) > 1e-12 for a, b in zip(pieces, pieces[1:]))), "env:sub-episodes",
                      lambda: f"{kind} {spec}: pieces of {N} steps expected after each reset, got {runs_of(x)}", case=("env", kind, r0["cls"]))
            res.check(np.all(np.abs(x) <= 0.8 + 1e-9), "env:offset", lambda: f"{spec} {x}")
            res.check(np.all((y >= m[0] - 1e-12) & (y <= m[1] + 1e-12)), "env:margin", lambda: f"{spec} {y.min()} {y.max()} {m}")
            d = np.abs(np.diff(y))
            res.check(len(d) == 0 or d.max() < 45 * s, "env:increment", lambda: f"{spec} increment {d.max()}")
            if len(d) > 5:
                res.check(d.max() > 0, "env:walk-constant", f"{spec}")
