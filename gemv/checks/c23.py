"""C23: tuned controllers return admissible actions, keep their references limited and restart cleanly."""
import gymnasium
import numpy as np

from .. import ctrl as K

PROPERTY = "C23"
RULE = ("tuned controllers for random motors, tasks, action types, base controllers, parameters, sampling times, margins: (loop) closed loops over several"
        " episodes and (hostile) random / corner / out-of-limit observations and references, each action and each intermediate reference checked;"
        " (restart) an arbitrary history followed by reset() must give the same actions as a freshly made controller, also with a second controller"
        " running interleaved; (windup) constant saturation of different length must leave the same state; (episodes) control_environment;"
        " distinct = motor x task x action type x base controllers x converter")
ASSUMPTIONS = ["three-phase machines: continuous actions (discrete controllers for the B6 bridge are not implemented)",
               "a new episode of the controller begins with its reset(), as in control_environment"]
REQUIRE = {"actions": 15000, "truncations": 8, "loop_steps": 4000, "restarts": 100, "voltage_saturated": 2000, "current_saturated": 500, "torque_saturated": 500,
           "windup": 60, "episodes": 60, "rendered": 500, "finite_actions": 2000}
JOB_LIMIT = dict(quick=400, thorough=1500)
TOL = 1e-9


def jobs(tier, seed):
    q = tier == "quick"
    n, m, st = (24, 14, 80) if q else (80, 30, 250)
    out = []
    for j in range(n):
        out.append(("hostile", dict(seed=[seed, j], n=m, steps=st, eesm=not q)))
        out.append(("loop", dict(seed=[seed, 1000 + j], n=m, steps=st)))
        out.append(("restart", dict(seed=[seed, 2000 + j], n=m, steps=st // 2)))
    for j in range(n // 2):
        out.append(("windup", dict(seed=[seed, 3000 + j], n=3 * m)))
        out.append(("episodes", dict(seed=[seed, 4000 + j], n=m)))
    return out


def pick(rng, c, eesm=False):
    ms = K.DC + K.AC[:3]
    m = ms[c % len(ms)]
    if c % 8 == 7:
        s = K.random_spec(rng, motor="EESM", task="CC")
    else:
        s = K.random_spec(rng, motor=m)
    return s


class Monitor:
    """Checks one controller call: admissible action, limited references, untouched inputs."""

    def __init__(self, res, s, env, c):
        self.res, self.s, self.env, self.c = res, s, env, c
        self.sc, self.tc, self.cc = K.stages(c, s)
        sp = env.observation_space[0]
        lim = np.asarray(env.limits, float)
        iv, ii = K.idx(env, K.VOLT[s["motor"]]), K.idx(env, K.CURR[s["motor"]])
        it = K.idx(env, ["torque"])
        self.u = (sp.low[iv] * lim[iv], sp.high[iv] * lim[iv], lim[iv])
        self.i = (sp.low[ii] * lim[ii] * (1 - s["margin"]), sp.high[ii] * lim[ii] * (1 - s["margin"]), lim[ii] * (1 - s["margin"]))
        self.t = (sp.low[it] * lim[it], sp.high[it] * lim[it])
        self.ac = s["motor"] in K.AC

    def limited(self, what, v, low, high, length):
        """-> True if at the limit"""
        res, s = self.res, self.s
        v = np.atleast_1d(np.asarray(v, float))
        if not res.check(np.all(np.isfinite(v)), f"{what}-not-finite", f"{K.tag(s)}: {what} reference {v}"):
            return False
        if self.ac and what != "torque":
            n = np.hypot(v[0] / length[0], v[1] / length[1])
            res.check(n <= 1 + TOL, f"{what}-reference-limit", f"{K.tag(s)} {s['cc']}: the {what} vector reference {v} has {n} times the permitted length {length}")
            sat = n >= 1 - 1e-9
            v, low, high = v[2:], low[2:], high[2:]
        else:
            sat = False
        tol = TOL * np.maximum(np.abs(low), np.abs(high))
        res.check(bool(np.all(v >= low - tol) and np.all(v <= high + tol)), f"{what}-reference-limit",
                  f"{K.tag(s)} {s['cc']}: {what} reference {v} outside of [{low}, {high}]")
        return bool(sat or np.any(v >= high - tol) or np.any(v <= low + tol))

    def __call__(self, obs, ref):
        res, s = self.res, self.s
        o, r = obs.copy(), ref.copy()
        a = self.c.control(o, r)
        res.count("actions")
        res.check(np.array_equal(o, obs) and np.array_equal(r, ref), "input-modified", f"{K.tag(s)}: control() changed the passed observation or reference")
        space = self.env.action_space
        if s["finite"]:
            res.count("finite_actions")
        try:
            ok = bool(space.contains(a))
        except Exception as ex:  # noqa
            ok = False
            a = (a, repr(ex))
        res.check(ok, "action-not-admissible", f"{K.tag(s)} {s['cc']}/{s['sc']} {s['conv']}: action {a!r} is not in {space}", case=K.tag(s))
        if self.limited("voltage", self.voltages(), *self.u):
            res.count("voltage_saturated")
        if self.tc is not None and self.limited("current", self.tc.current_reference, *self.i):
            res.count("current_saturated")
        if self.sc is not None and self.limited("torque", self.sc.torque_reference, *self.t, None):
            res.count("torque_saturated")
        if s["finite"] and ok:
            self.finite(np.atleast_1d(a))
        return a

    def voltages(self):
        """Voltage reference; the current control task publishes phase voltages: use their vector's length"""
        v = np.atleast_1d(np.asarray(self.cc.voltage_reference, float))
        if self.ac and len(v) > len(self.u[2]):
            v = np.concatenate(([np.sqrt(2 / 3 * np.sum(v[:3] ** 2)), 0.0], v[3:]))
        return v

    def finite(self, a):
        """A finite action never has the opposite sign of the demanded voltage; at full demand it is not idle."""
        res, s, env = self.res, self.s, self.env
        u = np.atleast_1d(self.cc.voltage_reference)
        n = np.atleast_1d(getattr(env.action_space, "nvec", None) if hasattr(env.action_space, "nvec") else env.action_space.n)
        for k in range(len(a)):
            lo, hi = self.u[0][k], self.u[1][k]
            # two-quadrant converters switch the lower transistor for action 2: zero voltage
            level = {2: {0: 0, 1: 1}, 3: {0: 0, 1: 1, 2: 0}, 4: {0: 0, 1: 1, 2: -1, 3: 0}}[int(n[k])][int(a[k])]
            res.check(not (level > 0 and u[k] < 0) and not (level < 0 and u[k] > 0), "finite-action-sign",
                      f"{K.tag(s)} {s['conv']}: voltage reference {u[k]} but action {a[k]}")
            if u[k] >= hi - 1e-9 * abs(hi):
                res.check(int(a[k]) == 1, "finite-action-full", f"{K.tag(s)} {s['conv']}: full voltage {u[k]} demanded but action {a[k]}")
            if lo < 0 and u[k] <= lo + 1e-9 * abs(lo):
                res.check(level == -1, "finite-action-full", f"{K.tag(s)} {s['conv']}: voltage {u[k]} demanded but action {a[k]}")


def hostile(res, seed, n, steps, eesm=False):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = pick(rng, c + seed[-1])
        if eesm and seed[-1] == 0 and c == 0:
            s = K.random_spec(rng, motor="EESM", task="TC", default=True)
        env = K.build(s)
        env.reset(seed=1)
        c_ = K.controller(s, env)
        mon = Monitor(res, s, env, c_)
        if rng.random() < 0.7:
            c_.reset()
        for k in range(steps):
            mon(*K.random_obs(rng, env, k))
            if rng.random() < 0.02:
                c_.reset()
        res.case((s["motor"], s["task"], s["finite"], s["cc"], s["conv"]))
    res.sample(dict(spec=s))


def loop(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = pick(rng, c + seed[-1])
        env = K.build(s)
        (o, r), _ = env.reset(seed=int(rng.integers(2**31)))
        c_ = K.controller(s, env)
        mon = Monitor(res, s, env, c_)
        c_.reset()
        for k in range(steps):
            a = mon(np.asarray(o), np.asarray(r))
            (o, r), _, term, _, _ = env.step(a)
            res.count("loop_steps")
            if term or rng.random() < 0.02:
                (o, r), _ = env.reset()
                c_.reset()
        res.case((s["motor"], s["task"], s["finite"], s["cc"], s["conv"]))


def record(c, s, seq):
    """actions and references over a sequence"""
    sc, tc, cc = K.stages(c, s)
    out = []
    for o, r in seq:
        a = np.atleast_1d(c.control(o, r)).astype(float)
        out.append((a, np.array(tc.current_reference, float) if tc is not None else None, np.array(sc.torque_reference, float) if sc is not None else None))
    return out


def equal(x, y):
    return all((p is None and q is None) or np.array_equal(p, q, equal_nan=True) for a, b in zip(x, y) for p, q in zip(a, b))


def restart(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        s = pick(rng, c + seed[-1])
        env = K.build(s)
        env.reset(seed=1)
        used, fresh = K.controller(s, env), K.controller(s, env)
        pre = [K.random_obs(rng, env, k) for k in range(int(rng.integers(1, steps)))]
        seq = [K.random_obs(rng, env, k) for k in range(steps)]
        base = record(fresh, s, seq)
        for o, r in pre:
            used.control(o, r)
        used.reset()
        if rng.random() < 0.3:
            used.reset()
        got = record(used, s, seq)
        res.count("restarts")
        res.case((s["motor"], s["task"], s["finite"], s["cc"], s["sc"]))
        res.check(equal(base, got), "reset-leaves-state", f"{K.tag(s)} {s['cc']}/{s['sc']}: after {len(pre)} steps and reset() the controller acts differently from a fresh one",
                  case=K.tag(s))
        # a second controller in between does not matter
        third = K.controller(s, env)
        used.reset()
        out = []
        for k, (o, r) in enumerate(seq):
            out += record(used, s, [(o, r)])
            third.control(*K.random_obs(rng, env, k))
            if k % 7 == 3:
                third.reset()
        res.count("interleaved")
        res.check(equal(base, out), "controllers-share-state", f"{K.tag(s)} {s['cc']}/{s['sc']}: a second controller influences the first one", case=K.tag(s))


def windup(res, seed, n):
    """While saturated, integrators stand still: the duration of the saturation leaves no trace."""
    rng = np.random.default_rng(seed)
    for c in range(n):
        speed = bool(c % 3 == 2)
        m = str(rng.choice(K.DC + K.AC[:3]))
        s = K.random_spec(rng, motor=m, task="SC" if speed else "CC", base="PI" if c % 2 else "PID")
        if speed and s["cc"] == "PID" and rng.random() < 0.5:
            s["cc"] = "PI"
        env = K.build(s)
        env.reset(seed=1)
        c_ = K.controller(s, env)
        sc, tc, cc = K.stages(c_, s)
        mon = Monitor(res, s, env, c_)
        ro = env.observation_space[1]
        states = K.idx(env, ["omega"] if speed else K.CURR[m])
        sign = 1.0 if np.any(ro.low > -0.5) else float(rng.choice([-1.0, 1.0]))
        o = np.zeros(len(env.state_names))
        o[states] = -sign * 0.999
        if not speed and len(states) == 2 and m in K.AC:
            o[states] = rng.uniform(-0.7, 0.7, 2)
        ref = np.where(sign > 0, ro.high, ro.low) * np.ones(len(ro.low))
        if not speed and m in K.AC:
            ref = np.clip(-np.sign(o[states]) * 0.7, ro.low, ro.high)
        probe = [K.random_obs(rng, env, k) for k in range(6)]
        outs = []
        saturated = True
        for length in (2, int(rng.integers(20, 200))):
            c_.reset()
            for _ in range(length):
                c_.control(o, ref)
                if speed:
                    v = np.atleast_1d(sc.torque_reference)
                    low, high = mon.t
                    saturated &= bool(np.all((v >= high - 1e-12 * abs(high)) | (v <= low + 1e-12 * abs(high)))) and bool(np.all(np.abs(v) > 0))
                else:
                    v = mon.voltages()
                    if mon.ac:
                        saturated &= bool(np.hypot(*(v[:2] / mon.u[2][:2])) > 1 - 1e-12)
                    else:
                        saturated &= bool(np.all((v >= mon.u[1] * (1 - 1e-12)) | ((v <= mon.u[0] * (1 - 1e-12)) & (mon.u[0] < 0))))
                if not saturated:
                    break
            if not saturated:
                break
            if speed:
                outs.append([(c_.control(*p), np.array(sc.torque_reference, float))[1] for p in probe])
            else:
                outs.append([np.atleast_1d(c_.control(*p)).astype(float) for p in probe])
        if not saturated:
            res.count("windup_not_saturated")
            continue
        res.count("windup")
        res.case((m, s["task"], s["cc"], "windup"))
        res.check(all(np.allclose(p, q, rtol=1e-9, atol=1e-9) for p, q in zip(*outs)), "windup",
                  f"{K.tag(s)} {s['cc']}: the response after saturation depends on its duration: {outs[0][0]} / {outs[1][0]}", case=K.tag(s))


def episodes(res, seed, n):
    """control_environment: resets environment and controller together, limits the episode length, runs exactly n_steps"""
    from gym_electric_motor.core import Callback

    class Rec(Callback):
        def __init__(self):
            super().__init__()
            self.eps, self.on = [], False

        def on_reset_begin(self):
            if self.on:
                self.eps.append(dict(obs=[], act=[], term=[]))

        def on_reset_end(self, state, reference):
            if self.on:
                self.eps[-1]["start"] = (np.array(state, float), np.array(reference, float))

        def on_step_begin(self, k, action):
            if self.on:
                self.eps[-1]["act"].append(np.atleast_1d(np.array(action, float)))

        def on_step_end(self, k, state, reference, reward, done):
            if self.on:
                self.eps[-1]["term"].append(bool(done))

    rng = np.random.default_rng(seed)
    for c in range(n):
        s = pick(rng, c + seed[-1])
        rec = Rec()
        env = K.build(s, callbacks=[rec])
        ctl = K.controller(s, env)
        for _ in range(int(rng.integers(0, 5))):
            ctl.control(*K.random_obs(rng, env, 0))
        calls = []
        original = ctl.control

        def control(o, r):
            calls.append((np.array(o, float), np.array(r, float)))
            return original(o, r)

        ctl.control = control
        steps, length = int(rng.integers(1, 60)), (int(rng.integers(1, 25)) if rng.random() < 0.8 else np.inf)
        env.reset(seed=int(rng.integers(2**31)))
        given, rendered = [], []
        step, reset = env.step, env.reset

        def copied(o):
            return tuple(np.array(x, float) for x in o)

        def spied_step(a):
            out = step(a)
            given.append(copied(out[0]))
            return out

        def spied_reset(*args, **kwargs):
            out = reset(*args, **kwargs)
            if given and len(given) > len(calls):  # this observation replaces the last one of the ended episode
                given.pop()
            given.append(copied(out[0]))
            return out

        env.step, env.reset, env.render = spied_step, spied_reset, lambda *args, **kwargs: rendered.append(len(calls))
        render = {} if rng.random() < 0.5 else dict(render_env=bool(rng.random() < 0.7))
        rec.on = True
        if rng.random() < 0.4:
            # the environment itself may limit its episodes (truncation instead of termination)
            limit = int(rng.integers(1, 25))
            drive = gymnasium.wrappers.TimeLimit(env, max_episode_steps=limit)
            drive.render = env.render
            given_length = {} if limit < length and rng.random() < 0.5 else dict(max_episode_length=length)
            length = min(length, limit)
            res.count("truncations", int(steps > length == limit))
            ctl.control_environment(drive, steps, **given_length, **render)
        else:
            ctl.control_environment(env, steps, max_episode_length=length, **render)
        rec.on = False
        env.step, env.reset = step, reset
        expected = list(range(steps)) if render.get("render_env") else []
        res.check(rendered == expected, "control-environment-render", f"{K.tag(s)} {render}: rendered in {len(rendered)} of {steps} steps")
        res.count("rendered", len(rendered))
        fed = len(calls) == steps and all(np.array_equal(x[0], y[0], equal_nan=True) and np.array_equal(x[1], y[1], equal_nan=True) for x, y in zip(calls, given))
        res.check(fed, "control-environment-observations", f"{K.tag(s)}: the controller did not get the newest observation of the environment in each of {steps} steps")
        total = sum(len(e["act"]) for e in rec.eps)
        res.check(total == steps, "control-environment-steps", f"{K.tag(s)}: {total} of {steps} steps executed")
        fresh = K.controller(s, env)
        pos = 0
        for q, e in enumerate(rec.eps):
            k = len(e["act"])
            last = q == len(rec.eps) - 1
            if not last:
                res.check(k == length or (k > 0 and e["term"][-1]), "control-environment-episode-length",
                          f"{K.tag(s)}: episode {q} ended after {k} steps without termination; max_episode_length={length}")
            res.check(k <= length and not any(e["term"][:-1]), "control-environment-episode-length", f"{K.tag(s)}: episode {q} has {k} steps; max_episode_length={length}")
            fresh.reset()
            same = True
            for j in range(k):
                a = np.atleast_1d(fresh.control(*calls[pos + j])).astype(float)
                same &= bool(np.array_equal(a, e["act"][j], equal_nan=True))
            pos += k
            res.count("episodes")
            res.check(same, "control-environment-reset", f"{K.tag(s)} {s['cc']}: the actions of episode {q} are not those of a fresh controller")
        res.case((s["motor"], s["task"], s["finite"], "episodes"))
