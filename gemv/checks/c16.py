"""C16: state and action processors compute exactly their documented quantities and nothing else."""
import math

import numpy as np

from .. import envrun as E
from .. import probe as PB
from .. import refsim as R
from .. import systems as S
from .. import zoo

PROPERTY = "C16"
RULE = ("random environments with stacks of processors; transparent probes between all layers record actions and states, and each processor is judged"
        " by an independent model of its documentation (cos/sin, current sum, flux observer difference equation, additive noise, dq actions), at"
        " resets and at steps; names, limits, nominal values and spaces of every layer are compared with the inner layer's;"
        " distinct = motor x processor x layer below x option")
ASSUMPTIONS = ["the flux observer's declared bounds are not normalised (known finding of C04) and not judged here",
               "processors between a dead time and an action transformation: the dead time of the processor directly reachable below counts"]
REQUIRE = {"own_meta": 300, "cossin": 1500, "csum": 1500, "flux": 800, "noise": 1500, "dq": 800, "resets": 300, "layers": 200, "dq_dead": 200, "dq_dfim": 40, "ks_samples": 2000, "transparent": 25, "noise_replaced": 8}


def jobs(tier, seed):
    n, m, st = (24, 14, 60) if tier == "quick" else (96, 40, 200)
    return [("stacks", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)] + [
        ("noise_law", dict(seed=[seed, 700 + j], n=6 if tier == "quick" else 12, steps=700 if tier == "quick" else 4000)) for j in range(8)]


def plan_stack(rng, kind, cont, names):
    """Like the zoo's random stacks, but with more layers and options."""
    out, names = [], list(names)
    for _ in range(int(rng.integers(1, 6))):
        k = str(rng.choice(["dead", "cossin", "csum", "noise", "flux", "dq", "flux", "dq"]))
        has = [w["w"] for w in out]
        if k == "dead" and "dead" not in has and "dq" not in has:
            out.append(dict(w="dead", steps=int(rng.integers(1, 4))))
        elif k == "cossin" and "cossin" not in has:
            ang = [a for a in ("epsilon", "psi_angle") if a in names]
            if ang:
                a = str(rng.choice(ang))
                rem = bool(rng.random() < 0.5)
                out.append(dict(w="cossin", angle=a, remove=rem))
                if rem:
                    names.remove(a)
                names += [f"cos({a})", f"sin({a})"]
        elif k == "csum" and "i_sum" not in names:
            cur = [x for x in names if x.startswith("i_")]
            if len(cur) >= 2:
                sel = [str(x) for x in rng.choice(cur, size=int(rng.integers(2, min(5, len(cur)) + 1)), replace=False)]
                out.append(dict(w="csum", currents=sel, limit=str(rng.choice(["max", "sum"]))))
                names.append("i_sum")
        elif k == "noise" and has.count("noise") < 2:
            st = "all" if rng.random() < 0.25 else [str(x) for x in rng.choice(names, size=int(rng.integers(1, 4)), replace=False)]
            d = str(rng.choice(["normal", "laplace", "uniform"]))
            kw = dict(low=-0.02, high=0.03) if d == "uniform" else dict(loc=0.01, scale=0.01)
            out.append(dict(w="noise", states=st, dist=d, kw=kw, len=int(rng.choice([1, 2, 7, 1000]))))
        elif k == "flux" and kind in S.IND and "flux" not in has:
            out.append(dict(w="flux"))
            if rng.random() < 0.3:
                out[-1]["currents"] = [str(x) for x in rng.permutation(["i_sa", "i_sb", "i_sc"])]
            names += ["psi_abs", "psi_angle"]
        elif k == "dq" and cont and "dq" not in has:
            if kind in ("PMSM", "SynRM") and "epsilon" in names:
                out.append(dict(w="dq", motor="PMSM"))
            elif kind == "EESM" and "epsilon" in names:
                out.append(dict(w="dq", motor="EESM"))
            elif kind == "SCIM" and "psi_angle" in names:
                out.append(dict(w="dq", motor="SCIM"))
            elif kind == "DFIM" and "epsilon" in names and "psi_angle" in names:
                out.append(dict(w="dq", motor="DFIM"))
    return out, names


class Layer:
    """Model of one processor between two probes."""

    def __init__(self, w, inner, outer, param, dead):
        self.w, self.k = w, w["w"]
        self.names, self.limits = list(inner.state_names), np.array(inner.limits, float)
        self.pos = {n: i for i, n in enumerate(self.names)}
        self.onames = list(outer.state_names)
        self.p = param
        self.tau = inner.tau
        self.last = None
        self.psi = 0j
        self.dead = dead
        self.prev_noise = None
        self.meta(inner, outer)

    def meta(self, inner, outer):
        """expected names, limits and nominal values of the outer layer"""
        n, l, nom = list(self.names), list(self.limits), list(np.array(inner.nominal_state, float))
        lo, hi = list(inner.state_space.low), list(inner.state_space.high)
        if self.k == "cossin":
            a = self.w["angle"]
            if self.w["remove"]:
                i = self.pos[a]
                for v in (n, l, nom, lo, hi):
                    del v[i]
            n += [f"cos({a})", f"sin({a})"]
            l += [1.0, 1.0]
            nom += [1.0, 1.0]
            lo += [-1.0, -1.0]
            hi += [1.0, 1.0]
        elif self.k == "csum":
            f = max if self.w["limit"] == "max" else sum
            n.append("i_sum")
            l.append(f([self.limits[self.pos[c]] for c in self.w["currents"]]))
            nom.append(f([inner.nominal_state[self.pos[c]] for c in self.w["currents"]]))
            lo.append(-1.0)
            hi.append(1.0)
        elif self.k == "flux":
            n += ["psi_abs", "psi_angle"]
            psi = self.p["l_m"] * self.limits[self.pos["i_sd"]]
            l += [psi, math.pi]
            nom += [psi, math.pi]
            lo, hi = None, None
        self.want = (n, np.array(l), np.array(nom), lo, hi)

    def check_meta(self, res, outer, env):
        n, l, nom, lo, hi = self.want
        res.check(list(outer.state_names) == n, f"names:{self.k}", lambda: f"{env}: {list(outer.state_names)} expected {n}")
        res.check(np.allclose(np.asarray(outer.limits, float), l, rtol=1e-12), f"limits:{self.k}", lambda: f"{env} {self.w}: {outer.limits} expected {l}")
        res.check(np.allclose(np.asarray(outer.nominal_state, float), nom, rtol=1e-12), f"nominal:{self.k}", lambda: f"{env} {self.w}: {outer.nominal_state} expected {nom}")
        res.check(dict(outer.state_positions) == {q: i for i, q in enumerate(n)}, f"positions:{self.k}", lambda: f"{env}: {outer.state_positions}")
        own = outer.physical_system  # the processor itself, without the probe around it
        res.count("own_meta")
        res.check(dict(own.state_positions) == {q: i for i, q in enumerate(n)}, f"own-positions:{self.k}", lambda: f"{env}: {own.state_positions} expected {n}")
        res.check(list(own.state_names) == n and np.allclose(np.asarray(own.limits, float), l, rtol=1e-12) and np.allclose(np.asarray(own.nominal_state, float), nom, rtol=1e-12),
                  f"own-meta:{self.k}", lambda: f"{env}: {own.state_names} {own.limits} {own.nominal_state}")
        if lo is not None:
            sp = outer.state_space
            res.check(sp.shape == (len(n),) and np.allclose(sp.low, lo) and np.allclose(sp.high, hi), f"space:{self.k}", lambda: f"{env}: {sp.low} {sp.high} expected {lo} {hi}")
        if self.k == "dq":
            m = dict(EESM=3, DFIM=4).get(self.w["motor"], 2)
            a = outer.action_space
            res.check(a.shape == (m,) and np.all(a.low == -1) and np.all(a.high == 1), "space:dq-action", lambda: f"{a}")
        res.check(outer.tau == self.tau, "tau", lambda: f"{outer.tau} {self.tau}")

    def relate(self, res, kind, ai, si, ao, so, what, key):
        """inner action/state (ai, si) versus outer action/state (ao, so)"""
        ok = True
        if self.k == "dq" and kind == "simulate":
            x = self.last * self.limits
            ang = x[self.pos["psi_angle" if self.w["motor"] == "SCIM" else "epsilon"]]
            adv = ang + (0.5 + self.dead) * self.tau * x[self.pos["omega"]] * self.p["p"]
            ao = np.asarray(ao, float)
            want = R.dq2abc(ao[:2], adv)
            if self.w["motor"] == "EESM":
                want = np.append(want, ao[2])
            elif self.w["motor"] == "DFIM":  # the stator action turns with the advanced angle, the rotor's with the flux angle seen from there
                want = np.append(want, R.dq2abc(ao[2:], x[self.pos["psi_angle"]] - adv))
                res.count("dq_dfim")
            ok = res.close(np.asarray(ai, float), np.asarray(want), "dq:action", what + f" dq action {ao} at angle {ang}", rtol=1e-9, atol=1e-9, case=key)
            res.count("dq")
            if self.dead:
                res.count("dq_dead")
        elif kind == "simulate" and self.k != "dead":
            ok = res.check(np.array_equal(np.asarray(ai), np.asarray(ao)), f"{self.k}:action", lambda: what + f" changes the action {ao} to {ai}")
        n = len(si)
        if self.k in ("dead", "dq"):
            res.check(np.array_equal(so, si, equal_nan=True), f"{self.k}:state", lambda: what + f" changes the state {si} to {so}", case=key)
        elif self.k == "cossin":
            i = self.pos[self.w["angle"]]
            a = si[i] * self.limits[i]
            want = np.append(np.delete(si, i) if self.w["remove"] else si, [math.cos(a), math.sin(a)])
            res.close(so, want, "cossin:state", what, rtol=1e-12, atol=1e-11, case=key)
            res.count("cossin")
        elif self.k == "csum":
            want = np.append(si, sum(si[self.pos[c]] for c in self.w["currents"]))
            res.close(so, want, "csum:state", what, rtol=1e-12, atol=1e-12, case=key)
            res.count("csum")
        elif self.k == "flux":
            if kind == "reset":
                self.psi = 0j
            else:
                x = si * self.limits
                iab = R.abc2ab(np.array([x[self.pos[q]] for q in self.w.get("currents", ("i_sa", "i_sb", "i_sc"))]))
                rr, lm, lr = self.p["r_r"], self.p["l_m"], self.p["l_m"] + self.p["l_sigr"]
                self.psi = self.psi + self.tau * ((iab[0] + 1j * iab[1]) * rr * lm / lr - self.psi * (rr / lr - 1j * self.p["p"] * x[self.pos["omega"]]))
            lim = lm_ = self.p["l_m"] * self.limits[self.pos["i_sd"]]
            res.close(so[:n], si, "flux:passed-states", what, rtol=1e-12, atol=1e-12)
            res.close(so[n] * lim, abs(self.psi), "flux:abs", what, rtol=1e-8, atol=1e-9 * lm_, case=key)
            if abs(self.psi) > 1e-6 * lim:
                d = (so[n + 1] * math.pi - math.atan2(self.psi.imag, self.psi.real) + math.pi) % (2 * math.pi) - math.pi
                res.check(abs(d) < 1e-6 and abs(so[n + 1]) <= 1 + 1e-12, "flux:angle", lambda: what + f" angle {so[n + 1] * math.pi} expected {math.atan2(self.psi.imag, self.psi.real)}")
            res.count("flux")
        elif self.k == "noise":
            sel = set(self.names if self.w["states"] == "all" else self.w["states"])
            d = so - si
            mask = np.array([q in sel for q in self.names])
            res.check(np.array_equal(so[~mask], si[~mask], equal_nan=True), "noise:unselected", lambda: what + f" changes unselected states: {d}", case=key)
            fin = np.isfinite(si[mask]) & (np.abs(si[mask]) < 1e3)
            if self.w["dist"] == "uniform":
                res.check(np.all((d[mask][fin] >= -0.02 - 1e-9) & (d[mask][fin] <= 0.03 + 1e-9)), "noise:range", lambda: what + f" noise {d[mask]}")
            res.check(np.all(d[mask][fin] != 0), "noise:missing", lambda: what + f" no noise on selected states: {d[mask]}")
            if self.prev_noise is not None and self.prev_noise.shape == d[mask].shape:
                res.check(not np.any(np.abs(d[mask] - self.prev_noise)[fin] < 1e-14), "noise:repeated", lambda: what + f" repeats the noise {self.prev_noise}")
            self.prev_noise = d[mask]
            res.count("noise")
        self.last = np.array(si, float)


def stacks(res, seed, n, steps):
    import gym_electric_motor as gem

    rng = np.random.default_rng(seed)
    weights = S.SYNC + S.IND + S.IND + S.SYNC + S.DC
    for c in range(n):
        kind = weights[(c + int(seed[1]) * n) % len(weights)]
        cont = bool(rng.random() < 0.7)
        cfg = zoo.random_cfg(rng, kind=kind, cont=cont, wrappers=False, refs=False, reward=False, constraints=False, state_filter=False)
        cfg["constraints"] = []
        base_names = list(cfg["names"])
        if kind == "ShuntDc":
            base_names.remove("i_sum")
        plan, names = plan_stack(rng, kind, cont, base_names)
        log = []
        wr = [PB.mk_probe(log, 0)]
        dq_at = [i for i, w in enumerate(plan) if w["w"] == "dq"]
        for i, w in enumerate(plan):
            wr += [zoo.mk_wrapper(w), PB.mk_probe(log, i + 1)]
        kw = zoo.kwargs(cfg)
        if kind == "ShuntDc" and "i_sum" in names:
            kw.pop("physical_system_wrappers", None)
            continue
        kw["physical_system_wrappers"] = tuple(wr)
        ref = next((q for q in names if q not in ("i_sum",) and not q.startswith(("psi_", "cos", "sin"))), names[0])
        kw["reference_generator"] = gem.reference_generators.ConstReferenceGenerator(reference_state=ref, reference_value=0.0)
        env = gem.make(cfg["env"], **kw).unwrapped
        param = dict(env.physical_system.unwrapped.electrical_motor.motor_parameter)
        layers = []
        dead = 0
        for i, w in enumerate(plan):
            layers.append(Layer(w, wr[2 * i], wr[2 * i + 2], param, dead))
            if w["w"] == "dead":
                dead = w["steps"]
            layers[-1].check_meta(res, wr[2 * i + 2], cfg["env"])
            res.count("layers")
        res.check(wr[-1].unwrapped is env.physical_system.unwrapped, "unwrapped", "unwrapped is not the innermost system")
        if not plan:
            res.count("transparent")
        act = S.Actions(env.action_space, rng)
        outer_is_env = kind != "ShuntDc"
        k = 0
        for t in range(steps):
            log.clear()
            if t == 0 or rng.random() < 0.05:
                out = env.reset(seed=int(rng.integers(2**31))) if rng.random() < 0.3 else env.reset()
                st, kd = out[0][0], "reset"
                k = 0
                res.count("resets")
            else:
                a = E.freeze(act())
                out = env.step(a)
                st, kd = out[0][0], "simulate"
                k += 1
            rec = PB.call(log, len(plan) + 1)
            if rec is None or any(r[0] != kd for r in rec):
                res.violation("layer-calls", f"{cfg['env']}: a {kd} reached the layers as {[(e[0], e[1]) for e in log]}")
                break
            if kd == "simulate":
                res.check(np.array_equal(np.asarray(rec[-1][1]), np.asarray(a)), "outer-action", "the outermost processor did not get the action")
            top = rec[-1][2]
            res.check(np.array_equal(st[:len(top)], top, equal_nan=True) if not outer_is_env else np.array_equal(st, top, equal_nan=True),
                      "outer-state", lambda: f"{cfg['env']}: observation {st}, outermost processor {top}")
            if not outer_is_env:  # the environment itself appends the sum of both currents
                q = wr[-1].state_names
                want = top[q.index("i_a")] + top[q.index("i_e")]
                res.close(st[-1], want, "shunt-i-sum", f"{cfg['env']} i_sum", rtol=1e-12, atol=1e-12)
                res.count("csum")
            for i, L in enumerate(layers):
                inner, outer = rec[i], rec[i + 1]
                key = (cfg["env"], L.k, plan[i - 1]["w"] if i else None, L.w.get("remove"), L.w.get("limit"), kd)
                L.relate(res, kd, inner[1], inner[2], outer[1], outer[2], f"{cfg['env']} {kd} {k}: {plan[i]} (stack {[w['w'] for w in plan]})", key)
            res.check(env.physical_system.k == k, "k", lambda: f"step counter {env.physical_system.k} after {k} steps")
            if not np.all(np.isfinite(top)) or np.max(np.abs(top)) > 1e6:
                break
            if kd == "simulate" and out[2]:
                env.reset()
                for L in layers:
                    L.psi, L.prev_noise = 0j, None
                log.clear()
                env_state = env.reset()[0][0]
                rec = PB.call(log, len(plan) + 1)
                for i, L in enumerate(layers):
                    L.last = np.array(rec[i][2], float)
                k = 0
        if c == 0:
            res.sample(dict(env=cfg["env"], stack=plan))


CDF = {
    "normal": lambda x, kw: 0.5 * (1 + np.vectorize(math.erf)((x - kw["loc"]) / kw["scale"] / math.sqrt(2))),
    "laplace": lambda x, kw: np.where(x < kw["loc"], 0.5 * np.exp(-np.abs(x - kw["loc"]) / kw["scale"]), 1 - 0.5 * np.exp(-np.abs(x - kw["loc"]) / kw["scale"])),
    "uniform": lambda x, kw: np.clip((x - kw["low"]) / (kw["high"] - kw["low"]), 0, 1),
    "exponential": lambda x, kw: np.where(x < 0, 0.0, 1 - np.exp(-np.maximum(x, 0) / kw["scale"])),
}


def noise_law(res, seed, n, steps):
    """The noise follows the selected distribution, is independent over states and steps and fresh after each block."""
    from gym_electric_motor import physical_system_wrappers as pw

    rng = np.random.default_rng(seed)
    for c in range(n):
        s = S.random_spec(rng, loads=("const",), supplies=("ideal",))
        sysm, _ = S.mk_system(s)
        d = str(rng.choice(list(CDF)))
        kw = dict(low=float(rng.uniform(-1, 0)), high=float(rng.uniform(0.1, 1))) if d == "uniform" else (
            dict(scale=float(rng.uniform(0.01, 1))) if d == "exponential" else dict(loc=float(rng.uniform(-1, 1)), scale=float(rng.uniform(0.01, 1))))
        names = [str(x) for x in rng.choice(sysm.state_names, size=2, replace=False)]
        log = []
        pr = PB.mk_probe(log, 0)
        pr.set_physical_system(sysm)
        w = pw.StateNoiseProcessor(states=names, random_dist=d, random_kwargs=kw, random_length=int(rng.choice([1, 10, 64, 1000])), physical_system=pr)
        w.seed(np.random.SeedSequence(int(rng.integers(2**31))))
        idx = [sysm.state_positions[q] for q in names]
        act = S.Actions(sysm.action_space, rng)
        x = []
        if rng.random() < 0.5:
            # the parameters of the noise are replaced while the system runs: they apply at the latest from the next episode on
            first = {q: v * 3 + (1 if q in ("high", "loc") else 0) for q, v in kw.items()}
            w.random_kwargs = dict(first)
            res.check(dict(w.random_kwargs) == first, "noise-kwargs", lambda: f"{w.random_kwargs} instead of {first}", case=("kwargs", d))
            w.reset()
            for _ in range(int(rng.integers(0, 20))):
                w.simulate(act())
            w.random_kwargs = given = dict(kw)
            res.check(dict(w.random_kwargs) == kw, "noise-kwargs", lambda: f"{w.random_kwargs} instead of {kw}")
            given[next(iter(given))] = 1e6  # the caller's dictionary is his own
            res.count("noise_replaced")
        for t in range(steps):
            log.clear()
            o = w.reset() if t % 150 == 0 else w.simulate(act())
            inner = log[-1][3]
            x.append((o - inner)[idx])
        x = np.array(x)
        res.count("ks_samples", len(x))
        for j in range(2):
            u = np.sort(CDF[d](x[:, j], kw))
            m = len(u)
            ks = max(np.max(np.arange(1, m + 1) / m - u), np.max(u - np.arange(m) / m))
            res.check(ks * math.sqrt(m) < 3.6, f"noise-law:{d}", lambda: f"noise {d} {kw}: KS distance {ks} of {m} samples, mean {x[:, j].mean()} std {x[:, j].std()}", case=(d, j))
        v = np.stack([CDF[d](x[:, j], kw) - 0.5 for j in range(2)], 1) * math.sqrt(12)
        corr = float(np.mean(v[:, 0] * v[:, 1])) * math.sqrt(len(v))
        lag = float(np.mean(v[1:, 0] * v[:-1, 0])) * math.sqrt(len(v))
        res.check(abs(corr) < 7 and abs(lag) < 7, "noise-independent", lambda: f"correlation {corr} lag {lag} (in standard deviations) for {d} {kw}")
        res.check(len(np.unique(np.round(x[:, 0], 12))) > 0.99 * len(x), "noise-repeats", lambda: f"{len(np.unique(x[:, 0]))} different of {len(x)} noise values")
