"""C28: the ramping limit margin follows its schedule."""
import numpy as np

from .. import systems as S
from .. import zoo

PROPERTY = "C28"
RULE = ("environments with a ramping margin callback on random schedules, generators and episode lengths (half of the episodes end by a termination, many after few steps): a model of the schedule (initial margin, widened after every n-th step or episode,"
        " at most up to the maximum) gives the margin in force when each reference is generated; every reference has to lie inside; strong random walks, which touch both margins,"
        " show that the margin is also used to its full extent; unsupported generators are refused; distinct = schedule kind x generator x update frequency")
ASSUMPTIONS = ["a margin of k-th update holds for the references generated after that update"]
REQUIRE = {"bounded": 20000, "touched": 300, "updates": 300, "at_maximum": 40, "refused": 20, "wide": 12, "terminated": 300, "short_episodes": 2000, "step_schedules": 30, "episode_schedules": 30}


def jobs(tier, seed):
    n, m = (24, 12) if tier == "quick" else (64, 30)
    return [("schedule", dict(seed=[seed, j], n=m)) for j in range(n)] + [("refused", dict(seed=[seed, 200 + j], n=4)) for j in range(8)]


class Model:
    """margin in force"""

    def __init__(self, cfg):
        self.m = list(cfg["initial"])
        self.cfg = cfg
        self.count = 0
        self.updates = 0

    def event(self, what):
        if what != self.cfg["time"]:
            return
        self.count += 1
        if self.count == self.cfg["freq"]:
            self.count = 0
            self.updates += 1
            c = self.cfg
            self.m = [max(self.m[0] - c["step"], c["max"][0]), min(self.m[1] + c["step"], c["max"][1])]


def schedule(res, seed, n):
    import gym_electric_motor as gem
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor.callbacks import RampingLimitMargin
    from gym_electric_motor.constraints import Constraint

    class Stop(Constraint):
        """Ends an episode when it is told to"""

        now = False

        def __call__(self, state):
            return float(self.now)

        def set_modules(self, ps):
            pass

    rng = np.random.default_rng(seed)
    for c in range(n):
        kind = str(rng.choice(["PermExDc", "PMSM", "SynRM", "ExtExDc"]))
        st = dict(PermExDc=["i", "torque", "omega"], PMSM=["i_sq", "i_sd", "torque", "omega"], SynRM=["i_sq", "torque"], ExtExDc=["i_a", "i_e", "torque"])[kind]
        st = str(rng.choice(st))
        hi = [float(rng.uniform(0.3, 1)), float(rng.uniform(0.3, 1))] if rng.random() < 0.7 else [1.0, 1.0]
        lo = [float(rng.uniform(0.02, 0.3)), float(rng.uniform(0.02, 0.3))]
        cfg = dict(initial=[-lo[0], lo[1]], max=[-hi[0], hi[1]], step=float(rng.choice([0.01, 0.05, 0.1, 0.33, 0.7])) * float(rng.uniform(0.8, 1.2)),
                   time=str(rng.choice(["step", "episode"])))
        cfg["freq"] = int(rng.integers(1, 120)) if cfg["time"] == "step" else int(rng.integers(1, 5))
        short = c % 4 in (0, 3) and rng.random() < 0.6  # many episodes that end by a termination after few steps
        if short and cfg["time"] == "step":
            cfg["freq"] = int(rng.integers(48, 65))
        t = ["walk1", "walkN", "wave", "switched"][c % 4]
        N = 1 if t in ("walk1", "switched") else int(rng.integers(2, 25))
        walk = lambda: dict(cls=str(rng.choice(["Wiener", "Laplace"])), state=st, len=[N, N], margin=None, sigma=[20.0, 20.0])
        if t == "switched":
            spec = dict(cls="Switched", subs=[walk() for _ in range(int(rng.integers(2, 4)))], p=None, len=[5, 25])
        elif t == "wave":
            spec = zoo.random_ref(rng, [st], kinds=("Sinus", "Triangle", "Sawtooth", "Step", "Wiener"))
            spec["margin"] = None if rng.random() < 0.5 else 1.0
            spec.pop("amp", None)
            spec["freq"] = [100.0, 400.0]
        else:
            spec = walk()
        cb = RampingLimitMargin(initial_limit_margin=tuple(cfg["initial"]), maximum_limit_margin=tuple(cfg["max"]), step_size=cfg["step"], update_time=cfg["time"], update_freq=cfg["freq"])
        stop = Stop()
        env = gem.make(f"Cont-CC-{kind}-v0", reference_generator=zoo.mk_ref(spec), callbacks=(cb,), visualization=(), constraints=(stop,), load=ps.ConstantSpeedLoad(0.0),
                       ode_solver=ps.EulerSolver(), tau=1e-4).unwrapped
        act = S.Actions(env.action_space, rng)
        mod = Model(cfg)
        res.count(cfg["time"] + "_schedules")
        gen_m, k = None, 0
        seen, peak, since = [], 0.0, None
        fixed = t != "wave"
        what = lambda: f"{kind} {spec} schedule {cfg} after {mod.updates} updates"

        def flush():
            # N = 1 and strong walks: the extreme values are the margins themselves
            if fixed and len(seen) >= 45 and since is not None:
                x = np.array(seen)
                res.count("touched")
                res.count("at_maximum", int(since == cfg["max"]))
                res.close([x.min(), x.max()], since, f"not-exhausted:{t}", lambda: what() + f" ({len(x)} references generated with this margin)", rtol=1e-9, atol=1e-9, case=(t, cfg["time"], kind))

        for e in range(int(rng.integers(70, 140)) if short else int(rng.integers(3, 18))):
            env_ref = env.reset(seed=int(rng.integers(2**31)))[0][1] if e == 0 else env.reset()[0][1]
            k = 0
            length, ends = int(rng.integers(0, 260)) + 1, rng.random() < 0.6
            if short:
                length, ends = int(rng.integers(2, 5)), True
                res.count("short_episodes")
            stop.now = False
            for i in range(length):
                if i > 0:
                    stop.now = bool(ends and i == length - 1)
                    obs, _, term, _, _ = env.step(act())
                    env_ref = obs[1]
                    res.count("terminated", int(term))
                    res.check(bool(term) == stop.now, "termination", lambda: what() + f": terminated {term} at step {i} of an episode of {length}")
                x = float(env_ref[0])
                if not fixed or N == 1 or k % N == 0 or gen_m is None:
                    gen_m = list(mod.m)
                if fixed and gen_m != since:
                    flush()
                    seen, since = [], list(gen_m)
                seen.append(x)
                k += 1
                res.count("bounded")
                res.check(gen_m[0] - 1e-9 <= x <= gen_m[1] + 1e-9, f"outside:{t}:{cfg['time']}", lambda: what() + f": reference {x} outside of {gen_m} in episode {e} step {i}", case=(t, cfg["time"], cfg["freq"]))
                peak = max(peak, abs(x))
                u = mod.updates
                mod.event("episode" if i == 0 else "step")
                res.count("updates", mod.updates - u)
        flush()
        if not fixed and mod.m == cfg["max"]:
            res.count("wide")
            res.check(peak > max(lo) or spec["cls"] == "Wiener", "never-wider", lambda: what() + f": largest reference {peak}")
        if c == 0:
            res.sample(dict(kind=kind, spec=spec, schedule=cfg, updates=mod.updates, margin=mod.m))


def refused(res, seed, n):
    import gym_electric_motor as gem
    from gym_electric_motor import reference_generators as rg
    from gym_electric_motor.callbacks import RampingLimitMargin

    rng = np.random.default_rng(seed)
    for c in range(n):
        gens = [rg.ConstReferenceGenerator("i"), rg.MultipleReferenceGenerator([rg.SinusoidalReferenceGenerator(reference_state="i"), rg.StepReferenceGenerator(reference_state="omega")]),
                rg.SwitchedReferenceGenerator([rg.SinusoidalReferenceGenerator(reference_state="i"), rg.ConstReferenceGenerator("i")])]
        try:
            gem.make("Cont-CC-PermExDc-v0", reference_generator=gens[c % 3], callbacks=(RampingLimitMargin(),), visualization=())
            ok = False
        except Exception:
            ok = True
        res.count("refused")
        res.check(ok, "unsupported-accepted", f"{gens[c % 3]} accepted", case=("refused", c % 3))
        a, b = (float(x) for x in rng.uniform(0.05, 0.9, 2))
        bads = [dict(initial_limit_margin=(a, a - b)), dict(initial_limit_margin=(a, a)), dict(maximum_limit_margin=(b, -a)), dict(initial_limit_margin=(-1 - a, b)), dict(initial_limit_margin=(-b, 1 + a)),
                dict(maximum_limit_margin=(-1, 1 + b)), dict(maximum_limit_margin=(-1 - b, 1)), dict(update_time=["day", "Step", "", None][c % 4])]
        for bad in bads:
            try:
                RampingLimitMargin(**bad)
                ok = False
            except Exception:
                ok = True
            res.check(ok, "bad-schedule-accepted", f"{bad} accepted", case=("bad", *bad))
        good = dict(initial_limit_margin=(-a, b), maximum_limit_margin=(-1, 1), update_time=["step", "episode"][c % 2])
        try:
            RampingLimitMargin(**good)
        except Exception as e:
            res.check(False, "good-schedule-refused", f"{good}: {e!r}")
