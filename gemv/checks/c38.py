"""C38: random components draw independently of each other."""
import numpy as np

from .. import systems as S
from .. import zoo

PROPERTY = "C38"
RULE = ("environments full of random components (initialisers of motor and load, random supply phases, Ornstein-Uhlenbeck loads, stacked noise processors,"
        " several references, nested and switched generators, and user-written random callbacks, rewards, constraints, wrappers, loads and generators) are reset and"
        " stepped through many episodes under several seeds; every random quantity becomes a column with one value per episode, and the rank correlation"
        " of all pairs of columns, of the columns with themselves one and two episodes later, and of the columns of different seeds and of unseeded"
        " instances is tested; distinct = pair of random sources")
ASSUMPTIONS = ["|Spearman correlation| > 0.5 over 160 episodes has a probability below 1e-9 per pair for independent draws",
               "the reference of a switched generator is judged by its value only"]
REQUIRE = {"episodes": 5000, "pairs": 5000, "across_seeds": 3000, "lags": 500, "sources": 15, "unseeded": 5}
EPISODES = 160


def jobs(tier, seed):
    n, m = (8, 3) if tier == "quick" else (40, 6)
    return [("streams", dict(seed=[seed, j], n=m)) for j in range(n)]


def probes():
    import gym_electric_motor as gem
    from gym_electric_motor.core import Callback, ReferenceGenerator
    from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper
    from gym_electric_motor.physical_systems import mechanical_loads as ml
    from gym_electric_motor.reward_functions import WeightedSumOfErrors

    class Cb(Callback, gem.RandomComponent):
        def __init__(self):
            Callback.__init__(self)
            gem.RandomComponent.__init__(self)
            self.value = None

        def on_reset_begin(self):
            self.next_generator()
            self.value = self.random_generator.random()

    class Reward(WeightedSumOfErrors, gem.RandomComponent):
        def __init__(self):
            WeightedSumOfErrors.__init__(self)
            gem.RandomComponent.__init__(self)
            self.value = None

        def reset(self, *a, **k):
            self.next_generator()
            self.value = self.random_generator.random()
            return WeightedSumOfErrors.reset(self, *a, **k)

    class Ref(ReferenceGenerator, gem.RandomComponent):
        """a user's random reference"""

        def __init__(self, state):
            ReferenceGenerator.__init__(self)
            gem.RandomComponent.__init__(self)
            from gymnasium.spaces import Box

            self.reference_space = Box(0, 1, shape=(1,), dtype=np.float64)
            self._reference_names = [state]
            self.value = None

        def set_modules(self, physical_system):
            super().set_modules(physical_system)
            self._referenced_states = np.array([n in self._reference_names for n in physical_system.state_names])

        def reset(self, initial_state=None, initial_reference=None):
            self.next_generator()
            self.value = self.random_generator.random()
            return super().reset(initial_state, initial_reference)

        def get_reference(self, *_, **__):
            r = np.zeros(len(self._referenced_states))
            r[self._referenced_states] = self.value
            return r

        def get_reference_observation(self, *_, **__):
            return np.array([self.value])

    class Rec(PhysicalSystemWrapper):
        """records the state that passes through"""

        def __init__(self):
            super().__init__()
            self.seen = self.value = None

        def reset(self, **kwargs):
            x = super().reset(**kwargs)
            self.value = self.random_generator.random()
            self.seen = np.array(x)
            return x

        def simulate(self, action):
            x = super().simulate(action)
            self.seen = np.array(x)
            return x

    class Load(ml.PolynomialStaticLoad):
        """a load with a random start of its own"""

        value = None

        def reset(self, **kwargs):
            y = super().reset(**kwargs)
            self.value = self.random_generator.random()
            return y

    return Cb, Reward, Ref, Rec, Load


def build(rng, kind, cont):
    """a new environment; returns it with a function that reads the random values of the episode"""
    import gym_electric_motor as gem
    from gym_electric_motor import physical_system_wrappers as pw
    from gym_electric_motor import physical_systems as ps
    from gym_electric_motor import reference_generators as rg

    Cb, Reward, Ref, Rec, Load = probes()
    names = zoo.default_names(kind, cont)
    task = str(rng.choice(["CC", "TC", "SC"]))
    if kind == "ShuntDc" and task == "TC":
        task = "CC"
    kw = dict(visualization=(), constraints=(), ode_solver=ps.EulerSolver())
    reads = {}
    dist = str(rng.choice(["uniform", "normal"]))
    load = str(rng.choice(["poly", "ou"]))
    W = S.W_NOM[kind]
    if load == "poly":
        init = dict(random_init=dist, interval=[[-0.4 * W, 0.4 * W]])
        if dist == "normal":
            init["random_params"] = (None, 0.2 * W)
        kw["load"] = ld = Load(load_parameter=dict(a=0.0, b=1e-3, c=0.0, j_load=0.05), load_initializer=init)
        reads["load probe"] = lambda env, o: ld.value
    else:
        kw["load"] = ps.OrnsteinUhlenbeckLoad(mu=0.0, sigma=1e-3 * W, theta=1e-4, tau=1e-4, omega_range=(-0.4 * W, 0.4 * W))
    if kind not in S.IND:
        motor_init = dict(random_init=str(rng.choice(["uniform", "normal"])))
        if motor_init["random_init"] == "normal":
            motor_init["random_params"] = (None, None)
        kw["motor"] = dict(motor_initializer=motor_init)
    if rng.random() < 0.5 and kind in S.DC:
        kw["supply"] = ps.AC1PhaseSupply(u_nominal=float(S.U_NOM[kind]))
    cb, rw = Cb(), Reward()
    kw["callbacks"] = (cb,)
    kw["reward_function"] = rw
    reads["callback"] = lambda env, o: cb.value
    reads["reward"] = lambda env, o: rw.value
    recs = [Rec(), Rec(), Rec()]
    # noise on quantities that are not referenced, drawn from equal and from different distributions
    nd = [("normal", dict(loc=0.0, scale=0.01)), ("laplace", dict(loc=0.0, scale=0.01)), ("uniform", dict(low=-0.1, high=0.1))]
    k1 = int(rng.integers(3))
    k2 = k1 if rng.random() < 0.7 else int(rng.integers(3))
    n1, n2 = (pw.StateNoiseProcessor(["omega", "u_sup"], nd[k][0], nd[k][1], random_length=int(rng.integers(2, 30))) for k in (k1, k2))
    kw["physical_system_wrappers"] = (recs[0], n1, recs[1], n2, recs[2])
    for i, r in enumerate(recs):
        reads[f"wrapper probe {i}"] = lambda env, o, r=r: r.value
    iw, iu = names.index("omega"), names.index("u_sup")
    for j in (0, 1):
        for q, i in (("omega", iw), ("u_sup", iu)):
            reads[f"noise {j} {q}"] = lambda env, o, j=j, i=i: recs[j + 1].seen[i] - recs[j].seen[i]
    reads["omega"] = lambda env, o: recs[0].seen[iw]
    if "supply" in kw:
        reads["supply phase"] = lambda env, o: recs[0].seen[iu]
    cur = dict(PermExDc=["i"], SeriesDc=["i"], ExtExDc=["i_a", "i_e"], ShuntDc=["i_a", "i_e"], PMSM=["i_sd", "i_sq", "epsilon"], SynRM=["i_sd", "i_sq", "epsilon"],
               EESM=["i_sd", "i_sq", "i_e", "epsilon"]).get(kind, [])
    for q in cur:
        reads[f"motor {q}"] = lambda env, o, i=names.index(q): recs[0].seen[i]
    pool = [n for n in names if n not in ("u_sup", "omega")]
    states = [str(v) for v in rng.choice(pool, size=min(5, len(pool)), replace=False)]
    same = bool(rng.random() < 0.6)
    classes = [rg.WienerProcessReferenceGenerator, rg.LaplaceProcessReferenceGenerator, rg.SinusoidalReferenceGenerator, rg.TriangularReferenceGenerator]
    first = classes[int(rng.integers(2))]

    def one(c, st):
        return c(reference_state=st, limit_margin=0.9, episode_lengths=(20, 40), **(dict(sigma_range=(0.01, 0.02)) if c in classes[:2] else dict(frequency_range=(20, 200))))

    subs = []
    for i, st in enumerate(states):
        if i == 1:
            subs.append(Ref(st))
            reads[f"user reference {i}"] = lambda env, o, r=subs[-1]: r.value
            continue
        c = first if same else classes[int(rng.integers(4))]
        if i == 3:
            subs.append(rg.SwitchedReferenceGenerator([one(c, st), one(c, st)], super_episode_length=(10, 30)))
        else:
            subs.append(one(c, st))
    order = {}
    nested = len(subs) >= 4 and rng.random() < 0.4
    gens = [rg.MultipleReferenceGenerator(subs[:2]), *subs[2:]] if nested else subs
    kw["reference_generator"] = rg.MultipleReferenceGenerator(gens) if len(gens) > 1 else gens[0]
    for i, st in enumerate(states):
        if i != 1:
            reads[f"reference {i}"] = lambda env, o, i=i: o["first"][i]
            reads[f"reference step {i}"] = lambda env, o, i=i: o["second"][i] - o["first"][i]
    env = gem.make(f"{'Cont' if cont else 'Finite'}-{task}-{kind}-v0", **kw).unwrapped
    info = dict(kind=kind, cont=cont, dist=dist, load=load, motor=str(kw.get("motor")), supply="supply" in kw, noise=(nd[k1][0], nd[k2][0]), same=same, nested=bool(nested), refs=[type(s).__name__ for s in subs])
    return env, reads, info


def ranks(x):
    r = np.argsort(np.argsort(x, kind="stable"), kind="stable").astype(float)
    return (r - r.mean()) / r.std()


def play(env, reads, seed, rng):
    cols = {k: [] for k in reads}
    act = None
    for e in range(EPISODES):
        o, _ = env.reset(seed=seed) if e == 0 and seed is not None else env.reset()
        first = np.array(o[1])
        vals = {}
        for k, f in reads.items():
            if not k.startswith("reference"):
                vals[k] = float(f(env, None))
        act = env.action_space.sample() if act is None else act
        o, *_ = env.step(act)
        view = dict(first=first, second=np.array(o[1]))
        for k, f in reads.items():
            if k.startswith("reference"):
                vals[k] = float(f(env, view))
        for k, v in vals.items():
            cols[k].append(v)
        for _ in range(int(rng.integers(3))):
            env.step(act)
    return {k: np.array(v) for k, v in cols.items()}


def kind_of(source):
    return " ".join(w for w in source.split() if not w.isdigit())


def streams(res, seed, n):
    rng = np.random.default_rng(seed)
    for c in range(n):
        kind, cont = str(rng.choice(S.KINDS)), bool(rng.integers(2))
        sub = int(rng.integers(2**31))
        env, reads, info = build(np.random.default_rng(sub), kind, cont)
        env.action_space.seed(int(rng.integers(1000)))
        s0 = int(rng.choice([0, 1, 7, 2**31]))
        runs = [("seed", play(env, reads, s0, rng)), ("other seed", play(env, reads, s0 + 1, rng))]
        if rng.random() < 0.7:
            for _ in range(2):  # fresh instances that are never seeded
                e2, r2, _ = build(np.random.default_rng(sub), kind, cont)
                e2.action_space.seed(0)
                runs.append(("unseeded", play(e2, r2, None, rng)))
                e2.close()
            res.count("unseeded")
        env.close()
        table = []
        for i, (name, cols) in enumerate(runs):
            res.count("episodes", EPISODES)
            for k, v in cols.items():
                distinct = len(np.unique(v))
                if not k.startswith("reference step"):  # (random walks may start and stay at their bound)
                    res.check(distinct > (0.2 if k.startswith("reference") else 0.9) * EPISODES, f"repeated:{kind_of(k)}", lambda: f"{k} takes {distinct} values in {EPISODES} episodes ({name}) {info}")
                if distinct < 0.3 * EPISODES:
                    res.count("degenerate")
                    continue
                res.case(kind_of(k))
                table.append((i, name, k, v, ranks(v)))
        res.count("sources", len(runs[0][1]))
        # each column with itself one and two episodes later
        for i, name, k, v, _ in table:
            for lag in (1, 2):
                a, b = ranks(v[lag:]), ranks(v[:-lag])
                r = float(a @ b) / len(a)
                res.count("lags")
                res.check(abs(r) < 0.5, f"episodes-depend:{kind_of(k)}", lambda: f"{k}: rank correlation {r:.3f} with the value {lag} episode(s) later ({name}) {info}", case=(kind_of(k), "lag", lag))
        for x in range(len(table)):
            for y in range(x):
                i, na, ka, va, ra = table[x]
                j, nb, kb, vb, rb = table[y]
                r = float(ra @ rb) / EPISODES
                if i == j:
                    res.count("pairs")
                    key = "sources-depend:" + "~".join(sorted((kind_of(ka), kind_of(kb))))
                else:
                    res.count("across_seeds")
                    key = "runs-depend:" + "~".join(sorted((kind_of(ka), kind_of(kb))))
                res.check(abs(r) < 0.5, key, lambda: f"{ka} ({na} run {i}) and {kb} ({nb} run {j}): rank correlation {r:.3f} over {EPISODES} episodes {info}",
                          case=tuple(sorted((kind_of(ka), kind_of(kb)))) + (i == j,))
        res.sample(str(info)[:150])
