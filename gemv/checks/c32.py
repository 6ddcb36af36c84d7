"""C32: a StateObserver reports the current values of the environment."""
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C32"
RULE = ("random environments with and without state filters, wrappers and several references; observers created before the first reset, after it and"
        " in the middle of an episode, on the registered (wrapped) and on the bare environment: after every reset and (also terminating) step each observable name is"
        " compared with the observation that was returned by that call; other names and observations before the first reset have to be refused;"
        " the caller overwrites some of the returned arrays; user-defined observers get each pulled value once; distinct = motor x filter x references x wrapped")
ASSUMPTIONS = []
REQUIRE = {"observed": 20000, "refused": 600, "after_reset": 4000, "references": 5000, "filtered": 5000, "wrapped": 60, "pushed": 5000, "overwritten": 2000, "terminal": 60}


def jobs(tier, seed):
    n, m, st = (24, 8, 40) if tier == "quick" else (120, 20, 150)
    return [("observe", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]


def mk_custom(env):
    from gym_electric_motor.observers import StateObserver

    class Custom(StateObserver):
        def __init__(self, env):
            super().__init__(env)
            self.got = []

        def push(self, value):
            self.got.append(value)

    return Custom(env)


def refused(res, f, key, what):
    res.count("refused")
    try:
        v = f()
    except ValueError:
        res.case((key,))
        return
    except Exception as e:
        res.violation(f"wrong-error:{key}", f"{what}: {e!r}")
        return
    res.violation(f"accepted:{key}", f"{what} returned {v}")


def taken(res, rng, a):
    """The returned values; the returned array belongs to the caller, who overwrites some of them."""
    v = E.freeze(a)
    if rng.random() < 0.3 and isinstance(a, np.ndarray) and a.flags.writeable:
        a[...] = 77.0
        res.count("overwritten")
    return v


def observe(res, seed, n, steps):
    import gym_electric_motor as gem
    from gym_electric_motor.observers import StateObserver

    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, noise=bool(rng.random() < 0.3))
        env = gem.make(cfg["env"], **zoo.kwargs(cfg))
        bare = env.unwrapped
        wrapped = bool(rng.random() < 0.5)
        if wrapped:
            res.count("wrapped")
        else:
            env = bare
        names, refs = list(bare.state_names), list(bare.reference_names)
        case = (cfg["kind"], "filter" in cfg, len(refs), wrapped)
        obs = [StateObserver(env)]
        custom = mk_custom(env)
        q = str(rng.choice(names))
        refused(res, lambda: obs[0].observe(q), "before-reset", f"{cfg['env']}: observing {q} before the first reset")
        act = S.Actions(bare.action_space, rng)
        (st, rf), _ = env.reset(seed=int(rng.integers(2**31)))
        st, rf = taken(res, rng, st), taken(res, rng, rf)
        fresh, ended = True, False
        for k in range(steps):
            if k and rng.random() < 0.05:
                obs.append(StateObserver(env))
            o = obs[int(rng.integers(len(obs)))]
            sel = names if k < 3 else [str(x) for x in rng.choice(names, size=min(3, len(names)), replace=False)]
            what = f"{cfg['env']} ({'wrapped' if wrapped else 'bare'}, filter {cfg.get('filter')}), {'reset' if fresh else f'step {k}'}"
            pairs = [(a, st[names.index(a)], "state") for a in sel] + [(r + "_ref", rf[i], "reference") for i, r in enumerate(refs)]
            for j in rng.permutation(len(pairs)):
                a, want, typ = pairs[j]
                try:
                    got = o.observe(a)
                except Exception as e:
                    res.violation(f"refused:{typ}:{'reset' if fresh else 'step'}", f"{what}: observing {a}: {e!r}")
                    continue
                res.count("observed")
                res.count("after_reset", int(fresh))
                res.count("references", int(typ == "reference"))
                res.count("filtered", int("filter" in cfg))
                ok = isinstance(got, tuple) and len(got) == 2 and got[0] == a and np.ndim(got[1]) == 0 and (got[1] == want or (np.isnan(got[1]) and np.isnan(want)))
                res.check(ok, f"value:{typ}:{'reset' if fresh else 'step'}", lambda: f"{what}: observed {got}, returned observation {a} = {want}", case=case + (typ, fresh))
            a = str(rng.choice([p[0] for p in pairs]))
            n0 = len(custom.got)
            v = custom.observe(a)
            res.count("pushed")
            res.check(len(custom.got) == n0 + 1 and custom.got[-1] == v or np.isnan(v[1]), "push", lambda: f"{what}: pulled {v}, pushed {custom.got[n0:]}")
            if k % 10 == 5:
                hidden = [s for s in bare.physical_system.state_names if s not in names] + ["unknown", "unknown_ref", names[0] + "_"]
                b = str(rng.choice(hidden))
                refused(res, lambda: o.observe(b), "unknown", f"{what}: observing {b}")
            res.check(list(bare.state_names) == names and list(bare.reference_names) == refs, "names-changed", lambda: f"{what}: {bare.state_names} {bare.reference_names}")
            # the observation of a terminating step is observed like all others before the reset
            fresh = ended or rng.random() < 0.04
            out = env.reset() if fresh else env.step(act())
            ended = not fresh and bool(out[2])
            res.count("terminal", int(ended and k < steps - 1))
            st, rf = taken(res, rng, out[0][0]), taken(res, rng, out[0][1])
        if c == 0:
            res.sample(dict(env=cfg["env"], names=names, references=refs))
