"""C20: callbacks see every event of the environment exactly once, in order, with the values that the caller gets."""
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C20"
RULE = ("offline check of the recorded event log of several callbacks and visualizations against the trace specification"
        " set_env (reset_begin reset_end (step_begin(k) step_end(k+1))*)* close, with registration order inside of every event and"
        " payloads equal to what the caller passed and received; distinct = number of callbacks x motor x event kind")
ASSUMPTIONS = ["payloads are deep-copied by the recording callbacks when they are called"]
REQUIRE = {"events": 20000, "steps": 4000, "resets": 300, "midepisode_resets": 60, "terminations": 50, "closes": 60, "visualizations": 40}


def jobs(tier, seed):
    n, m, st = (16, 10, 70) if tier == "quick" else (96, 20, 300)
    return [("protocol", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]


def mk_vis(log, name):
    from gym_electric_motor.core import ElectricMotorVisualization

    rec = E.mk_recorder(log, name)

    class Vis(ElectricMotorVisualization):
        def render(self):
            log.append((name, "render"))

        def set_env(self, env):
            rec.set_env(env)

        def on_reset_begin(self):
            rec.on_reset_begin()

        def on_reset_end(self, state, reference):
            rec.on_reset_end(state, reference)

        def on_step_begin(self, k, action):
            rec.on_step_begin(k, action)

        def on_step_end(self, k, state, reference, reward, terminated):
            rec.on_step_end(k, state, reference, reward, terminated)

        def on_close(self):
            rec.on_close()

    return Vis()


def group(res, log, order, kinds, what):
    """The log must consist of the events ``kinds``, each reported to every callback in registration order."""
    want = [(n, k) for k in kinds for n in order]
    got = [e[:2] for e in log]
    res.count("events", len(log))
    return res.check(got == want, f"order:{what}", lambda: f"events {got} expected {want}", case=(what, len(order)))


def payload_equal(res, log, kind, what):
    ev = [e[2:] for e in log if e[1] == kind]
    first = E.bits(ev[0]) if ev else None
    res.check(all(E.bits(e) == first for e in ev), f"payload-differs:{what}", lambda: f"callbacks were told different things: {ev}")
    return ev[0] if ev else None


def protocol(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng)
        log = []
        nc, nv = int(rng.integers(1, 4)), int(rng.integers(0, 3))
        cbs = tuple(E.mk_recorder(log, f"c{i}") for i in range(nc))
        vis = tuple(mk_vis(log, f"v{i}") for i in range(nv))
        res.count("visualizations", nv)
        order = [f"c{i}" for i in range(nc)] + [f"v{i}" for i in range(nv)]
        as_list = bool(rng.integers(2))
        kw = zoo.kwargs(cfg)
        kw["callbacks"] = list(cbs) if as_list else cbs
        kw["visualization"] = vis[0] if nv == 1 else ()
        import gym_electric_motor as gem

        if nv < 2:
            env = gem.make(cfg["env"], **kw).unwrapped
        else:
            # several visualizations: the environment class itself takes an iterable, built around the same modules
            e = gem.make(cfg["env"], **dict(kw, callbacks=(), physical_system_wrappers=())).unwrapped if not cfg.get("wrappers") else zoo.make(cfg)
            env = gem.core.ElectricMotorEnvironment(
                physical_system=e.physical_system, reference_generator=zoo.mk_ref(cfg["ref"]) if cfg.get("ref") else e.reference_generator,
                reward_function=gem.reward_functions.WeightedSumOfErrors(**cfg.get("reward", {})), visualization=list(vis) if as_list else vis,
                callbacks=kw["callbacks"], constraints=kw.get("constraints", ()), state_filter=cfg.get("filter"))
        group(res, log, order, ["set_env"], "construction")
        res.check(all(e[2] is env for e in log if e[1] == "set_env"), "set_env:other-environment", "set_env was given another environment")
        names = list(env.physical_system.state_names)
        sf = [names.index(x) for x in env.state_names]
        act = S.Actions(env.action_space, rng)
        for ep in range(3):
            del log[:]
            obs, _ = env.reset(seed=5 + ep) if ep % 2 else env.reset()
            res.count("resets")
            if group(res, log, order, ["reset_begin", "reset_end"], "reset"):
                p = payload_equal(res, log, "reset_end", "reset_end")
                ok = len(p[0]) == len(names) and len(p[1]) == len(names) and np.array_equal(p[0][sf], obs[0])
                res.check(ok, "reset_end:state", lambda: f"callback saw {p} returned {obs}")
            k = 0
            for _ in range(int(rng.integers(1, steps))):
                a = act()
                del log[:]
                before = E.freeze(obs)
                keep = E.freeze(a)
                out = env.step(a)
                obs = out[0]
                res.count("steps")
                if group(res, log, order, ["step_begin", "step_end"], "step"):
                    b = payload_equal(res, log, "step_begin", "step_begin")
                    e = payload_equal(res, log, "step_end", "step_end")
                    res.check(b[0] == k and E.bits(b[1]) == E.bits(keep), "step_begin:payload", lambda: f"told k={b[0]} action {b[1]}, step {k} action {keep}")
                    ok = (e[0] == k + 1 and np.shape(e[1]) == (len(names),) and np.array_equal(e[1][sf], obs[0]) and e[3] == out[1] and bool(e[4]) == bool(out[2]))
                    res.check(ok, "step_end:payload", lambda: f"told {e}, caller got {out} at step {k + 1}", case=(cfg["kind"], bool(out[2])))
                    ridx = np.asarray(env.reference_generator.referenced_states, dtype=bool)
                    res.check(np.array_equal(np.sort(e[2][ridx]), np.sort(before[1])), "step_end:reference", lambda: f"told reference {e[2]}, observed before {before[1]}")
                k += 1
                if rng.random() < 0.02:
                    del log[:]
                    env.render()
                    res.check([e[:2] for e in log] == [(f"v{i}", "render") for i in range(nv)], "render", f"{log}")
                if out[2]:
                    res.count("terminations")
                    break
            else:
                res.count("midepisode_resets")
        del log[:]
        if rng.random() < 0.7:
            env.close()
            res.count("closes")
            group(res, log, order, ["close"], "close")
        if c == 0:
            res.sample(dict(env=cfg["env"], order=order))
