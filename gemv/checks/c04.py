"""C04: whatever is returned conforms to the declared spaces and to the documented shape of the API."""
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C04"
RULE = ("every observation, reference, reward and flag returned by random and by all default environments is checked against the"
        " declared spaces, names, limits and shapes; all states are observed by limit constraints, so every non-terminal state has"
        " to lie in the declared state space; distinct = configuration; actions drawn from the action space are always accepted")
ASSUMPTIONS = ["measurement noise may leave the state space", "one-sided bounds are claimed for voltages only (currents may cross zero within a step)", "the flux observer's declared bounds are not normalised (known finding)",
               "default constraints do not cover all states: observations outside of the declared space are known findings per motor"]
REQUIRE = {"observations": 10000, "nonterminal": 6000, "unipolar_states": 2000, "default_envs": 54, "bound_hits": 300, "filtered": 2000, "declared_states": 800, "declared_actions": 150}


def jobs(tier, seed):
    n, m, st = (20, 8, 120) if tier == "quick" else (120, 16, 300)
    js = [("spaces", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]
    ids = S.ENV_IDS
    js += [("defaults", dict(seed=[seed, 400 + j], ids=ids[j::9], steps=250 if tier == "quick" else 2500)) for j in range(9)]
    js += [("declared", dict(seed=[seed, 700 + j], n=40 if tier == "quick" else 600)) for j in range(4)]
    js += [("flux_bounds", dict(seed=[seed, 950]))]
    return js


def static(res, env, key):
    """Consistency of the declared interface."""
    import gymnasium

    sp, ref = env.observation_space[0], env.observation_space[1]
    n = len(env.state_names)
    ok = (isinstance(sp, gymnasium.spaces.Box) and sp.shape == (n,) and len(env.limits) == n and len(env.nominal_state) == n)
    res.check(ok, f"interface:{key}:lengths", f"state names {env.state_names}, space {sp}, limits {env.limits}, nominal {env.nominal_state}")
    res.check(np.all(sp.low <= sp.high) and np.all(sp.low >= -1 - 1e-12) and np.all(sp.high <= 1 + 1e-12), f"interface:{key}:bounds",
              lambda: f"normalised state space exceeds [-1, 1]: {sp.low} {sp.high} {env.state_names}")
    res.check(ref.shape == (len(env.reference_names),), f"interface:{key}:references", f"{env.reference_names} vs {ref}")
    res.check(bool(np.all(env.limits > 0)), f"interface:{key}:limits", f"limits {dict(zip(env.state_names, env.limits))}")
    full = env.physical_system
    res.check(env.state_names == [full.state_names[i] for i in env.state_filter] and all(full.state_positions[nm] == i for i, nm in enumerate(full.state_names)),
              f"interface:{key}:positions", f"{env.state_names} {full.state_names} {full.state_positions}")
    inner = full.unwrapped
    for attr, first in (("OMEGA_IDX", "omega"), ("TORQUE_IDX", "torque"), ("CURRENTS_IDX", "i"), ("VOLTAGES_IDX", "u"), ("U_SUP_IDX", "u_sup"), ("EPSILON_IDX", "epsilon")):
        idx = getattr(inner, attr, None)
        if idx is None or (first == "epsilon" and "epsilon" not in inner.state_names):
            continue
        want = [nm for nm in inner.state_names if (nm.split("_")[0] == first and nm != "u_sup" if len(first) == 1 else nm == first)]
        got = [inner.state_names[i] for i in (idx if isinstance(idx, (list, tuple, np.ndarray)) else [idx])]
        res.check(sorted(got) == sorted(want), f"interface:{key}:index-lists", lambda: f"{attr} points to {got} in {inner.state_names}")
    res.check(env.action_space is not None and env.action_space == full.action_space, f"interface:{key}:actions", "action spaces differ")
    lo = np.array([full.state_space.low[full.state_names.index(s)] for s in env.state_names])
    hi = np.array([full.state_space.high[full.state_names.index(s)] for s in env.state_names])
    li = np.array([full.limits[full.state_names.index(s)] for s in env.state_names])
    res.check(np.array_equal(lo, sp.low) and np.array_equal(hi, sp.high) and np.array_equal(li, env.limits), f"interface:{key}:filter",
              lambda: f"filtered spaces/limits do not belong to {env.state_names}")


def shape(res, env, obs, key):
    st, rf = obs
    ok = (type(obs) is tuple and len(obs) == 2 and isinstance(st, np.ndarray) and isinstance(rf, np.ndarray) and st.shape == env.observation_space[0].shape
          and rf.shape == env.observation_space[1].shape and np.issubdtype(st.dtype, np.floating) and np.issubdtype(rf.dtype, np.floating))
    res.check(ok, f"shape:{key}", lambda: f"observation {obs!r} does not have the declared shape {env.observation_space}")
    return ok


def ref_ok(res, env, rf, key):
    sp = env.observation_space[1]
    res.check(np.all(rf >= sp.low - 1e-12) and np.all(rf <= sp.high + 1e-12), f"reference-space:{key}", lambda: f"reference {rf} outside of {sp}")


def state_ok(res, env, st, kind, tol, prefix="state-space", skip=()):
    sp = env.observation_space[0]
    bad = (st < sp.low - tol) | (st > sp.high + tol)
    res.case()
    for j in np.nonzero(bad)[0]:
        nm = env.state_names[j]
        if prefix != DEFAULT_KNOWN and nm in skip and st[j] > sp.low[j] - 1 - tol and st[j] <= sp.high[j] + tol:
            continue
        if prefix == DEFAULT_KNOWN and np.max(np.abs(st)) > 1:
            # a limit is exceeded without being observed by the default constraints
            res.violation(f"default-observation-outside-space:{kind}", f"{nm} = {st[j]} outside of the declared [{sp.low[j]}, {sp.high[j]}], not terminated")
            continue
        res.violation(f"{prefix}:{kind}:{nm}", f"{nm} = {st[j]} outside of the declared [{sp.low[j]}, {sp.high[j]}] although no limit is exceeded")


def step_types(res, out, key):
    ok = (type(out) is tuple and len(out) == 5 and np.ndim(out[1]) == 0 and np.isfinite(out[1]) and isinstance(out[2], (bool, np.bool_)) and not out[3] and isinstance(out[4], dict))
    res.check(ok, f"step-result:{key}", lambda: f"step returned {out!r}")


def spaces(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng, noise=False, flux=False)
        # alternating supplies turn unipolar converters bipolar: the declared spaces are for DC links
        if cfg.get("supply", {}).get("kind") == "ac1":
            del cfg["supply"]
        if cfg.get("spec", {}).get("supply", {}).get("kind") == "ac1":
            cfg["spec"]["supply"] = dict(kind="ideal", u=cfg["spec"]["supply"]["u"])
        cfg["constraints"] = [["limit", ["all_states"]]]
        log = []
        env = zoo.make(cfg, callbacks=(E.mk_recorder(log),))
        kind = cfg["kind"]
        key = "dc" if kind in S.DC else kind
        static(res, env, key)
        full = env.physical_system
        want = cfg.get("filter") or full.state_names
        res.check(list(env.state_names) == list(want), f"interface:{key}:filter-names", f"requested states {want}, observed {env.state_names}")
        order = [full.state_names.index(q) for q in want]
        sp = full.state_space
        one_sided = (sp.low == 0)
        act = S.Actions(env.action_space, rng)
        tau = full.tau
        obs, info = env.reset(seed=int(rng.integers(2**31)))
        res.check(isinstance(info, dict), "reset-result", f"reset info {info!r}")
        # numerical one-sidedness: a discretised unipolar current may cross zero within one step by the step's own change
        prev = None
        for k in range(steps):
            shape(res, env, obs, key)
            last = next(e for e in reversed(log) if e[1] in ("reset_end", "step_end"))
            st = last[2] if last[1] == "reset_end" else last[3]
            res.check(np.array_equal(obs[0], st[order], equal_nan=True), f"filter-values:{key}", lambda: f"observed {obs[0]} of {want}, state {dict(zip(full.state_names, st))}",
                      case=("filter", kind) if "filter" in cfg else None)
            res.count("filtered", int("filter" in cfg))
            log.clear()
            ref_ok(res, env, obs[1], cfg.get("ref", {}).get("cls", "default"))
            a = act()
            res.check(env.action_space.contains(a if not isinstance(a, np.ndarray) else a.astype(env.action_space.dtype)), "harness:action", "bad harness action")
            out = env.step(a)
            step_types(res, out, key)
            obs = out[0]
            res.count("observations")
            if out[2]:
                obs, _ = env.reset()
                continue
            res.count("nonterminal")
            res.count("unipolar_states", int(one_sided.sum()))
            res.count("bound_hits", int(np.any(np.abs(obs[0]) > 0.9)))
            state_ok(res, env, obs[0], kind, 1e-9, skip=one_sided_skip(cfg, env))
        res.case(zoo.tag(cfg))
        if c == 0:
            res.sample(dict(cfg=cfg["env"], space=repr(sp), last=obs[0]))


def one_sided_skip(cfg, env):
    """States whose declared lower bound of zero is an idealisation that the discretised model may cross (not claimed):
    the model has no diode that ends a current inside of a step, and a braking shunt armature feeds its own field."""
    return [nm for nm in env.state_names if nm in ("omega", "torque", "i", "i_a", "i_e", "i_sum")]


DEFAULT_KNOWN = "default-state-space"


def defaults(res, seed, ids, steps):
    import gym_electric_motor as gem

    rng = np.random.default_rng(seed)
    for i in ids:
        env = gem.make(i, visualization=()).unwrapped
        kind = i.split("-")[2]
        key = "dc" if kind in S.DC else kind
        static(res, env, key)
        act = S.Actions(env.action_space, rng)
        obs, _ = env.reset(seed=int(rng.integers(2**31)))
        for k in range(steps):
            shape(res, env, obs, key)
            ref_ok(res, env, obs[1], i)
            out = env.step(act() if k % 3 else env.action_space.sample())
            step_types(res, out, key)
            obs = out[0]
            res.count("observations")
            if out[2]:
                obs, _ = env.reset()
                continue
            state_ok(res, env, obs[0], kind, 1e-9, prefix=DEFAULT_KNOWN, skip=one_sided_skip(None, env))
        res.count("default_envs")
        res.case(i)


def flux_bounds(res, seed):
    import gym_electric_motor as gem
    from gym_electric_motor.physical_system_wrappers import FluxObserver

    for kind in S.IND:
        env = gem.make(f"Cont-CC-{kind}-v0", visualization=(), physical_system_wrappers=(FluxObserver(),)).unwrapped
        sp = env.observation_space[0]
        ok = np.all(np.abs(sp.high) <= 1 + 1e-12) and np.all(np.abs(sp.low) <= 1 + 1e-12)
        res.check(ok, "flux-observer-space-not-normalised", f"{dict(zip(env.state_names, zip(sp.low, sp.high)))}")


def declared(res, seed, n):
    """the declared spaces of bare systems follow from what their converters can deliver: quantities that can become negative have
    the lower bound -1, voltages and currents that cannot have 0; the actions have the shape of the control space"""
    rng = np.random.default_rng(seed)
    for _ in range(n):
        s = S.random_spec(rng, supplies=("ideal", "rc"))
        sysm, _solver = S.mk_system(s)
        kind = s["kind"]
        low = dict(zip(sysm.state_names, np.asarray(sysm.state_space.low, float)))
        high = np.asarray(sysm.state_space.high, float)
        case = (kind, tuple(s["conv"]), s["cont"], bool(s.get("dq")))
        res.case(case)
        res.check(np.all(high == 1.0), f"declared-high:{kind}", lambda: f"{dict(zip(sysm.state_names, high))}", case)
        want = {}
        if kind in S.DC:
            u = [dict([("1QC", 0.0), ("2QC", 0.0), ("4QC", -1.0)])[c] for c in s["conv"]]
            i = [dict([("1QC", 0.0), ("2QC", -1.0), ("4QC", -1.0)])[c] for c in s["conv"]]
            if kind == "ExtExDc":
                want = dict(u_a=u[0], u_e=u[1], i_a=i[0], i_e=i[1])
            elif kind == "ShuntDc":
                want = dict(u=u[0], i_a=i[0], i_e=i[0])
            else:
                want = dict(u=u[0], i=i[0])
            want["u_sup"] = 0.0
            # (without a negative current in either circuit there is no negative torque; a bipolar voltage reverses the motor)
            if kind == "PermExDc":
                want["torque"], want["omega"] = i[0], u[0]
            elif kind == "ExtExDc":
                want["torque"], want["omega"] = min(i), min(u)
        else:
            want = {q: -1.0 for q in sysm.state_names if q != "u_sup"}
            want["u_sup"] = 0.0
        for q, v in want.items():
            res.count("declared_states")
            res.check(low[q] == v, f"declared-low:{kind}:{q}", lambda: f"lower bound {low[q]} of {q} of a {kind} with {s['conv']} instead of {v}", case)
        a = sysm.action_space
        res.count("declared_actions")
        if s.get("dq"):
            ok = getattr(a, "shape", None) == (2 if kind != "EESM" else a.shape[0],) and np.all(a.low == -1) and np.all(a.high == 1)
        elif s["cont"]:
            alow = sum(([0.0] if c == "1QC" else [0.0] if c == "2QC" else [-1.0] if c == "4QC" else [-1.0] * 3 for c in s["conv"]), [])
            ok = np.array_equal(np.asarray(a.low, float), alow) and np.array_equal(np.asarray(a.high, float), np.ones(len(alow)))
        else:
            m = [dict([("1QC", 2), ("2QC", 3), ("4QC", 4), ("B6", 8)])[c] for c in s["conv"]]
            ok = int(a.n) == m[0] if len(m) == 1 else np.array_equal(a.nvec, m)
        res.check(bool(ok), f"declared-action:{kind}", lambda: f"action space {a} of {case}", case)
