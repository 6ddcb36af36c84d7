"""Independent re-computation of constraints, rewards and normalisation from recorded full states."""
import numpy as np

from . import systems as S

DEFAULT_CONSTRAINTS = dict(  # documented per environment
    PermExDc=[["name", "i"]], SeriesDc=[["name", "i"]], ExtExDc=[["name", "i_a"], ["name", "i_e"]], ShuntDc=[["name", "i_a"], ["name", "i_e"]],
    PMSM=[["squared", ["i_sq", "i_sd"]]], SynRM=[["squared", ["i_sq", "i_sd"]]], SCIM=[["squared", ["i_sq", "i_sd"]]],
    DFIM=[["squared", ["i_sq", "i_sd"]]], EESM=[["squared", ["i_sq", "i_sd"]], ["limit", ["i_e"]]])
DEFAULT_REFS = dict(  # documented referenced quantities of the default environments
    CC=dict(PermExDc=["i"], SeriesDc=["i"], ExtExDc=["i_a", "i_e"], ShuntDc=["i_a"], PMSM=["i_sd", "i_sq"], SynRM=["i_sd", "i_sq"],
            EESM=["i_sd", "i_sq", "i_e"], SCIM=["i_sd", "i_sq"], DFIM=["i_sd", "i_sq"]),
    TC={k: ["torque"] for k in S.KINDS}, SC={k: ["omega"] for k in S.KINDS})


def constraints(cfg):
    return cfg["constraints"] if "constraints" in cfg else DEFAULT_CONSTRAINTS[cfg["kind"]]


def degree(cs, names, state):
    """-> (violation degree, closeness to the decision boundary)"""
    pos = {n: i for i, n in enumerate(names)}
    d, margin = 0.0, np.inf
    for k, v in cs:
        if k == "squared":
            q = float(np.sum(np.asarray([state[pos[n]] for n in v]) ** 2))
        else:
            v = [v] if k == "name" else v
            v = names if "all_states" in v else v
            q = float(np.max(np.abs([state[pos[n]] for n in v])))
        d = max(d, float(q > 1.0))
        margin = min(margin, abs(q - 1.0))
    return d, margin


def monitor_degree(m, names, state):
    """Total violation degree of a configured monitor (see zoo.random_monitor)."""
    cs = [list(c) for c in m["hard"]]
    if m["limit"]:
        cs.append(["limit", ["all_states"] if isinstance(m["limit"], str) else m["limit"]])
    ds, margin = [], np.inf
    for c in cs:
        d, mg = degree([c], names, state)
        ds.append(d)
        margin = min(margin, mg)
    for n, lo, hi in m["soft"]:
        d = min(max((abs(float(state[names.index(n)])) - lo) / (hi - lo), 0.0), 1.0)
        ds.append(d)
        if d > 0.5:
            margin = min(margin, abs(abs(float(state[names.index(n)])) - hi))
    if not ds:
        return 0.0, margin
    if m["merge"] == "mean":
        return float(sum(ds) / len(ds)), margin
    return (max(ds) if m["merge"] == "max" else 1.0 - float(np.prod([1.0 - d for d in ds]))), margin


def violation(cfg, names, state):
    """-> (degree, margin) for any configuration of the zoo."""
    if cfg.get("monitor"):
        return monitor_degree(cfg["monitor"], names, state)
    return degree(constraints(cfg), names, state)


def referenced(cfg):
    """Names of the referenced states in the order of the reference observation."""
    r = cfg.get("ref")
    if r is None:
        return list(DEFAULT_REFS[cfg["env"].split("-")[1]][cfg["kind"]])
    if r["cls"] == "Zero":
        return []
    if r["cls"] == "Multiple":
        return [s["state"] for s in r["subs"]]
    if r["cls"] == "Switched":
        return [r["subs"][0]["state"]]
    return [r["state"]]


def reward(cfg, names, low, high):
    """Oracle of the configured (or default) reward function."""
    if cfg.get("reward"):
        return Reward(cfg["reward"], names, low, high, referenced(cfg))
    d = DEFAULT_REFS[cfg["env"].split("-")[1]][cfg["kind"]]
    return Reward(dict(reward_weights={n: 1 / len(d) for n in d}), names, low, high, d)


class Reward:
    """Weighted sum of errors as documented."""

    def __init__(self, rw, names, low, high, referenced):
        n = len(names)
        w = np.zeros(n)
        if rw is not None and rw.get("reward_weights") is not None:
            for k, v in rw["reward_weights"].items():
                w[names.index(k)] = v
        elif len(referenced):
            for k in referenced:
                w[names.index(k)] = 1 / len(referenced)
        else:
            w[:] = 1 / n
        rw = rw or {}
        p = rw.get("reward_power", 1)
        self.n = np.ones(n) * p if not isinstance(p, dict) else np.zeros(n)
        if isinstance(p, dict):
            for k, v in p.items():
                self.n[names.index(k)] = v
        if rw.get("normed_reward_weights"):
            w = w / w.sum()
        self.w = w
        self.length = np.asarray(high) - np.asarray(low)
        b = rw.get("bias", 0.0)
        self.bias = float(w.sum()) if b == "positive" else float(b)
        self.range = (-float(w.sum()) + self.bias, self.bias)
        self.gamma = rw.get("gamma", 0.9)
        vr = rw.get("violation_reward")
        self.violation = vr if vr is not None else min(self.range[0] / (1.0 - self.gamma), 0.0)

    def __call__(self, state, ref, degree):
        idx = self.w != 0
        e = np.abs(np.asarray(state)[idx] - np.asarray(ref)[idx]) / self.length[idx]
        wse = -float(np.sum(self.w[idx] * e ** self.n[idx])) + self.bias
        return (1.0 - degree) * wse + degree * self.violation
