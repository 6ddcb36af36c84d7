"""C26: what the environment has returned belongs to the caller, and what the caller has passed is not kept."""
import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C26"
RULE = ("every array returned by reset and step is kept and compared with its copy at the end of the run; in a second run every returned"
        " array and every passed action array is overwritten immediately, and the rest of the interaction must be bit-identical to that"
        " of an untouched twin; a third run reuses a single action buffer; distinct = motor x wrapper stack x run kind")
ASSUMPTIONS = []
REQUIRE = {"arrays_kept": 5000, "arrays_scribbled": 5000, "buffer_reused": 1000, "wrapped": 40}


def jobs(tier, seed):
    n, m, st = (24, 8, 60) if tier == "quick" else (120, 20, 200)
    return [("ownership", dict(seed=[seed, j], n=m, steps=st)) for j in range(n)]


def run(cfg, s, actions, mode, res=None, kept=None):
    env = zoo.make(cfg)
    rng = np.random.default_rng(3)
    trace = []
    buf = None

    def returned(arrays):
        for a in arrays:
            if not isinstance(a, np.ndarray):
                continue
            if mode == "keep":
                kept.append((a, a.copy()))
                res.count("arrays_kept")
            if mode == "scribble":
                res.count("arrays_scribbled")
                a[...] = rng.normal(size=a.shape) * 50

    out = env.reset(seed=s)[0]
    trace.append(E.freeze(out))
    returned(out)
    for a in actions:
        if isinstance(a, np.ndarray):
            if mode == "buffer":
                buf = np.empty_like(a) if buf is None else buf
                buf[...] = a
                a = buf
                res.count("buffer_reused")
            else:
                a = a.copy()
        o = env.step(a)
        trace.append(E.freeze(o[:4]))
        returned(o[0])
        if isinstance(a, np.ndarray) and mode in ("scribble", "buffer"):
            a[...] = 0 if a.dtype.kind in "iu" else 0.1234
        if o[2]:
            out = env.reset()[0]
            trace.append(E.freeze(out))
            returned(out)
    return trace


def ownership(res, seed, n, steps):
    rng = np.random.default_rng(seed)
    for c in range(n):
        cfg = zoo.random_cfg(rng)
        res.count("wrapped", int(bool(cfg.get("wrappers"))))
        probe = zoo.make(cfg)
        actions = E.action_list(probe.action_space, rng, int(rng.integers(10, steps)))
        s = int(rng.integers(2**31))
        kept = []
        want = run(cfg, s, actions, "keep", res, kept)
        key = (cfg["kind"], tuple(w["w"] for w in cfg.get("wrappers", [])))
        bad = [i for i, (a, b) in enumerate(kept) if not np.array_equal(a, b, equal_nan=True)]
        res.check(not bad, f"returned-array-modified-later:{cfg['kind']}", lambda: f"array {bad[0]} of {len(kept)}: {kept[bad[0]]} cfg {cfg}", case=key + ("keep",))
        share = [i for i in range(1, len(kept)) if np.shares_memory(kept[i][0], kept[i - 1][0])]
        res.check(not share, f"returned-arrays-share-memory:{cfg['kind']}", lambda: f"array {share[0]} cfg {cfg}")
        got = run(cfg, s, actions, "scribble", res)
        res.check(E.bits(got) == E.bits(want), f"scribbling-has-effect:{cfg['kind']}", lambda: E.first_difference(want, got) + f" cfg {cfg}", case=key + ("scribble",))
        if isinstance(actions[0], np.ndarray):
            got = run(cfg, s, actions, "buffer", res)
            res.check(E.bits(got) == E.bits(want), f"action-buffer-kept:{cfg['kind']}", lambda: E.first_difference(want, got) + f" cfg {cfg}", case=key + ("buffer",))
        if c == 0:
            res.sample(dict(env=cfg["env"], arrays=len(kept), wrappers=[w["w"] for w in cfg.get("wrappers", [])]))
