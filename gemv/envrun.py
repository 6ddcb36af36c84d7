"""Event recorder for whole environments: one ordered log of what the API returned and what the callbacks were told."""
import hashlib

import numpy as np

from . import systems as S


def freeze(x):
    """Private deep copy of an event payload."""
    if isinstance(x, np.ndarray):
        return np.array(x, copy=True)
    if isinstance(x, (tuple, list)):
        return type(x)(freeze(v) for v in x)
    return x


def mk_recorder(log, name="cb"):
    from gym_electric_motor.core import Callback

    class Recorder(Callback):
        def set_env(self, env):
            super().set_env(env)
            log.append((name, "set_env", env))

        def on_reset_begin(self):
            log.append((name, "reset_begin"))

        def on_reset_end(self, state, reference):
            log.append((name, "reset_end", freeze(state), freeze(reference)))

        def on_step_begin(self, k, action):
            log.append((name, "step_begin", k, freeze(action)))

        def on_step_end(self, k, state, reference, reward, terminated):
            log.append((name, "step_end", k, freeze(state), freeze(reference), reward, terminated))

        def on_close(self):
            log.append((name, "close"))

    # the order of notification must not depend on the class or its name
    Recorder.__name__ = Recorder.__qualname__ = hashlib.md5(name.encode()).hexdigest()[:6]
    return Recorder()


def bits(x, h=None):
    """Exact digest of nested results."""
    own = h is None
    h = h or hashlib.blake2b(digest_size=12)
    if isinstance(x, np.ndarray):
        h.update(repr((x.shape, str(x.dtype))).encode())
        h.update(np.ascontiguousarray(x).tobytes())
    elif isinstance(x, (tuple, list)):
        h.update(b"(%d" % len(x))
        for v in x:
            bits(v, h)
    elif isinstance(x, dict):
        for k in x:
            h.update(str(k).encode())
            bits(x[k], h)
    elif isinstance(x, (float, np.floating)):
        h.update(np.float64(x).tobytes())
    else:
        h.update(repr(x).encode())
    return h.hexdigest() if own else None


def episode(env, actions, trace, steps, info=None):
    """Plays until termination or ``steps``; appends every returned tuple (deep copies) to ``trace``."""
    n = 0
    for a in actions[:steps]:
        out = env.step(a)
        trace.append(freeze(out[:4]))
        n += 1
        if out[2]:
            if info is not None:
                info["term"] = True
            break
    return n


def action_list(space, rng, n):
    src = S.Actions(space, rng)
    return [freeze(src()) for _ in range(n)]


def first_difference(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if bits(x) != bits(y):
            return f"entry {i}: {x!r} != {y!r}"
    return f"lengths {len(a)} != {len(b)}"
