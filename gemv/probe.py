"""Transparent physical system wrapper that records what passes between two layers of a wrapper stack."""
from .envrun import freeze


def mk_probe(log, layer):
    from gym_electric_motor.physical_system_wrappers import PhysicalSystemWrapper

    class Probe(PhysicalSystemWrapper):
        def reset(self, **kw):
            out = self._physical_system.reset(**kw)
            log.append((layer, "reset", None, freeze(out)))
            return out

        def simulate(self, action):
            a = freeze(action)
            out = self._physical_system.simulate(action)
            log.append((layer, "simulate", a, freeze(out)))
            return out

    return Probe()


def call(log, layers):
    """Splits the records of one outermost call by layer -> list (one entry per layer, innermost first) or None if not exactly once."""
    out = [None] * layers
    for layer, kind, a, s in log:
        if out[layer] is not None:
            return None
        out[layer] = (kind, a, s)
    return None if any(v is None for v in out) else out
