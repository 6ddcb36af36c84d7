"""Plays random environments while a recording callback logs the event stream; one record per step for the oracles."""
import numpy as np

from . import envrun as E
from . import systems as S
from . import zoo


class Session:
    """An environment of the zoo with a recorder; ``run`` yields a record per environment step."""

    def __init__(self, cfg, rng, extra=(), visualization=()):
        self.cfg, self.rng, self.log = cfg, rng, []
        self.env = zoo.make(cfg, callbacks=tuple(extra) + (E.mk_recorder(self.log, "rec"),), visualization=visualization)
        self.names = list(self.env.physical_system.state_names)
        self.act = S.Actions(self.env.action_space, rng)
        self.k = 0
        self.obs = None
        self.episode = 0

    def reset(self, seed=None):
        n = len(self.log)
        out = self.env.reset(seed=seed) if seed is not None else self.env.reset()
        self.obs = E.freeze(out[0])
        self.k = 0
        self.episode += 1
        return dict(type="reset", obs=self.obs, events=self.log[n:], info=out[1])

    def step(self, action=None):
        n = len(self.log)
        a = self.act() if action is None else action
        before = self.obs
        out = self.env.step(a)
        self.k += 1
        self.obs = E.freeze(out[0])
        ev = self.log[n:]
        end = [e for e in ev if e[1] == "step_end"]
        rec = dict(type="step", k=self.k, action=E.freeze(a), before=before, obs=self.obs, reward=out[1], terminated=out[2],
                   truncated=out[3], info=out[4], events=ev)
        if len(end) == 1:
            rec["state"], rec["reference"] = end[0][3], end[0][4]
        return rec

    def run(self, steps, reset_prob=0.005):
        """Yields reset and step records; episodes end at terminations and at random."""
        yield self.reset(seed=int(self.rng.integers(2**31)))
        for _ in range(steps):
            rec = self.step()
            yield rec
            if rec["terminated"] or self.rng.random() < reset_prob:
                yield self.reset()
