"""Independent model of the drive: an executable specification the monitors compare observed executions with.

Written from the documented equations of the motors / converters / supplies / loads, in scalar form, with its own
state. It never calls code of the package under test.
"""
import math

import numpy as np

S3 = math.sqrt(3.0)


# ------------------------------------------------------------------ coordinate transformations (amplitude invariant)
def abc2ab(x):
    a, b, c = (float(v) for v in x)
    return np.array([2.0 / 3.0 * a - b / 3.0 - c / 3.0, (b - c) / S3])


def ab2abc(x):
    al, be = float(x[0]), float(x[1])
    return np.array([al, -0.5 * al + 0.5 * S3 * be, -0.5 * al - 0.5 * S3 * be])


def ab2dq(x, eps):
    c, s = math.cos(eps), math.sin(eps)
    return np.array([c * x[0] + s * x[1], -s * x[0] + c * x[1]])


def dq2ab(x, eps):
    c, s = math.cos(eps), math.sin(eps)
    return np.array([c * x[0] - s * x[1], s * x[0] + c * x[1]])


def abc2dq(x, eps):
    return ab2dq(abc2ab(x), eps)


def dq2abc(x, eps):
    return ab2abc(dq2ab(x, eps))


def wrap(eps):
    """Angle in (-pi, pi]."""
    e = math.fmod(float(eps), 2 * math.pi)
    if e > math.pi:
        e -= 2 * math.pi
    elif e <= -math.pi:
        e += 2 * math.pi
    return e


def angle_close(a, b, tol):
    d = (a - b + math.pi) % (2 * math.pi) - math.pi
    return abs(d) <= tol


# ------------------------------------------------------------------ motors: state = electrical part of the ODE
class Motor:
    kind = None

    def __init__(self, p):
        self.p = dict(p)


class ExtExDc(Motor):
    states = ["i_a", "i_e"]

    def deriv(self, x, u, w):
        p = self.p
        return np.array([(u[0] - p["r_a"] * x[0] - p["l_e_prime"] * w * x[1]) / p["l_a"],
                         (u[1] - p["r_e"] * x[1]) / p["l_e"]])

    def torque(self, x):
        return self.p["l_e_prime"] * x[0] * x[1]

    def i_in(self, x):
        return [x[0], x[1]]

    # power bookkeeping: (copper losses, stored energy gradient is covered by the caller via deriv)
    def losses(self, x):
        return self.p["r_a"] * x[0] ** 2 + self.p["r_e"] * x[1] ** 2

    def stored(self, x):
        return 0.5 * self.p["l_a"] * x[0] ** 2 + 0.5 * self.p["l_e"] * x[1] ** 2


class ShuntDc(ExtExDc):
    def deriv(self, x, u, w):
        return super().deriv(x, (u[0], u[0]), w)

    def i_in(self, x):
        return [x[0] + x[1]]


class SeriesDc(Motor):
    states = ["i"]

    def deriv(self, x, u, w):
        p = self.p
        return np.array([(u[0] - (p["r_a"] + p["r_e"]) * x[0] - p["l_e_prime"] * w * x[0]) / (p["l_a"] + p["l_e"])])

    def torque(self, x):
        return self.p["l_e_prime"] * x[0] ** 2

    def i_in(self, x):
        return [x[0]]

    def losses(self, x):
        return (self.p["r_a"] + self.p["r_e"]) * x[0] ** 2

    def stored(self, x):
        return 0.5 * (self.p["l_a"] + self.p["l_e"]) * x[0] ** 2


class PermExDc(Motor):
    states = ["i"]

    def deriv(self, x, u, w):
        p = self.p
        return np.array([(u[0] - p["r_a"] * x[0] - p["psi_e"] * w) / p["l_a"]])

    def torque(self, x):
        return self.p["psi_e"] * x[0]

    def i_in(self, x):
        return [x[0]]

    def losses(self, x):
        return self.p["r_a"] * x[0] ** 2

    def stored(self, x):
        return 0.5 * self.p["l_a"] * x[0] ** 2


class PMSM(Motor):
    states = ["i_sd", "i_sq", "epsilon"]

    def psi(self, x):
        return self.p.get("psi_p", 0.0)

    def deriv(self, x, u, w):
        p = self.p
        we = p["p"] * w
        return np.array([(u[0] - p["r_s"] * x[0] + we * p["l_q"] * x[1]) / p["l_d"],
                         (u[1] - p["r_s"] * x[1] - we * (p["l_d"] * x[0] + self.psi(x))) / p["l_q"],
                         we])

    def torque(self, x):
        p = self.p
        return 1.5 * p["p"] * (self.psi(x) + (p["l_d"] - p["l_q"]) * x[0]) * x[1]

    def losses(self, x):
        return 1.5 * self.p["r_s"] * (x[0] ** 2 + x[1] ** 2)

    def stored(self, x):
        return 0.75 * (self.p["l_d"] * x[0] ** 2 + self.p["l_q"] * x[1] ** 2)


class SynRM(PMSM):
    pass


class EESM(Motor):
    """Stator d/q plus excitation winding.  All in original (not stator-referred) excitation quantities i_e, u_e."""

    states = ["i_sd", "i_sq", "i_e", "epsilon"]

    def _q(self):
        p = self.p
        k = p["k"]
        # stator referred excitation quantities
        return dict(rE=1.5 * k * k * p["r_e"], lM=1.5 * k * p["l_m"], lE=1.5 * k * k * p["l_e"], f=2.0 / (3.0 * k), k=k)

    def deriv(self, x, u, w):
        p, q = self.p, self._q()
        we = p["p"] * w
        iE = q["f"] * x[2]
        psi_d = p["l_d"] * x[0] + q["lM"] * iE
        psi_q = p["l_q"] * x[1]
        # d psi_d/dt, d psi_q/dt, d psi_E/dt
        dpd = u[0] - p["r_s"] * x[0] + we * psi_q
        dpq = u[1] - p["r_s"] * x[1] - we * psi_d
        dpE = q["k"] * u[2] - q["rE"] * iE
        det = p["l_d"] * q["lE"] - q["lM"] ** 2
        did = (q["lE"] * dpd - q["lM"] * dpE) / det
        diE = (-q["lM"] * dpd + p["l_d"] * dpE) / det
        return np.array([did, dpq / p["l_q"], diE / q["f"], we])

    def torque(self, x):
        p, q = self.p, self._q()
        return 1.5 * p["p"] * (q["lM"] * q["f"] * x[2] + (p["l_d"] - p["l_q"]) * x[0]) * x[1]


class IM(Motor):
    """Induction machine, stator-fixed alpha/beta, stator currents + rotor fluxes."""

    states = ["i_salpha", "i_sbeta", "psi_ralpha", "psi_rbeta", "epsilon"]

    def deriv(self, x, u, w):
        p = self.p
        ls, lr, lm = p["l_m"] + p["l_sigs"], p["l_m"] + p["l_sigr"], p["l_m"]
        we = p["p"] * w
        i_s = complex(x[0], x[1])
        psi_r = complex(x[2], x[3])
        us = complex(u[0], u[1])
        ur = complex(u[2], u[3])
        i_r = (psi_r - lm * i_s) / lr
        dpsi_r = ur - p["r_r"] * i_r + 1j * we * psi_r
        # psi_s = ls i_s + lm i_r = (ls - lm^2/lr) i_s + lm/lr psi_r ;  dpsi_s = us - r_s i_s
        di = (us - p["r_s"] * i_s - lm / lr * dpsi_r) / (ls - lm * lm / lr)
        return np.array([di.real, di.imag, dpsi_r.real, dpsi_r.imag, we])

    def torque(self, x):
        p = self.p
        return 1.5 * p["p"] * p["l_m"] / (p["l_m"] + p["l_sigr"]) * (x[2] * x[1] - x[3] * x[0])

    def i_r(self, x):
        p = self.p
        lr = p["l_m"] + p["l_sigr"]
        return np.array([(x[2] - p["l_m"] * x[0]) / lr, (x[3] - p["l_m"] * x[1]) / lr])

    def losses(self, x):
        ir = self.i_r(x)
        return 1.5 * (self.p["r_s"] * (x[0] ** 2 + x[1] ** 2) + self.p["r_r"] * (ir[0] ** 2 + ir[1] ** 2))


class SCIM(IM):
    pass


class DFIM(IM):
    pass


MOTORS = dict(ExtExDc=ExtExDc, ShuntDc=ShuntDc, SeriesDc=SeriesDc, PermExDc=PermExDc, PMSM=PMSM, SynRM=SynRM, EESM=EESM,
              SCIM=SCIM, DFIM=DFIM)


# ------------------------------------------------------------------ loads
class PolyLoad:
    def __init__(self, a=0.0, b=0.0, c=0.0, j_load=1e-5, j_rotor=0.0, tau_decay=1e-3):
        self.a, self.b, self.c, self.J, self.td = a, b, c, j_load + j_rotor, tau_decay

    def load_torque(self, w):
        s = int(w > 0) - int(w < 0)
        lim = self.a / self.J * self.td
        fr = s * self.a if abs(w) > lim else self.J / self.td * w
        return s * self.c * w * w + self.b * w + fr

    def dw(self, t, w, T):
        return (T - self.load_torque(w)) / self.J


class ConstLoad:
    def dw(self, t, w, T):
        return 0.0


class ExtLoad:
    def __init__(self, profile, tau):
        self.f, self.tau = profile, tau

    def dw(self, t, w, T):
        return (self.f(t + self.tau) - w) / self.tau


# ------------------------------------------------------------------ supplies
class IdealSupply:
    def __init__(self, u):
        self.u = u

    def reset(self):
        return [self.u]

    def get(self, t, i):
        return [self.u]


class RCSupply:
    def __init__(self, u, R, C):
        self.u0, self.R, self.C = u, R, C
        self.reset()

    def reset(self):
        self.u, self.t = self.u0, 0.0
        return [self.u]

    def get(self, t, i):
        self.u = self.u + (self.u0 - self.u - self.R * i) / (self.R * self.C) * (t - self.t)
        self.t = t
        return [self.u]


class ACSupply:
    def __init__(self, u, f, phi, phases):
        self.amp = u * math.sqrt(2) / (math.sqrt(3) if phases == 3 else 1.0)
        self.f, self.phi, self.n = f, phi, phases

    def reset(self):
        return self.get(0, 0)

    def get(self, t, i):
        return [self.amp * math.sin(2 * math.pi * self.f * t + self.phi + 2 * math.pi / 3 * k) for k in range(self.n)]


# ------------------------------------------------------------------ converters
class Half:
    """A finite half bridge. commands: 0 off, 1 upper, 2 lower. Keeps the command in force across steps."""

    def __init__(self, til):
        self.til = til
        self.reset()

    def reset(self):
        self.cmd = 0

    def plan(self, cmd, tau):
        """-> list of (end time rel. to the step start, command in force)"""
        if self.til > 0 and cmd != 0 and self.cmd != 0 and cmd != self.cmd:
            plan = [(self.til, 0), (tau, cmd)]
        else:
            plan = [(tau, cmd)]
        self.cmd = cmd
        return plan


def half_out(cmd, i):
    if cmd == 0:
        return 1.0 if i < 0 else 0.0
    return 1.0 if cmd == 1 else 0.0


def half_sup(cmd, i):
    return half_out(cmd, i) * i if not (cmd == 0 and i >= 0) else 0.0


class FiniteConv:
    """Composition of half bridges: kind in 1QC, 2QC, 4QC, B6 or a list of those."""

    def __init__(self, kinds, til):
        self.units = []
        tils = til if isinstance(til, (list, tuple)) else [til] * len(kinds)
        for k, ti in zip(kinds, tils):
            n = dict([("1QC", 0), ("2QC", 1), ("4QC", 2), ("B6", 3)])[k]
            self.units.append((k, [Half(ti) for _ in range(n)]))

    def reset(self):
        for _, hs in self.units:
            for h in hs:
                h.reset()

    def begin(self, action, tau):
        acts = [action] if len(self.units) == 1 and not isinstance(action, (list, tuple, np.ndarray)) else list(action)
        self.plans = []
        times = {round(tau, 15)}
        for (k, hs), a in zip(self.units, acts):
            a = int(a)
            if k == "1QC":
                self.plans.append((k, a))
                continue
            if k == "2QC":
                cmds = [a]
            elif k == "4QC":
                cmds = [[1, 1, 2, 2][a], [1, 2, 1, 2][a]]
            else:
                cmds = [1 if (a >> s) & 1 else 2 for s in (2, 1, 0)]
            pl = [h.plan(c, tau) for h, c in zip(hs, cmds)]
            for p in pl:
                for t, _ in p:
                    times.add(round(t, 15))
            self.plans.append((k, pl))
        self.times = sorted(times)
        return self.times

    def _cmd(self, plan, tend):
        for t, c in plan:
            if tend <= t * (1 + 1e-9):
                return c
        return plan[-1][1]

    def output(self, i, tend):
        """normalised voltages and supply current for the segment that ends at ``tend``"""
        u, isup, k0 = [], 0.0, 0
        for k, pl in self.plans:
            if k == "1QC":
                u.append(float(pl) if i[k0] >= 0 else 1.0)
                isup += i[k0] if pl == 1 else 0.0
                k0 += 1
            elif k == "2QC":
                c = self._cmd(pl[0], tend)
                u.append(half_out(c, i[k0]))
                isup += half_sup(c, i[k0])
                k0 += 1
            elif k == "4QC":
                c0, c1 = self._cmd(pl[0], tend), self._cmd(pl[1], tend)
                u.append(half_out(c0, i[k0]) - half_out(c1, -i[k0]))
                isup += half_sup(c0, i[k0]) + half_sup(c1, -i[k0])
                k0 += 1
            else:
                for p in pl:
                    c = self._cmd(p, tend)
                    u.append(half_out(c, i[k0]) - 0.5)
                    isup += half_sup(c, i[k0])
                    k0 += 1
        return u, isup


def clip(x, lo, hi):
    return lo if x < lo else hi if x > hi else x


class ContConv:
    def __init__(self, kinds, til):
        self.kinds = list(kinds)
        self.til = til if isinstance(til, (list, tuple)) else [til] * len(kinds)

    def reset(self):
        pass

    def begin(self, action, tau):
        self.a, self.tau = [float(v) for v in np.ravel(action)], tau
        return [tau]

    def _half(self, d, i, r):
        """duty cycle d of the half bridge -> (voltage, supply current)"""
        d = clip(d, 0.0, 1.0)
        s = int(i > 0) - int(i < 0)
        return clip(d - s * r, 0.0, 1.0), (d + r * ((1.0 if i < 0 else 0.0) - d)) * i

    def output(self, i, tend):
        u, isup, k0, a0 = [], 0.0, 0, 0
        for k, til in zip(self.kinds, self.til):
            r = til / self.tau
            if k == "1QC":
                a = clip(self.a[a0], 0.0, 1.0)
                u.append(a if i[k0] >= 0 else 1.0)
                isup += a * i[k0]
                k0, a0 = k0 + 1, a0 + 1
            elif k == "2QC":
                v, s = self._half(self.a[a0], i[k0], r)
                u.append(v)
                isup += s
                k0, a0 = k0 + 1, a0 + 1
            elif k == "4QC":
                a = self.a[a0]
                v0, s0 = self._half(0.5 * (a + 1), i[k0], r)
                v1, s1 = self._half(-0.5 * (a - 1), -i[k0], r)
                u.append(v0 - v1)
                isup += s0 + s1
                k0, a0 = k0 + 1, a0 + 1
            else:
                for _ in range(3):
                    v, s = self._half(0.5 * (self.a[a0] + 1), i[k0], r)
                    u.append(v - 0.5)
                    isup += s
                    k0, a0 = k0 + 1, a0 + 1
        return u, isup


# ------------------------------------------------------------------ integrators
def euler(f, x, t0, t1, n):
    h = (t1 - t0) / n
    t = t0
    for _ in range(n):
        x = x + h * f(t, x)
        t += h
    return x


def rk4(f, x, t0, t1, n):
    h = (t1 - t0) / n
    t = t0
    for _ in range(n):
        k1 = f(t, x)
        k2 = f(t + h / 2, x + h / 2 * k1)
        k3 = f(t + h / 2, x + h / 2 * k2)
        k4 = f(t + h, x + h * k3)
        x = x + h / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
        t += h
    return x


# ------------------------------------------------------------------ the whole drive
class Drive:
    """Twin of a physical system.  ``step(x, action)`` predicts the next ODE state and the observed quantities."""

    def __init__(self, kind, motor, load, supply, conv, tau, integ, dq=False):
        self.kind, self.motor, self.load, self.supply, self.conv = kind, motor, load, supply, conv
        self.tau, self.integ, self.dq = tau, integ, dq
        self.nm, self.wi = getattr(load, "n", 1), getattr(load, "wi", 0)  # number of mechanical states, index of omega
        self.k = 0

    def reset(self):
        self.k = 0
        self.conv.reset()
        return self.supply.reset()

    def _rhs(self, u):
        def f(t, x):
            m = x[self.nm:]
            T = self.motor.torque(m)
            dm = [self.load.dw(t, x[0], T)] if self.nm == 1 else self.load.deriv(t, x[:self.nm], T)
            return np.concatenate((dm, self.motor.deriv(m, u, x[self.wi])))

        return f

    def step(self, x, action, t0=None):
        x = np.array(x, dtype=float)
        t0 = self.k * self.tau if t0 is None else t0
        kind = self.kind
        sync = kind in ("PMSM", "SynRM", "EESM")
        im = kind in ("SCIM", "DFIM")
        if self.dq:
            ang = x[self.nm + 2] if sync else math.atan2(x[self.nm + 3], x[self.nm + 2])
            action = dq2abc(action, ang)
        times = self.conv.begin(action, self.tau)
        prev = 0.0
        info = {}
        for te in times:
            m = x[self.nm:]
            if sync:
                eps = m[-1]
                i_in = list(dq2abc(m[:2], eps)) + ([m[2]] if kind == "EESM" else [])
            elif im:
                epsf = math.atan2(m[3], m[2])
                epse = m[4]
                i_in = list(ab2abc(m[:2]))
                if kind == "DFIM":
                    i_in += list(ab2abc(ab2dq(self.motor.i_r(m), epse)))
            else:
                i_in = self.motor.i_in(m)
            un, isup = self.conv.output(i_in, te)
            us = self.supply.get(t0, isup)
            uin = [u * s for u in un for s in us]
            if sync:
                u = list(abc2dq(uin[:3], eps)) + uin[3:]
            elif kind == "SCIM":
                u = list(abc2ab(uin)) + [0.0, 0.0]
            elif kind == "DFIM":
                u = list(abc2ab(uin[:3])) + list(dq2ab(abc2ab(uin[3:]), epse))
            else:
                u = uin
            x = self.integ(self._rhs(u), x, t0 + prev, t0 + te)
            prev = te
        info["u_in"], info["u_sup"], info["isup"] = uin, us, isup
        self.k += 1
        m = x[self.nm:]
        obs = {"omega": x[self.wi], "torque": self.motor.torque(m)}
        obs["u_sup"] = us[0]
        if sync:
            obs.update(i_sd=m[0], i_sq=m[1], u_a=uin[0], u_b=uin[1], u_c=uin[2], u_sd=u[0], u_sq=u[1],
                       epsilon=wrap(m[-1]))
            info["i_abc"] = dq2abc(m[:2], m[-1])
            if kind == "EESM":
                obs.update(i_e=m[2], u_e=uin[3])
        elif im:
            info["angles"] = [epsf, math.atan2(m[3], m[2])]
            ab = m[:2]
            iabc = ab2abc(ab)
            obs.update(i_sa=iabc[0], i_sb=iabc[1], i_sc=iabc[2], u_sa=uin[0], u_sb=uin[1], u_sc=uin[2],
                       epsilon=wrap(m[4]))
            info["i_s"], info["u_s"] = ab, abc2ab(uin[:3])
            if kind == "DFIM":
                obs.update(u_ra=uin[3], u_rb=uin[4], u_rc=uin[5])
                info["i_r"], info["eps_el"] = self.motor.i_r(m), (epse, m[4])
        elif kind == "ExtExDc":
            obs.update(i_a=m[0], i_e=m[1], u_a=uin[0], u_e=uin[1])
        elif kind == "ShuntDc":
            obs.update(i_a=m[0], i_e=m[1], u=uin[0], i_sum=m[0] + m[1])
        else:
            obs.update(i=m[0], u=uin[0])
        return x, obs, info
