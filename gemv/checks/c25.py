"""C25: visualizations do not influence the simulation and show its true values."""
import contextlib
import io
import re
import warnings

import numpy as np

from .. import envrun as E
from .. import systems as S
from .. import zoo

PROPERTY = "C25"
RULE = ("twin environments, one without and one with a visualization (dashboards with random selections of state, action, reward, episode and step plots, window widths, update intervals and render"
        " modes; console printer), played with the same seeds and actions through several episodes, external resets, repeated resets and figure resets: everything the API returns is compared"
        " bitwise, and the line data of the rendered figures (off-screen backend) are compared with the log of the twin; gem controllers that plot the references of their stages are compared with the same loop without visualization and with the references they report; distinct = drive x plots x mode x history shape")
ASSUMPTIONS = ["off-screen matplotlib backend", "a state is plotted at the end of its step, actions and rewards at its beginning, the time axis counts all steps since the last reset_figures()"]
REQUIRE = {"twin_steps": 8000, "points": 15000, "axes": 250, "resets": 150, "marks": 60, "episodes": 80, "violations": 10, "printed": 300, "summaries": 20, "figure_resets": 20, "additional_time_plots": 8, "ids": 54, "default_axes": 100, "controlled_steps": 700, "stage_references": 100, "notebook": 8, "shown_at_close": 8, "saved": 1}
JOB_LIMIT = dict(quick=500, thorough=2500)


def jobs(tier, seed):
    n, m = (3, 200) if tier == "quick" else (30, 200)
    js = [("dashboard", dict(seed=[seed, j], n=n, what=w)) for j, w in enumerate(["time"] * 8 + ["state"] * 5 + ["episode"] * 5 + ["step"] * 4)]
    js += [("console", dict(seed=[seed, 100 + j], n=6 if tier == "quick" else 40, steps=m)) for j in range(3)]
    js += [("default", dict(seed=[seed, 200 + j], ids=S.ENV_IDS[j::9], steps=30 if tier == "quick" else 250)) for j in range(9)]
    js += [("controlled", dict(seed=[seed, 300 + j], n=4 if tier == "quick" else 40, steps=50 if tier == "quick" else 200)) for j in range(8)]
    js += [("observed_flux", dict(seed=[seed, 400], steps=40))]
    return js


# ---------------------------------------------------------------------------------------------------------------------------- truth
class Truth:
    """What the dashboard has to show, from the log of the twin without visualization."""

    def __init__(self, tau):
        self.tau = tau
        self.restart()
        self.done = None

    def restart(self):
        self.n = 0
        self.states, self.refs, self.actions, self.rewards = {}, {}, {}, {}
        self.marks = []
        self.counting = False
        self.ep_len, self.ep_rew, self.lengths, self.means = 0, 0.0, [], []
        self.viol = []

    def reset(self):
        if self.done is not None:
            self.marks.append((self.n * self.tau, "red" if self.done else "blue"))
        self.done = False
        if self.counting:
            self.lengths.append(self.ep_len)
            self.means.append(self.ep_rew / self.ep_len if self.ep_len else np.nan)
        self.counting = True
        self.ep_len, self.ep_rew = 0, 0.0

    def step(self, action, state, ref, reward, done):
        self.actions[self.n], self.rewards[self.n] = action, reward
        self.n += 1
        self.states[self.n], self.refs[self.n] = state, ref
        self.ep_len += 1
        self.ep_rew += reward
        self.done = done
        if done:
            self.viol.append(self.n)


def rgba(c):
    import matplotlib.colors as mc

    return mc.to_rgba(c)


def judge_series(res, line, truth, width, tau, last, key, what, case):
    """The finite points of a line are the most recent ones of the series (step -> value), at their times."""
    x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
    ok = np.isfinite(y)
    pts = sorted(zip(x[ok], y[ok]))
    res.count("points", len(pts))
    seen = set()
    for a, b in pts:
        n = int(round(a / tau))
        if not res.check(abs(a - n * tau) < 1e-3 * tau and n in truth, key + "-time", "%s plotted at t=%g, no such step (tau=%g)" % (what, a, tau), case):
            return
        v = truth[n]
        if not np.isfinite(v):
            continue
        if not res.close(b, v, key + "-value", "%s plotted at t=%g (step %d)" % (what, a, n), 1e-9, 1e-12, case):
            return
        res.check(n not in seen, key + "-duplicate", "%s of step %d plotted twice" % (what, n), case)
        seen.add(n)
    expect = {n for n in truth if n > last - width + 1 and np.isfinite(truth[n])}
    res.check(expect <= seen, key + "-missing", "%s: steps %s are not shown" % (what, sorted(expect - seen)[:5]), case)


def judge_axis(res, ax, env, tr, width, case, pos, lim, low, high, labels, scaled):
    """One time plot."""
    lab = ax.get_ylabel()
    tau = tr.tau
    lines = list(ax.lines)
    data = [ln for ln in lines if len(ln.get_xdata()) == width]
    marks = sorted((float(ln.get_xdata()[0]), tuple(rgba(ln.get_color()))) for ln in lines if len(ln.get_xdata()) == 2 and list(ln.get_ydata()) == [0, 1])
    levels = [float(ln.get_ydata()[0]) for ln in lines if len(ln.get_xdata()) == 2 and list(ln.get_xdata()) == [0, 1]]
    res.count("axes")
    exp = sorted((t, tuple(rgba(c))) for t, c in tr.marks)
    res.count("marks", len(exp))
    res.check(len(exp) == len(marks) and all(abs(a[0] - b[0]) < 1e-3 * tau and a[1] == b[1] for a, b in zip(exp, marks)), "reset-marks",
              "%s: reset and violation marks %s instead of %s" % (lab, marks[:4], exp[:4]), case)
    upper = max(tr.n * tau, (width - 1) * tau)
    xl = ax.get_xlim()
    res.check(xl[1] >= tr.n * tau * (1 - 1e-9) and xl[0] <= max(0.0, (tr.n - width + 1) * tau) + 1e-9 and xl[1] <= upper + 2 * width * tau, "visible-time",
              "%s: the visible times %s do not show the last %d of %d steps" % (lab, xl, width, tr.n), case)
    if lab.startswith("Action "):
        if not res.check(len(data) == 1, "action-lines", "%s has %d data lines" % (lab, len(data)), case):
            return lab
        j = int(lab.split()[1])
        judge_series(res, data[0], {n: float(np.ravel(a)[j]) for n, a in tr.actions.items()}, width, tau, tr.n - 1, "action", lab, case)
    elif lab == "reward":
        if not res.check(len(data) == 1, "reward-lines", "reward plot has %d data lines" % len(data), case):
            return lab
        judge_series(res, data[0], {n: float(r) for n, r in tr.rewards.items()}, width, tau, tr.n - 1, "reward", "reward", case)
    else:
        if not res.check(lab in labels, "label", "axis label %r belongs to no state of the environment" % lab, case):
            return lab
        s = labels[lab]
        i = pos[s]
        refd = bool(env.reference_generator.referenced_states[i])
        if not res.check(len(data) == 1 + refd, "state-lines", "%s has %d data lines (referenced: %s)" % (s, len(data), refd), case):
            return s
        unit = lim[i]
        if s in ("psi_abs", "psi_angle") and high[i] == lim[i] != 1 and sorted(levels) == [-lim[i], lim[i]]:
            # known: the observed flux is shown in its normalised form, because its declared space is not normalised
            res.violation("flux-observer-states-shown-normalised", "%s is shown as its normalised value with the limit lines %s (%s)" % (s, levels, case))
            unit = 1.0
            lim = np.where(np.arange(len(lim)) == i, 1.0, lim)
        st, rf = data[0], data[-1]
        if refd:  # which one is which says the legend
            leg = ax.get_legend()
            col = {tuple(rgba(h.get_color())): t.get_text() for h, t in zip(leg.get_lines(), leg.get_texts())}
            names = [col.get(tuple(rgba(ln.get_color())), "") for ln in data]
            if not res.check(sum("^*" in nm for nm in names) == 1, "legend", "%s: legend %s" % (s, names), case):
                return s
            rf = data[["^*" in nm for nm in names].index(True)]
            st = data[["^*" in nm for nm in names].index(False)]
            judge_series(res, rf, {n: float(r[i] * unit) for n, r in tr.refs.items()}, width, tau, tr.n, "reference", "reference of " + s, case)
        judge_series(res, st, {n: float(v[i] * unit) for n, v in tr.states.items()}, width, tau, tr.n, "state", s, case)
        exp = [lim[i] * high[i]] + ([lim[i] * low[i]] if low[i] < 0 else [])
        res.check(len(levels) == len(exp) and np.allclose(sorted(levels), sorted(exp), rtol=1e-9, atol=1e-12), "limit-lines", "%s: limit lines at %s instead of %s" % (s, levels, exp), case)
        yl = ax.get_ylim()
        if not scaled:
            res.check(yl[0] <= lim[i] * low[i] and yl[1] >= lim[i] * high[i], "visible-range", "%s: visible range %s does not contain the limits %s" % (s, yl, exp), case)
        else:
            v = [float(x[i] * lim[i]) for n, x in tr.states.items() if n > tr.n - width + 1]
            ok = not refd or not v or (yl[0] <= min(v) * (1 + 1e-9 * np.sign(min(v))) + 1e-12 and yl[1] >= max(v) - 1e-9 * abs(max(v)) - 1e-12)
            res.check(ok, "visible-data", "%s: visible range %s does not contain the data [%g, %g]" % (s, yl, min(v or [0]), max(v or [0])), case)
        return s
    return lab


def axis_info(env):
    from gym_electric_motor.visualization.motor_dashboard_plots import StatePlot

    ps = env.physical_system
    labels = {StatePlot.state_labels.get(s, s): s for s in ps.state_names}
    return dict(pos=dict(ps.state_positions), lim=np.array(ps.limits, float), low=np.array(ps.state_space.low, float), high=np.array(ps.state_space.high, float), labels=labels)


# ---------------------------------------------------------------------------------------------------------------------------- jobs
def quiet():
    import matplotlib

    matplotlib.use("Agg")
    import matplotlib.pyplot as plt

    warnings.simplefilter("ignore")
    plt.close("all")
    return plt


class Pair:
    """Environment with visualization and its twin without."""

    def __init__(self, res, cfg, vis, case, scale=False):
        kw = lambda cb, v: dict(zoo.kwargs(cfg, cb, v), **(dict(scale_plots=True) if scale else {}))
        import gym_electric_motor as gem

        self.res, self.case = res, case
        self.log, self.vlog = [], []
        self.plain = gem.make(cfg["env"], **kw((E.mk_recorder(self.log),), ())).unwrapped
        self.env = gem.make(cfg["env"], **kw((E.mk_recorder(self.vlog),), vis)).unwrapped
        del self.log[:], self.vlog[:]
        self.truth = Truth(self.env.physical_system.tau)
        self.over = True

    def same(self, a, b, what):
        self.res.count("twin_steps")
        return self.res.check(E.bits(a) == E.bits(b), "interference-" + what, "%s of the environment with visualization differs: %.200r instead of %.200r" % (what, b, a), self.case)

    def reset(self, seed=None):
        self.truth.reset()
        a, b = self.plain.reset(seed=seed), self.env.reset(seed=seed)
        self.res.count("resets")
        self.over = False
        return self.same(a, b, "reset") and self.same([x[1:] for x in self.log], [x[1:] for x in self.vlog], "callbacks") and self.clear()

    def clear(self):
        del self.log[:], self.vlog[:]
        return True

    def step(self, action):
        a, b = self.plain.step(E.freeze(action)), self.env.step(E.freeze(action))
        ok = self.same(a, b, "step")
        end = [x for x in self.log if x[1] == "step_end"][-1]
        self.truth.step(action, end[3], end[4], end[5], end[6])
        ok = ok and self.same([x[1:] for x in self.log], [x[1:] for x in self.vlog], "callbacks")
        self.clear()
        self.over = bool(a[2])
        return ok and bool(np.all(np.isfinite(end[3])))


def dashboard(res, seed, n, what):
    plt = quiet()
    from gym_electric_motor.visualization import MotorDashboard, RenderMode
    from gym_electric_motor.visualization import motor_dashboard_plots as mp

    rng = np.random.default_rng(seed)
    for _ in range(n):
        cfg = zoo.random_cfg(rng)
        if what != "step" and rng.random() < 0.6:
            cfg["constraints"] = []  # long episodes
        probe = zoo.make(cfg)
        names = list(probe.physical_system.state_names)
        na = int(np.prod(probe.action_space.shape)) if probe.action_space.shape else 1
        refd = [s for s, f in zip(names, probe.reference_generator.referenced_states) if f]
        probe.close()
        width = int(rng.choice([5, 20, 47, 300]))
        interval = int(rng.choice([1, 3, 10, 25]))
        mode = str(rng.choice(["force", "env", "figure", "once"]))
        if mode == "once" and rng.random() < 0.4:
            interval = 1000  # more than the number of steps
        notebook = bool(rng.random() < 0.3)  # one figure with all plots
        backend = plt.get_backend
        scale = bool(rng.random() < 0.4)
        kw = dict(update_interval=interval, time_plot_width=width)
        if what in ("time", "state"):
            sel = [str(s) for s in rng.choice(names, size=min(len(names), int(rng.integers(1, 4))), replace=False)]
            if refd and rng.random() < 0.7 and refd[0] not in sel:
                sel.append(refd[0])
            if what == "state" and len(names) < 9 and rng.random() < 0.3:
                sel = "all"
            kw["state_plots"] = sel
            if what == "time":
                kw["action_plots"] = "all" if rng.random() < 0.5 else [int(rng.integers(na))]
                kw["reward_plot"] = bool(rng.random() < 0.7)
        extra, added = [], []
        if what == "time" and rng.random() < 0.5:
            # time plots of the user's own, handed over as additional plots, are time plots like those of the dashboard's selection
            rest = [s for s in names if s not in kw["state_plots"]]
            if rest:
                added.append(str(rng.choice(rest)))
                extra.append(mp.StatePlot(added[-1]))
            if kw["action_plots"] != "all" and na > 1:
                added.append("Action %d" % ((kw["action_plots"][0] + 1) % na))
                extra.append(mp.ActionPlot((kw["action_plots"][0] + 1) % na))
            if not kw["reward_plot"]:
                added.append("reward")
                extra.append(mp.RewardPlot())
            res.count("additional_time_plots", len(extra))
        if what == "episode" or notebook and rng.random() < 0.6:
            extra += [mp.MeanEpisodeRewardPlot(), mp.EpisodeLengthPlot()]
        if what == "step" or notebook and rng.random() < 0.6:
            extra += [mp.CumulativeConstraintViolationPlot()]
        case = dict(cfg=cfg, dashboard=dict(kw, additional=[type(x).__name__ for x in extra]), mode=mode, scale=scale, notebook=notebook)
        res.case((zoo.tag(cfg), what, mode, notebook, interval, width, scale, str(kw.get("state_plots"))))
        vis = MotorDashboard(render_mode=dict(figure=RenderMode.Figure, once=RenderMode.FigureOnce).get(mode), additional_plots=extra, **kw)
        p = Pair(res, cfg, vis, case, scale)
        info = axis_info(p.env)
        if notebook:
            plt.get_backend = lambda: "nbAgg"
            res.count("notebook")
        p.env.action_space.seed(int(rng.integers(1 << 30)))
        src = S.Actions(p.env.action_space, rng)
        ok = p.reset(seed=int(rng.integers(1 << 30)))
        shown, total, looks = False, 0, 0
        steps = int(rng.choice([30, 70, 150]))
        k_int = 0
        for k in range(steps):
            if not ok:
                break
            if p.over or rng.random() < 0.06:
                ok = p.reset()
                while rng.random() < 0.2 and ok:
                    ok = p.reset()
                if not ok:
                    break
            ok = p.step(src())
            k_int += 1
            look = False
            if mode == "env":
                p.env.render()
                look = k_int % interval == 0 and rng.random() < 0.2
            elif mode == "figure":
                look = k_int % interval == 0 and rng.random() < 0.2
            elif mode == "force" and (rng.random() < 0.03 or k == steps - 1):
                how = rng.random()
                if how < 0.8:
                    vis.force_render()
                elif how < 0.93:
                    with warnings.catch_warnings():
                        warnings.simplefilter("ignore")
                        vis.show_and_hold()
                else:
                    save(res, vis, plt, case)
                look = True
            if look and ok:
                looks += 1
                judge_figure(res, vis, p, what, width, case, info, scale, kw, na, refd, names, added)
            if rng.random() < 0.02:
                vis.reset_figures()
                plt.close("all")
                p.truth.restart()
                res.count("figure_resets")
        if mode == "once":  # shown when the environment is closed
            p.env.close()
            res.count("shown_at_close")
        elif ok:
            vis.force_render()
        if ok:
            judge_figure(res, vis, p, what, width, case, info, scale, kw, na, refd, names, added)
        if mode != "once":
            p.env.close()
        p.plain.close()
        plt.get_backend = backend
        plt.close("all")
    res.sample(dict(what=what, looks=looks, steps=p.truth.n, marks=p.truth.marks[:5], lengths=p.truth.lengths[:5]))


def save(res, vis, plt, case):
    """the figure in a file below a scratch directory"""
    import os
    import tempfile

    old = os.getcwd()
    with tempfile.TemporaryDirectory(prefix="gemv-") as d:
        os.chdir(d)
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                vis.save_to_file("shot")
                vis.save_to_file()
            files = sorted(os.path.join(a, f) for a, _, b in os.walk(d) for f in b)
            named = [f for f in files if os.path.basename(f) == "shot.png"]
            if res.check(len(files) == 2 and len(named) == 1 and all(f.endswith(".png") for f in files), "saved-files", "saving twice created %s" % files, case):
                im = plt.imread(named[0])
                fig = vis.figure()
                size = [int(v * 300) for v in fig.get_size_inches()]
                res.check(abs(im.shape[1] - size[0]) < 3 and abs(im.shape[0] - size[1]) < 3 and np.ptp(im[..., :3]) > 0.1, "saved-image", "an image of the shape %s for a figure of %s" % (im.shape, size), case)
            res.count("saved")
        finally:
            os.chdir(old)


def judge_figure(res, vis, p, what, width, case, info, scale, kw, na, refd, names, added):
    fig = vis.figure()
    tr = p.truth
    got = []
    for ax in fig.axes:
        lab = ax.get_ylabel()
        if lab not in ("Episode Length", "Mean Reward Per Step", "Cum. No. of Constraint Violations"):
            got.append(judge_axis(res, ax, p.env, tr, width, case, scaled=scale, **info))
            continue
        got.append(lab)
        line = ax.lines[0]
        x, y = np.asarray(line.get_xdata(), float), np.asarray(line.get_ydata(), float)
        res.count("axes")
        if lab.startswith("Cum"):
            res.count("violations", len(tr.viol))
            res.check(len(x) == len(y) and len(y) > 0 and y[-1] == len(tr.viol), "violation-count", "%s shows %s violations instead of %d" % (lab, y[-1:], len(tr.viol)), case)
            ups = [int(x[j]) for j in range(1, len(y)) if y[j] > y[j - 1]]
            res.check(ups == tr.viol, "violation-steps", "%s increases at the steps %s instead of %s" % (lab, ups[-5:], tr.viol[-5:]), case)
        else:
            exp = tr.lengths if "Length" in lab else tr.means
            res.count("episodes", len(exp))
            res.check(len(y) == len(exp) and np.allclose(y, exp, rtol=1e-9, atol=1e-12, equal_nan=True), "episode-values", "%s shows %s instead of %s" % (lab, y[-6:], exp[-6:]), case)
            res.check(len(x) == len(exp) and np.array_equal(x, np.arange(len(exp))), "episode-numbers", "%s has the episode numbers %s" % (lab, x[-6:]), case)
    states = kw.get("state_plots", ())
    exp = list(names if isinstance(states, str) else states)
    acts = kw.get("action_plots", ())
    exp += ["Action %d" % j for j in (range(na) if isinstance(acts, str) else acts)]
    exp += ["reward"] if kw.get("reward_plot") else []
    exp += added
    extra = case["dashboard"]["additional"]
    exp += ["Mean Reward Per Step"] * ("MeanEpisodeRewardPlot" in extra) + ["Episode Length"] * ("EpisodeLengthPlot" in extra)
    exp += ["Cum. No. of Constraint Violations"] * ("CumulativeConstraintViolationPlot" in extra)
    res.check(sorted(got) == sorted(exp), "selection", "the dashboard shows %s instead of %s" % (got, exp), case)


NUM = re.compile(r"[-+]?(?:\d+\.\d+|nan|inf)")


def console(res, seed, n, steps):
    quiet()
    from gym_electric_motor.visualization import ConsolePrinter

    rng = np.random.default_rng(seed)
    for _ in range(n):
        cfg = zoo.random_cfg(rng)
        if rng.random() < 0.7:
            cfg["constraints"] = []
        freq, verbose = int(rng.choice([1, 2, 5])), int(rng.choice([0, 1, 2, 2, 2]))
        case = dict(cfg=cfg, console=dict(verbose=verbose, update_freq=freq))
        res.case((zoo.tag(cfg), "console", verbose, freq))
        opts = np.get_printoptions()
        p = Pair(res, cfg, ConsolePrinter(verbose=verbose, update_freq=freq), case)
        lim = np.array(p.env.physical_system.limits, float)
        src = S.Actions(p.env.action_space, rng)

        def render():
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf):
                p.env.render()
            return buf.getvalue()

        ok = p.reset(seed=int(rng.integers(1 << 30)))
        render()
        cum, k = 0.0, 0
        for _ in range(steps):
            if not ok:
                break
            if p.over or rng.random() < 0.04:
                done = p.over
                ok = p.reset()
                out = render()
                if verbose and k:
                    res.count("summaries")
                    res.check(("Constraint Violation!" in out) == done and ("External Reset." in out) == (not done), "console-end", "printed %.120r after an episode that ended with terminated=%s" % (out, done),
                              case)
                    m = re.search(r"Number of steps:\s*(\d+)\s+Cumulative Reward:\s*(\S+)", out)
                    res.check(m and int(m.group(1)) == k and abs(float(m.group(2)) - cum) < 1e-3 * (1 + abs(cum) * 1e-6), "console-summary",
                              "printed %.160r after %d steps with the cumulative reward %g" % (out, k, cum), case)
                cum, k = 0.0, 0
                continue
            ok = p.step(src())
            tr = p.truth
            k += 1
            cum += tr.rewards[tr.n - 1]
            out = render()
            if verbose < 2 or not ok:
                res.check(not out or not ok, "console-silent", "prints %.80r with verbose=%d" % (out, verbose), case)
                continue
            if k % freq:
                continue
            v, r = tr.states[tr.n] * lim, tr.refs[tr.n] * lim
            m = re.search(r"Step\s+(\d+)\s+State\s+\[(.*?)\]\s+Reference\s+\[(.*?)\]\s+Reward\s+(\S+)\s+Cumulative Reward\s+(\S+)", out, re.S)
            res.count("printed")
            if not res.check(m is not None, "console-format", "printed %.200r" % out, case):
                continue
            nums = lambda t: np.array([float(x) for x in NUM.findall(t)])
            good = int(m.group(1)) == k and abs(float(m.group(4)) - tr.rewards[tr.n - 1]) < 1e-3 and abs(float(m.group(5)) - cum) < 1e-3 * (1 + 1e-6 * abs(cum))
            for exp, got in ((v, nums(m.group(2))), (r, nums(m.group(3)))):
                good = good and len(exp) == len(got) and np.allclose(got, exp, rtol=1e-6, atol=6e-4)
            res.check(good, "console-values", "step %d: printed %.300r, true state %s, reference %s, reward %g, cumulative %g" % (k, out, np.round(v, 3), np.round(r, 3), tr.rewards[tr.n - 1], cum), case)
        np.set_printoptions(**opts)
        p.env.close()
        p.plain.close()
    res.sample(dict(console=dict(verbose=verbose, update_freq=freq), printed=out[:200]))


def default(res, seed, ids, steps):
    """The dashboard every environment brings along."""
    plt = quiet()
    import gym_electric_motor as gem

    rng = np.random.default_rng(seed)
    for i in ids:
        res.count("ids")
        kind = i.split("-")[2]
        case = dict(id=i)
        res.case((i, "default"))
        log, vlog = [], []
        plain = gem.make(i, visualization=(), callbacks=(E.mk_recorder(log),)).unwrapped
        env = gem.make(i, callbacks=(E.mk_recorder(vlog),)).unwrapped
        p = Pair.__new__(Pair)
        p.res, p.case, p.log, p.vlog, p.plain, p.env, p.over = res, case, log, vlog, plain, env, True
        p.clear()
        p.truth = Truth(env.physical_system.tau)
        src = S.Actions(env.action_space, rng)
        ok = p.reset(seed=int(rng.integers(1 << 30)))
        for _ in range(steps):
            if not ok:
                break
            if p.over:
                ok = p.reset()
                continue
            ok = p.step(src())
        vis = env.visualizations
        if ok and res.check(len(vis) == 1, "default-dashboard", "%s brings %d visualizations" % (i, len(vis)), case):
            vis[0].force_render()
            info = axis_info(env)
            fig = vis[0].figure()
            got = []
            for ax in fig.axes:
                w = max(len(ln.get_xdata()) for ln in ax.lines)
                res.count("default_axes")
                got.append(judge_axis(res, ax, env, p.truth, w, case, scaled=False, **info))
            refd = [s for s, f in zip(env.physical_system.state_names, env.reference_generator.referenced_states) if f]
            na = int(np.prod(env.action_space.shape)) if env.action_space.shape else 1
            want = refd + ["Action %d" % j for j in range(na)]
            res.check(set(want) <= set(got), "default-selection", "%s shows %s, the controlled quantities and actions are %s" % (i, got, want), case)
        env.close()
        plain.close()
        plt.close("all")


def observed_flux(res, seed, steps):
    """the states of a flux observer in physical units"""
    quiet()
    from gym_electric_motor.visualization import MotorDashboard

    rng = np.random.default_rng(seed)
    cfg = zoo.random_cfg(rng, kind="SCIM", cont=True, wrappers=False, refs=False, reward=False, constraints=False, state_filter=False, spec_prob=0)
    cfg["constraints"], cfg["wrappers"] = [], [dict(w="flux")]
    probe = zoo.make(cfg)
    names = list(probe.physical_system.state_names)
    probe.close()
    kw = dict(state_plots=["i_sd", "psi_abs", "psi_angle"], time_plot_width=30, update_interval=1)
    case = dict(cfg=cfg, dashboard=dict(kw, additional=[]))
    vis = MotorDashboard(**kw)
    p = Pair(res, cfg, vis, case)
    src = S.Actions(p.env.action_space, rng)
    ok = p.reset(seed=int(rng.integers(1 << 30)))
    for _ in range(steps):
        if ok and p.over:
            ok = p.reset()
        ok = ok and p.step(src())
    vis.force_render()
    judge_figure(res, vis, p, "state", 30, case, axis_info(p.env), False, kw, 1, [], names, [])
    p.env.close()
    p.plain.close()


# ---------------------------------------------------------------------------------------------------------------------- controllers
def controlled(res, seed, n, steps):
    """controllers of gem_controllers that plot the references of their stages, against the same loop without any visualization"""
    plt = quiet()
    import gym_electric_motor as gem
    import gem_controllers as gc
    from gym_electric_motor.core import ElectricMotorVisualization
    from gym_electric_motor.visualization import ConsolePrinter, MotorDashboard

    class Silent(ElectricMotorVisualization):
        pass

    rng = np.random.default_rng(seed)

    def build(eid, vis, sd, **kw):
        env = gem.make(eid, visualization=vis, constraints=()).unwrapped
        c = gc.GemController.make(env, eid, block_diagram=False, **kw)
        return env, c

    for _ in range(n):
        kind = str(rng.choice(["PermExDc", "SeriesDc", "ShuntDc", "ExtExDc", "PMSM", "SynRM"]))
        task = str(rng.choice(["SC", "TC", "SC", "CC"]))
        fin = bool(kind.endswith("Dc") and rng.random() < 0.3)
        eid = "%s-%s-%s-v0" % ("Finite" if fin else "Cont", task, kind)
        shape = str(rng.choice(["rendered", "rendered", "rendered", "late", "never", "console", "silent"]))
        should, refs = bool(rng.random() < 0.75), bool(rng.random() < 0.75)
        width = int(rng.choice([9, 25, 60]))
        case = (eid, shape, should, refs, width)
        res.case(case)
        probe = gem.make(eid, visualization=()).unwrapped
        names = list(probe.state_names)
        want = [q for q in names if q in ("torque", "i", "i_a", "i_e", "i_sd", "i_sq", "omega") and rng.random() < 0.8] or ["omega"]
        vis = dict(console=ConsolePrinter, silent=Silent).get(shape, lambda: MotorDashboard(state_plots=want, time_plot_width=width, update_interval=9))()
        sd = int(rng.integers(2**31))
        plain, c0 = build(eid, (), sd)
        env, c = build(eid, vis, sd, should_plot=should, plot_references=refs)
        # another controller with the opposite flags must not matter
        gc.GemController.make(gem.make("Cont-CC-PermExDc-v0", visualization=()).unwrapped, "Cont-CC-PermExDc-v0", block_diagram=False, should_plot=not should, plot_references=not refs)
        own = {q for q in env.reference_names}
        internal = [str(q) for q in np.atleast_1d(np.asarray(c.controller.referenced_states, dtype=object)) if str(q) in want and str(q) not in own]
        ra, rb = plain.reset(seed=sd), env.reset(seed=sd)
        c0.reset(), c.reset()
        truth, last, k = {}, {}, 0
        for j in range(steps):
            if shape == "rendered" or (shape == "late" and j > steps // 3):
                env.render()
            (s, r), (s2, r2) = ra[0], rb[0]
            if not res.check(E.bits([s, r]) == E.bits([s2, r2]), "controlled-interference", lambda: "%s: %s with plotted references instead of %s" % (eid, s2, s), case):
                break
            a0, a1 = c0.control(s, r), c.control(s2, r2)
            truth[k] = {q: float(np.ravel(v)[0]) for q, v in c.controller.references.items()}
            res.count("controlled_steps")
            if not res.check(E.bits(np.asarray(a0)) == E.bits(np.asarray(a1)), "controlled-action", lambda: "%s: action %s of the plotting controller instead of %s" % (eid, a1, a0), case):
                break
            ra, rb = plain.step(a0), env.step(a1)
            k += 1
            if not np.all(np.isfinite(rb[0][0])):
                break
            if rb[2] or rng.random() < 0.04:
                ra, rb = plain.reset(), env.reset()
                c0.reset(), c.reset()
        if shape in ("rendered", "late") and k > 2:
            vis.force_render()
            from gym_electric_motor.visualization.motor_dashboard_plots import StatePlot

            labels = {StatePlot.state_labels.get(q, q): q for q in names}
            tau = env.physical_system.tau
            for ax in vis.figure().axes:
                q = labels.get(ax.get_ylabel())
                if q is None:
                    continue
                data = [ln for ln in ax.lines if len(ln.get_xdata()) == width]
                shown = q in internal and refs
                res.check(len(data) == 1 + (shown or q in own), "controlled-lines", lambda: "%s: %s has %d data lines (reference of a stage: %s)" % (eid, q, len(data), q in internal), case)
                if not (shown and should) or len(data) != 2:
                    continue
                leg = ax.get_legend()
                col = {tuple(rgba(h.get_color())): t.get_text() for h, t in zip(leg.get_lines(), leg.get_texts())}
                rf = [ln for ln in data if "^*" in col.get(tuple(rgba(ln.get_color())), "")]
                if not res.check(len(rf) == 1, "controlled-legend", lambda: "%s: %s legend %s" % (eid, q, col), case):
                    continue
                x, y = np.asarray(rf[0].get_xdata(), float), np.asarray(rf[0].get_ydata(), float)
                got = {int(round(a / tau)): b for a, b in zip(x, y) if np.isfinite(a) and np.isfinite(b)}
                for m in range(max(1, k - width + 2), k):  # (the newest reference is only known after the next control step)
                    if shape == "late" or m not in truth:
                        continue
                    res.count("stage_references")
                    if not res.check(m in got, "stage-reference-missing", lambda: "%s: reference of %s at step %d is not shown" % (eid, q, m), case):
                        break
                    if not res.close(got[m], truth[m][q], "stage-reference", "%s: plotted reference of %s at step %d" % (eid, q, m), 1e-9, 1e-12, case):
                        break
        env.close()
        plain.close()
        plt.close("all")
