"""Writes /verif/DESIGN.md from the hand-written text below, the check modules, properties.jsonl, known_findings.json and seeded/."""
import ast
import glob
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

INTRO = """# gemv: runtime monitors for gym-electric-motor

Generated by `tools/design.py` (text there; rules, assumptions and minima are read from the check modules in `gemv/checks`).

## Approach

The deciding step of every check is an **oracle observing executions of the real code** imported from `/repo/src` (no build step: Python is
imported from the working tree on every run, byte code caches are not used).  Nothing in `/repo` is instrumented; the monitors attach
through public interfaces only, so that refactorings stay quiet:

* recording callbacks / visualizations (`gemv/session.py`: an online checker of the event order plus a complete event log),
* recording physical-system wrappers, solvers, supplies and loads that the harness passes to the constructors (they delegate to the
  real class and log calls, times, values; `gemv/probe.py`, `gemv/oracles.py`),
* the return values of `reset`, `step`, `convert`, `simulate`, `control`, ...

The oracles are written from the documentation and the text-book equations, not from the code:
`gemv/refsim.py` (converters with interlocking, supplies, loads, all motor equations, transformations, an explicit Euler and a
high-resolution integration), `gemv/oracles.py` (reference model of the environment: constraints, rewards, references, wrappers),
`gemv/ctrl.py` (controller laws).  Workloads: `gemv/zoo.py` samples environments (54 registered ids x user components x parameters x
wrappers x callbacks), `gemv/systems.py` samples single physical systems with arbitrary parameters; action schedules mix uniform, extreme, held,
switching and out-of-space actions; episodes are ended by terminations, early resets, exceptions; seeds are derived from `VERIF_SEED`.
Sanitizers in the compiler sense have nothing to act on here (pure Python, no threads, no native code); their counterparts are
`np.seterr`-style NaN/finite monitors, aliasing monitors (writing into returned/passed arrays, C26), mutation monitors on
constructor arguments and class attributes (C03, C22) and the global-random-state monitor (C01).

A check = module with `jobs(tier, seed)` (pure job functions, forked over 8 processes), an oracle and `REQUIRE`: minima of what the
monitors must have seen (events, comparisons, commutations, clipped outputs ...); a run that saw less is an error (exit 2), never a pass.
Violations are keyed by mechanism, each carries a replay file (`./run.sh --replay FILE`). `./run.sh Cxx --tier quick|thorough --seed n`;
`GEMV_REPO=/tree ./run.sh Cxx` judges another tree (used for planted bugs); `./run.sh --selftest` feeds the oracles hand-made wrong records.

Numeric tolerances are ~1e-9 relative for identical formulas (so that reordering operations stays quiet), solver accuracy where a
solver is in between, and exact only where the same code is compared with itself (determinism, isolation, aliasing).

Why this reaches what the tests cannot: the repository's tests pin single calls of single classes with fixed numbers (mostly with
mocks). The monitors see complete interactions of random compositions over many episodes: state carried over resets, shared mutable
objects, rare switching histories, unusual parameters, two components that disagree.  They are no proof: what is claimed is what was
observed; the evidence files give the numbers.
"""

WHY = {
"C01": "needs two complete interactions of the same composition, with disturbances in between; tests compare a few seeded components",
"C02": "needs episodes with different histories; every component that draws or keeps state across a reset is involved",
"C03": "aliasing only shows when two environments with different configurations live interleaved",
"C04": "membership in the space must hold for all reachable states; the tests check construction only",
"C05": "boundary states and merge functions for arbitrary subsets of states; long closed loops with real terminations",
"C06": "ordering property between four objects over whole episodes incl. sub-episodes, switched and multiple generators",
"C07": "formula over all parameter combinations and the reachable states, and the declared range as a bound for all of them",
"C08": "state machine over action/current histories; the tests cover fixed sequences of the single converters",
"C09": "end-to-end reference simulation of random drives; tests mock each component",
"C10": "derivatives by complex/central differences at random states, speeds and parameters",
"C11": "accuracy against an independent high-resolution integration over input jumps, and convergence order",
"C12": "identities for all angles/speeds and all observations of real runs",
"C13": "a physical invariant independent of how equations are written: catches consistent sign and factor errors",
"C14": "clocks are kept in several objects (solver, generators, supply, load); recorded over many episodes",
"C15": "exactly-once delivery with delay over episodes and early resets",
"C16": "stacked processors in any order on any drive",
"C17": "arbitrary call times, loads and resets",
"C18": "sign and continuity for every speed, trajectories through standstill",
"C19": "statistics over many episodes (distribution, independence, support) and exact constants",
"C20": "order and payload of all events over whole sessions, including exceptions and closing",
"C21": "protocol over arbitrary call sequences incl. replaced components",
"C22": "cross product of named parameters x components built before/after",
"C23": "arbitrary observations and references for all controllers, not one nominal trajectory",
"C24": "optimality and equality judged against an independent optimiser at random machine parameters",
"C25": "plots compared with the true values of recorded episodes; interaction compared with and without them",
"C26": "overwrites every returned/passed array and compares with an undisturbed twin",
"C27": "laws recovered from the generated signal itself, distribution tests at p < 1e-10",
"C28": "margins observed in the references that follow each update",
"C29": "built from the identifier's text alone, for all identifiers and replacements of components",
"C30": "closed loops over thousands of steps, gains recomputed from motor parameters",
"C31": "compares the plant's applied voltages with the demanded ones, incl. angle advance and dead time",
"C32": "the observing wrapper is compared with what the environment really returned, step by step, for random selections and episodes",
"C33": "copies are taken at random moments of random runs and played in lockstep with the original and with a twin that was never copied; the wrappers and the vector of Gymnasium are compared with the plain environment step by step",
"C34": "the allocator's own statistics are read after each of several equal windows of work; growth in every window is a leak; objects that existed before the job are frozen (gc.freeze), which makes the readings free of noise and cheap",
"C35": "two environments of one description, one with a used and one with a new instance of a component, are compared as black boxes; the former life of the instance (episodes, seeds, abandoned episodes, other motors and limits) is drawn at random",
"C36": "a mistake is injected at one place of a random valid configuration; the oracle is the pair of outcomes (the mistaken one raises, the corrected twin runs, and runs bitwise the same before and after the refusal), so a check that refuses everything would be noticed as well",
"C37": "the laws are evaluated by a model with its own integrators in lockstep with the cascade, so each call of a long history is judged and not only the steady state; calls whose limitation is a matter of rounding restart both sides",
"C38": "independence is a joint property of all components over many episodes and seeds; identical, shifted or re-used streams give rank correlations near one between columns that must be uncorrelated, whatever distribution each component makes of its stream",
"C39": "code outside the repository has to fit into it: recorded calls of whole families of user components (multi-state loads, switching converters, state-dependent supplies, solvers, saturated motors, every environment-level base class) are the only executions in which swapped indices, doubled calls or wrong arguments become visible",
}

EXCLUDED = """
## What is not claimed, and false alarms that were corrected

Properties were narrowed where the documentation does not support more, or where the existing tests pin another behaviour:

* `PolynomialStaticLoad` Jacobian exactly at standstill with a=0 (a test pins an extra term); the kink itself is excluded (C10).
* A user function for merging violations gets one list (pinned by tests); constraints are judged with `all_states` in a list (C05).
* Observed rotor-fixed voltages use the angle at the beginning of the step's last segment, in which they act; only lengths are compared there (C12).
* The first super-episode of a switched reference may be one step longer (C27); `RampingLimitMargin` with update 'step' makes episodes
  depend on the history by design (C02).
* Buffered supply: one explicit Euler step per evaluation is the documented behaviour; it uses the present current (C17).
* AC supplies are single components in C17; three-phase supplies cannot drive any system of the package; a state declared with
  low 0 for an AC supply is not judged.
* EESM ignores `control_space='dq'` (only abc is sampled).
* Stacked `DeadTimeProcessor`s: delays add, but only the outer one is counted for the angle advance; one dead time is sampled.
* `examples/` (among them the classic controllers) are scripts for users and use private attributes; they are not judged.
* User reset actions of the dead time are popped from the end; only constant lists are judged (C15).
* 1-quadrant converters with reverse currents: the power balance is not claimed (C08).
* `Synchronous`/`InductionMotor.reset` do not start a new random stream (`next_generator` is not called); reproducibility is still judged (C02).
* Drives at NaN states: no termination is claimed (C05).
* Docs tables list limits (i_a for three-phase motors) that raise `KeyError`; a zero limit counts as unspecified (C22).
* ExternalSpeed / OrnsteinUhlenbeck loads define their derivative per Euler step: excluded from C11, judged in C18.
* Dashboards: `FigureOnce` with fewer steps than the update interval leaves episode plots empty; `ConsolePrinter` summary is judged when
  rendered right after reset; both harmless for the interaction (C25).
* gem_controllers: discrete controllers for the B6 bridge are not implemented, DFIM is unsupported, SCIM needs a `FluxObserver`, whose Euler
  discretisation diverges at high electrical speeds (omega_el^2 tau > 2/T_r), so SCIM speed control is judged at low speeds; default EESM
  parameters have negative leakage (closed loops diverge), so EESM is excluded from C30; its decoupling is approximate (only q judged, C31);
  the symmetrical optimum overshoots by up to 40 %, so speed control loops run with margin 0.35; SeriesDc/ShuntDc speed control has limit
  cycles and is excluded from tracking; three-point hysteresis is in mixed units (a Todo in the code); SCIM torque bound for nominal speed.

False alarms met while building (all corrected in the check, none listed as a finding): Euler-type loads judged with accurate solvers;
termination decisions within rounding of the limit; currents crossing zero within a step for "non-negative" bounds; truncated-normal
tests with too narrow intervals; reward range for states outside of the space; adaptive solvers probing ahead of the step (C14);
table resolution of operating points (C24); saturation phases counted as tracking errors (C30).
"""

def const(mod, name):
    t = ast.parse(open(mod).read())
    for n in t.body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") == name:
            try:
                return ast.literal_eval(n.value)
            except ValueError:
                return None
    return None


def main():
    out = [INTRO, "\n## Properties and how they are decided\n"]
    times = {}
    p = os.path.join(ROOT, "tools", "times.json")
    if os.path.exists(p):
        times = json.load(open(p))
    for l in open(os.path.join(ROOT, "properties.jsonl")):
        d = json.loads(l)
        c = d["id"]
        m = os.path.join(ROOT, "gemv", "checks", c.lower() + ".py")
        out.append(f"### {c} {d['title']}\n")
        out.append(d["statement"] + "\n")
        out.append(f"* **monitor and oracle**: {const(m, 'RULE')}")
        a = const(m, "ASSUMPTIONS")
        if a:
            out.append("* **assumptions / bounds**: " + "; ".join(a))
        out.append("* **must be observed (quick)**: " + ", ".join(f"{k} >= {v}" for k, v in (const(m, "REQUIRE") or {}).items()))
        out.append(f"* **beyond tests**: {WHY[c]}")
        if c in times:
            out.append(f"* **cost**: quick {times[c].get('quick', '?')} s on 8 cores (thorough: the same jobs with more and longer runs, up to its time limit)")
        out.append("")
    out.append("No property is listed as not applicable: all claims are about observable behaviour of executions.\n")
    out.append(EXCLUDED)
    k = json.load(open(os.path.join(ROOT, "known_findings.json")))
    out.append("\n## Known findings (genuine, not repaired)\n")
    for x in k["known"]:
        out.append(f"* {x['property']} `{x['key']}`: {x['what']}")
    out.append("\nThey are not repaired because existing tests pin the behaviour, or because the repair would change default parameters or public defaults.\n")
    out.append("\n## Repaired defects (`fix:` commits in /repo)\n")
    for x in k["fixed"]:
        out.append("* " + x[len("fixed: property="):])
    out.append("\n## Planted bugs and the checks that catch them\n")
    out.append("Every entry passes the 1151 tests and has a demonstration. 'caught by' = checks of the related properties that exit 1 on it.\n")
    out.append("| id | property | needs | caught by |\n|---|---|---|---|")
    r = {}
    p = os.path.join(ROOT, "tools", "seeded_results.json")
    if os.path.exists(p):
        r = json.load(open(p))
    for f in sorted(glob.glob(os.path.join(ROOT, "seeded", "*", "meta.json"))):
        d = json.load(open(f))
        i = os.path.basename(os.path.dirname(f))
        out.append(f"| {i} | {d['property']} | {d['needs']} | {r.get(i, '')} |")
    p = os.path.join(ROOT, "tools", "mutation.md")
    if os.path.exists(p):
        out.append("\n" + open(p).read())
    with open(os.path.join(ROOT, "DESIGN.md"), "w") as f:
        f.write("\n".join(out) + "\n")


main()
