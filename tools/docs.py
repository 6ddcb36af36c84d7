"""Writes properties.jsonl, MANIFEST.json and the 'fixed' list of known_findings.json from the data below.

A property is claimed when its check module exists."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SRC = "src/gym_electric_motor/"
PS = SRC + "physical_systems/"
EM = PS + "electric_motors/"
GC = "src/gem_controllers/"


def P(title, statement, over, qtext, why, files, mech, technique, note, state=None):
    d = dict(title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech]))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m) for n, m in state]
    return d, technique, note


PROPS = {}
PROPS["C01"] = P(
    "Same seed and same actions reproduce the interaction exactly",
    "Seeding an environment at a reset determines everything that follows: the same configuration, seed and action sequence yield bit-identical"
    " observations, references, rewards and terminations over any number of episodes. This holds in another instance, in another process, for an instance"
    " that was used before, and regardless of the global random generators or of other environments working in between.",
    ["configurations", "histories"], "all motor/converter/load/supply/reference/wrapper configurations, seeds, action sequences and prior usages",
    "the tests seed single components with mocks; no test compares whole seeded interactions, let alone after different usages",
    [SRC + "core.py", SRC + "random_component.py", SRC + "reference_generators/", PS + "mechanical_loads/", PS + "voltage_supplies/", EM + "electric_motor.py", SRC + "physical_system_wrappers/"],
    [("seed distribution to all random components", SRC + "core.py reset/seed"), ("per-episode generators", SRC + "random_component.py next_generator")],
    "differential execution monitor: bitwise comparison of recorded interactions",
    "observed executions only; one machine, single-threaded BLAS")
PROPS["C02"] = P(
    "Randomness of an episode depends on seed and episode number only",
    "In a seeded environment the random course of the n-th episode (initial states, references, loads, noise) is the same no matter how long the earlier episodes"
    " were, which actions were applied in them or how they ended.",
    ["histories", "configurations"], "all configurations with random components and all pairs of histories before an episode",
    "needs pairs of different histories of the same seed; the tests never compare two histories",
    [SRC + "random_component.py", SRC + "core.py", SRC + "reference_generators/", EM + "electric_motor.py", PS + "mechanical_loads/"],
    [("a new generator is spawned from the seed sequence at each reset", SRC + "random_component.py next_generator")],
    "differential execution monitor over pairs of histories",
    "bitwise comparison on executed pairs of histories; one known finding is listed")
PROPS["C03"] = P(
    "Environments are isolated; constructor arguments are not modified",
    "An environment's interaction and its default parameters are independent of which other environments exist, how those are configured and how calls to them are"
    " interleaved. Dictionaries, lists and arrays handed to constructors are not modified and serve another environment in the same way.",
    ["schedules", "configurations"], "all interleavings of calls to several environments and all customisations",
    "shared class-level dictionaries and mutable defaults only show up when several environments are used together; the tests use one at a time",
    [SRC + "core.py", EM, SRC + "envs/", PS + "mechanical_loads/", SRC + "utils.py"],
    [("defaults are copied per instance", EM + "electric_motor.py update_default_dict"), ("initialize() of components", SRC + "utils.py")],
    "differential execution monitor under random interleavings; argument snapshots",
    "executed interleavings of 2-4 environments and every registered id")
PROPS["C04"] = P(
    "Returned values conform to the declared spaces, names and shapes",
    "Every observation, reference, reward and flag returned by reset and step has the documented structure, and all actions of the declared action space are accepted."
    " While the limits of all states are constrained, every non-terminal observation lies in the declared observation space; states declared as non-negative voltages never become negative. The bounds and actions a drive declares are those its converter can deliver.",
    ["configurations", "inputs", "histories"], "all configurations, actions (also boundary ones) and reachable states",
    "membership in the declared spaces has to hold for all reachable states; tests check the declared spaces of single components only",
    [SRC + "core.py", PS + "physical_systems.py", PS + "converters.py", EM, SRC + "physical_system_wrappers/"],
    [("state space from limits and converter", PS + "physical_systems.py set_state_space / get_state_space")],
    "online conformance monitor on every returned value",
    "executed steps; known findings (default limits) are listed")
PROPS["C05"] = P(
    "An episode ends exactly when a configured constraint is fully violated",
    "A step terminates the episode if and only if the configured constraints, merged as configured (maximum, product or user function), are violated to the full degree in the"
    " state reached by that step. Limit and squared constraints follow their documented formulas including their boundaries, for every choice of observed states.",
    ["configurations", "histories", "inputs"], "all constraint sets, motors, trajectories and boundary states",
    "tests use mocked constraints and single states; sets of constraints on live trajectories are not covered",
    [SRC + "core.py", SRC + "constraint_monitor.py", SRC + "constraints.py", SRC + "envs/"],
    [("merging of violation degrees", SRC + "constraint_monitor.py check_constraints"), ("limit constraint", SRC + "constraints.py LimitConstraint"), ("squared constraint", SRC + "constraints.py SquaredConstraint")],
    "online monitor with an independent constraint evaluation",
    "every executed step and directly evaluated boundary states")
PROPS["C06"] = P(
    "The reward uses the reference that was observed before the action",
    "The reference on which the reward of a step is based is exactly the reference that the preceding reset or step returned to the agent: placed at the referenced states in the"
    " announced order and zero for all others. A reward function is reset once per episode with the initial state and reference array of that episode. Names, number and declared space of the references agree with the configured reference generators.",
    ["configurations", "histories"], "all reference generator compositions (multiple, switched, nested), motors and step/reset histories",
    "off-by-one errors between the observed and the used reference need whole trajectories with changing references",
    [SRC + "core.py", SRC + "reference_generators/"],
    [("reference bookkeeping in step", SRC + "core.py step"), ("get_reference / get_reference_observation", SRC + "reference_generators/")],
    "online trace monitor relating consecutive returned values and recorded callbacks",
    "every executed step, with the values that callbacks and reward functions received")
PROPS["C07"] = P(
    "Rewards equal the documented weighted sum of errors",
    "The reward of each step equals bias minus the weighted, powered and normalised absolute errors between reference and state, blended with the violation reward by the violation degree."
    " Normalised weights, default violation rewards and the declared reward range follow their documented formulas and the range contains every reward of states within the state space.",
    ["configurations", "inputs", "histories"], "all weights, powers, biases, gammas, violation rewards, states, references and violation degrees",
    "tests evaluate a few fixed triples with mocks",
    [SRC + "reward_functions/weighted_sum_of_errors.py", SRC + "core.py"],
    [("error reward and violation penalty", SRC + "reward_functions/weighted_sum_of_errors.py")],
    "online monitor with an independent evaluation of the documented formula",
    "numerical agreement 1e-9 on every executed step")
PROPS["C08"] = P(
    "Converters follow their switching tables, interlocking and power balance",
    "For every history of actions and currents each converter (single, multi and three-phase; finite and continuous) outputs the voltage of its commanded switching state, commutates through an interlocking"
    " phase of the configured length whose voltage is decided by the current direction, and stays in its declared voltage range; out-of-space finite actions are refused and continuous ones are limited."
    " The supply current equals the sum of the currents the conducting branches draw from the supply, and a reset forgets the switching history.",
    ["histories", "configurations", "inputs"], "all action histories, current signs, interlocking times and step sizes",
    "the switching state depends on history; the tests use few scripted sequences",
    [PS + "converters.py"],
    [("finite two-quadrant switching", PS + "converters.py FiniteTwoQuadrantConverter"), ("interlocking", PS + "converters.py _set_switching_pattern"), ("supply current", PS + "converters.py i_sup")],
    "online monitor: reference automaton of the switching table run in lockstep",
    "executed histories; one known finding (continuous 4QC) is listed", [("switching state", "last conducting state and pending interlocking phase per half bridge")])
PROPS["C09"] = P(
    "Every simulated step obeys the documented drive equations",
    "Each simulation step maps the drive's electrical and mechanical state to the state that the documented equations of motor, load, supply and converter give for the applied action, and all returned"
    " state quantities (speed, torque, currents, voltages in all coordinate systems, angles, supply voltages) are those of the reached state, normalised by their limits. This holds for all motors, parameters, converters, interlocking times, control spaces and sampling times.",
    ["configurations", "inputs", "histories"], "all drives, parameters, states and actions",
    "tests compare single functions with mocks or fixed numbers; the composition over time for arbitrary parameters is not covered",
    [PS + "physical_systems.py", EM, PS + "converters.py", PS + "mechanical_loads/", PS + "voltage_supplies/", PS + "solvers.py"],
    [("simulate", PS + "physical_systems.py"), ("motor odes", EM)],
    "lockstep monitor: independent twin simulation compared after every step",
    "agreement to ~1e-9 relative with an independently written model; explicit Euler user setting")
PROPS["C10"] = P(
    "Analytic Jacobians are the derivatives of the simulated equations",
    "Wherever motor, load and system provide Jacobians to a solver, these are the derivatives of the equations that are simulated, with respect to all states, the speed and the torque. With Jacobians switched off, none is passed.",
    ["inputs", "configurations"], "all motors, loads, parameters, states, inputs and speeds (off the kinks of static friction)",
    "tests compare the Jacobians with copies of the same formulas at a few points",
    [EM, PS + "mechanical_loads/", PS + "physical_systems.py"],
    [("electrical_jacobian", EM), ("system Jacobian assembly", PS + "physical_systems.py _system_jacobian")],
    "monitor with numerical differentiation of the executed equations",
    "central differences; sampled points")
PROPS["C11"] = P(
    "All solvers simulate the same drive within their accuracy",
    "Whichever solver family is chosen, with or without Jacobian, every step ends at exactly the end of the sampling interval in the state that the drive equations give, to within the accuracy the solver's settings promise; the explicit Euler solver converges with its number of substeps.",
    ["configurations", "histories"], "all solvers, integrators, drives and input jumps",
    "solver tests use scalar systems with fixed inputs, no input jumps and no switching inside of a step",
    [PS + "solvers.py", PS + "physical_systems.py"],
    [("integrate", PS + "solvers.py"), ("segments of a step", PS + "physical_systems.py simulate")],
    "differential execution monitor against an independent high-resolution integration",
    "tolerances per solver setting; sampled drives")
PROPS["C12"] = P(
    "Transformations are mutually inverse; observations are self-consistent",
    "The coordinate transformations between phase, stator-fixed and rotor-fixed quantities are mutually inverse, length-preserving rotations. In every observation the phase quantities sum to zero, phase and rotor-fixed quantities have equal length, the rotor-fixed currents are the phase currents seen at the observed angle, torque follows from the currents (and fluxes), and the angle is wrapped and advances with the speed.",
    ["inputs", "configurations", "histories"], "all quantities, angles, three-phase drives and trajectories",
    "relations between components of an observation are not checked on trajectories at all",
    [PS + "physical_systems.py", EM + "three_phase_motor.py"],
    [("t_23 / t_32 / q / q_inv", EM + "three_phase_motor.py"), ("abc and dq conversions", PS + "physical_systems.py")],
    "online relational monitor on observations plus algebraic monitors on the transformations",
    "executed trajectories and random quantities")
PROPS["C13"] = P(
    "Energy is conserved",
    "For every motor the electrical input power equals copper losses plus mechanical power plus the change of the magnetic energy, at every state, speed and voltage. A drive with shorted terminals and a passive load never gains energy, and over each simulated step the stored energy changes by what was supplied minus what was lost.",
    ["inputs", "configurations", "histories"], "all motors, (magnetically passive) parameters, states, inputs and trajectories",
    "no test relates electrical and mechanical power",
    [EM, PS + "mechanical_loads/", PS + "physical_systems.py"],
    [("motor odes and torque equations", EM)],
    "conservation monitor on executed equations and trajectories",
    "accurate solvers; passive parameter sets")
PROPS["C14"] = P(
    "Step counter and simulated time advance by one sampling interval",
    "After n steps of an episode the step counter is n and the simulated time n sampling intervals, whatever converter, interlocking, solver or wrapper is used, and both restart at a reset. Supply and load are evaluated at times inside of the current step only.",
    ["configurations", "histories"], "all drives, solvers, wrappers and reset histories",
    "time bookkeeping over segmented steps and resets is not observed by the tests",
    [PS + "physical_systems.py", PS + "solvers.py", PS + "converters.py"],
    [("k and t bookkeeping", PS + "physical_systems.py simulate/reset")],
    "online monitor of clocks plus recording supply and load",
    "executed steps")
PROPS["C15"] = P(
    "Dead time delays every action by exactly the configured number of steps",
    "With a dead time of n steps the drive receives in every step exactly the action passed n steps before in the same episode, and the documented reset actions (by default zero actions) during the first n steps; nothing of an episode leaks into the next, and the caller may reuse its action buffer.",
    ["histories", "configurations"], "all dead times, action spaces, action sequences and reset histories, also with stacked wrappers",
    "tests use scripted actions and mocks for one episode",
    [SRC + "physical_system_wrappers/dead_time_processor.py"],
    [("action queue", SRC + "physical_system_wrappers/dead_time_processor.py")],
    "online queue monitor and differential twin without dead time",
    "executed histories", [("action queue", "the actions that are still to be applied")])
PROPS["C16"] = P(
    "State and action processors compute exactly their documented quantities",
    "Each processor passes all other quantities through unchanged and adds or changes only what it documents: cosine and sine of the normalised angle, the sum of the selected currents, the estimated rotor flux following its observer equation, additive noise on the selected states only, and rotor-fixed control actions converted with the advanced angle. Names, limits, nominal values and spaces are extended consistently, and the values are valid from the reset on.",
    ["configurations", "histories", "inputs"], "all processors, parameters, stacks and trajectories",
    "tests use mocked inner systems and a few fixed states",
    [SRC + "physical_system_wrappers/"],
    [("simulate/reset of the processors", SRC + "physical_system_wrappers/")],
    "lockstep monitor: wrapped system against the bare system plus an independent model of the processor",
    "executed trajectories of stacks up to depth 3")
PROPS["C17"] = P(
    "Voltage supplies deliver the documented voltage for every load current",
    "The ideal supply always delivers its nominal voltage, the AC supplies their sinusoidal voltages with the configured frequency, phase shift and rms value at the current simulation time, and the buffered supply the voltage of its resistance-capacitance circuit discharged by the load current, including no-load recovery and reset.",
    ["inputs", "configurations", "histories"], "all supply parameters, evaluation times and supply current histories",
    "tests use one parameter set and a few times",
    [PS + "voltage_supplies/"],
    [("get_voltage", PS + "voltage_supplies/")],
    "lockstep monitor with independent supply models",
    "executed histories, standalone and inside of drives")
PROPS["C18"] = P(
    "Mechanical loads follow their documented torque-speed laws",
    "The speed changes with the difference of motor and load torque over the total inertia: the polynomial load torque always opposes the rotation with constant, linear and quadratic parts, is continuous at standstill and cannot drive the machine; constant and external speed profiles prescribe the speed; the Ornstein-Uhlenbeck load follows its process law.",
    ["inputs", "configurations", "histories"], "all load parameters, speeds, torques and trajectories",
    "tests evaluate single points",
    [PS + "mechanical_loads/"],
    [("mechanical_ode / static_load", PS + "mechanical_loads/")],
    "monitor with independent load models; statistical monitor for the random load",
    "sampled points and executed trajectories")
PROPS["C19"] = P(
    "Episodes start in the configured initial state",
    "At every reset each state of motor and load starts at its configured constant value, or is drawn uniformly or (truncated) normally from the configured interval intersected with the nominal range, independently for each episode, and the returned observation shows it. Unspecified states start at their defaults, and infeasible constant values are refused.",
    ["configurations", "histories"], "all initialisers, intervals, motors, loads and numbers of resets",
    "the tests check single calls of the initialiser with mocked generators",
    [EM + "electric_motor.py", PS + "mechanical_loads/mechanical_load.py", EM],
    [("initialize", EM + "electric_motor.py"), ("load initializer", PS + "mechanical_loads/mechanical_load.py")],
    "monitor on observed initial states, statistical distribution monitor",
    "executed resets; distribution tests at a false alarm rate below 1e-9")
PROPS["C20"] = P(
    "Callbacks see every event exactly once, in order and with the right values",
    "Every registered callback and visualization is notified exactly once and in registration order of each begin and end of reset and step and of closing, with the action, states, reference, reward and termination the caller passes and receives.",
    ["histories", "configurations"], "all call histories, numbers of callbacks and visualizations",
    "tests count calls of mocks in single steps",
    [SRC + "core.py", SRC + "callbacks.py"],
    [("event forwarding", SRC + "core.py _call_callbacks")],
    "offline trace checker over recorded event logs",
    "executed histories")
PROPS["C21"] = P(
    "No step is executed without a valid reset",
    "A step is accepted exactly when the episode is running: it is refused before the first reset, after a termination, after the reference generator or reward function was replaced and after a reset that failed, until the next completed reset. A refused step has no effect on anything that follows and reaches no callback.",
    ["histories"], "all sequences of step, reset, replacement and termination",
    "needs call sequences with refusals followed by further use",
    [SRC + "core.py"],
    [("terminated flag", SRC + "core.py step/reset")],
    "automaton monitor over random call sequences plus differential twin",
    "executed sequences", [("terminated", "whether a reset is required before the next step")])
PROPS["C22"] = P(
    "User parameters override exactly the named defaults and limits stay consistent",
    "User parameters, limits, nominal values and initial states override exactly the named entries and leave all other defaults in place (also for components built later); unknown names are refused and the dictionaries of the user are not changed. User-set limits are reported and used for the normalisation unchanged (limit and nominal value of a drive quantity are the smaller ones of motor and load, that of the supply voltage its nominal value). Limits and nominal values that are not given (zero) are derived: phase and component quantities of three-phase motors from the general current and half of the general voltage, the torque limit from the current limits; derived values are finite and positive for all positive parameters.",
    ["configurations"], "all subsets of parameters, limit and nominal values of all motors and environments",
    "tests use one parameter set per motor",
    [EM, PS + "physical_systems.py", SRC + "utils.py", SRC + "envs/"],
    [("update_default_dict / limit updates", EM + "electric_motor.py")],
    "metamorphic configuration monitor: constructed systems compared with the documented merge rule",
    "sampled parameter subsets for every motor")
PROPS["C23"] = P(
    "Controllers return admissible actions and restart cleanly",
    "For every supported combination of motor, control task, action type and base controller, the controller of GemController.make is ready to use, returns an action of the environment's action space for every observation and reference, keeps its internal torque references within the torque range, its current references within the current limits reduced by the safety margin and its voltage references within the voltage range (space vectors: their length, with the direction kept), and never changes the passed arrays. After reset() it behaves like a freshly built controller, and controllers of different environments do not influence each other. Integrators do not wind up while an output is limited. A discrete action never has the opposite sign of the demanded voltage. control_environment runs the given number of steps, limits every episode to its maximum length and resets the environment and the controller for every episode.",
    ["configurations", "inputs", "histories"], "all supported combinations, motor parameters, observations, references and reset histories",
    "there are no tests of the controllers' outputs",
    [GC],
    [("clipping stages and output stages", GC + "stages/"), ("gem controller", GC + "gem_adapter.py, gem_controller.py")],
    "online monitor of closed loops and hostile observations; differential twin for resets",
    "executed closed loops")
PROPS["C24"] = P(
    "Operating points realise the demanded torque within the current limit",
    "For every torque reference, the operating point selection of the torque controllers returns currents within the current limits (reduced by the safety margin) that produce this torque, or a smaller torque with the right sign when it is not reachable. DC machines use the only or the smallest possible currents, synchronous machines at low speeds the smallest current for the torque (MTPC), induction machines the flux with the smallest losses within the current limit, so that a constant demand at a low speed settles at the demanded torque or the largest one within the current limit. The solution of the torque and flux equations used for field weakening fulfils both equations.",
    ["inputs", "configurations"], "all torque references, motor parameters and states (PMSM: l_d <= l_q)",
    "the tests never evaluate the torque of the selected currents",
    [GC + "stages/operation_point_selection/"],
    [("operation point selection", GC + "stages/operation_point_selection/")],
    "monitor: independent torque equation evaluated on the selected currents",
    "sampled torques and parameters")
PROPS["C25"] = P(
    "Visualization does not influence the simulation and shows its true values",
    "Attaching dashboards, loggers or other visualizations changes nothing in the interaction. The plotted states, references, actions, rewards and times are the true values of the episode in physical units. Controllers that plot the references of their stages return the actions they return without plotting, each according to its own should_plot and plot_references settings, with any visualization and rendering history.",
    ["configurations", "histories"], "all visualizations, motors, plot selections and histories",
    "plot tests use mocked axes and do not compare the data with a simulation",
    [SRC + "visualization/"],
    [("plot data", SRC + "visualization/motor_dashboard_plots/")],
    "differential twin and monitor of the plotted line data",
    "executed episodes with the off-screen backend")
PROPS["C26"] = P(
    "Returned values belong to the caller and passed actions are not kept",
    "Arrays returned by reset and step are never changed by later calls, and a caller that overwrites returned arrays or reuses its action buffer does not influence the environment.",
    ["histories", "configurations"], "all configurations and sequences of calls with arbitrary modifications of returned and passed arrays",
    "aliasing shows up only when values are kept over later calls; the tests compare immediately",
    [SRC + "core.py", PS + "physical_systems.py", SRC + "physical_system_wrappers/", SRC + "reference_generators/", PS + "converters.py"],
    [("observation assembly", SRC + "core.py step/reset"), ("state assembly", PS + "physical_systems.py simulate")],
    "aliasing sanitizer: returned arrays kept, compared and overwritten; differential twin",
    "executed histories")
PROPS["C27"] = P(
    "References follow their configured signal laws within their margins",
    "Every generated reference stays in its configured limit margin and belongs to its configured law: constants stay constant, steps, sinusoids, triangles and sawtooths have amplitudes, frequencies and offsets in their configured ranges, random walks have the configured increments, and sub-episode lengths lie in the configured range. Switched references follow one of their sub-generators at a time and last the configured number of steps.",
    ["configurations", "histories"], "all generators, parameters, margins, seeds and episodes",
    "tests patch the random generator and evaluate single sub-episodes",
    [SRC + "reference_generators/"],
    [("sub-episode generators", SRC + "reference_generators/")],
    "online monitor that segments the reference trace and fits its law",
    "executed episodes")
PROPS["C28"] = P(
    "The ramping limit margin follows its schedule",
    "The ramping callback starts with the initial margin, widens it by the step size after every configured number of steps or episodes and never beyond the maximum, and every reference generated afterwards respects the margin in force.",
    ["histories", "configurations"], "all schedules, generators and step/reset histories",
    "tests call the callback with mocks a few times",
    [SRC + "callbacks.py"],
    [("RampingLimitMargin", SRC + "callbacks.py")],
    "online schedule monitor",
    "executed histories")
PROPS["C29"] = P(
    "Every registered environment is the drive its name announces",
    "For every registered environment identifier the constructed environment has the announced motor, action type (finite or continuous actions) and control task (the controlled quantity is referenced), simulates without errors and keeps these also with user-defined components. Every argument given by the user (components, callbacks, system wrappers, constraints, visualization, state filter, solver and Jacobian flag, sampling time) reaches the environment and is used.",
    ["configurations"], "all registered identifiers and component replacements",
    "tests instantiate classes, but not the announced semantics per identifier",
    [SRC + "envs/", SRC + "__init__.py"],
    [("registration", SRC + "__init__.py"), ("environment classes", SRC + "envs/")],
    "conformance monitor over all identifiers",
    "all registered identifiers, sampled component replacements")
PROPS["C30"] = P(
    "Tuned controllers obey the symmetrical optimum and settle at their references",
    "The automatically tuned base controllers of the current and speed control output p*e (+ i*integral(e), + d*de/dt) with the gains of the symmetrical optimum (current: p = L/(a*tau), i = p/(a^2*tau); speed: p = J/(a*t_n), i = p/(a*t_n) with the time constant t_n = p/i of the current control, or the smallest one of its windings if it has no integrator), integrate after the output and hold the integral while the output is limited. In closed loops of drives and PI controllers a reachable constant reference of currents, torques or speeds is approached and held with a small remaining error while no limit is violated. Torque controllers of synchronous machines reach from a reset, at every speed up to the limit, torques up to 60 % of what current and voltage limit permit, weakening the field where necessary.",
    ["configurations", "histories"], "all supported motors, parameters, design parameters a, sampling times and reachable constant references",
    "the tests do not run closed loops",
    [GC],
    [("base controllers", GC + "stages/base_controllers/"), ("cascade", GC + "pi_current_controller.py, torque_controller.py, pi_speed_controller.py"), ("parameters", GC + "parameter_reader.py")],
    "reference monitor of the control law in every step; closed-loop monitor of settling and limits",
    "executed sequences and closed loops")
PROPS["C31"] = P(
    "The drive applies the voltages that the current controller demands, including the induced voltage",
    "With decoupling the current controller adds exactly the speed dependent (induced) voltage of the machine at the observed state to its output (DC: psi_e*omega or l_e_prime*i*omega; PMSM and SynRM: -p*omega*l_q*i_q and p*omega*(l_d*i_d+psi_p); SCIM: the cross coupling with the stator frequency p*omega + slip and the rotor flux terms) before the output is limited. The action realises the limited voltage reference: DC windings get the demanded voltage, three-phase machines phase voltages whose dq components, at the angle in the middle of the sampling interval in which they are applied (after the dead time of the system), are the demanded ones.",
    ["configurations", "histories"], "all supported motors, parameters, states, speeds, dead times and references (voltage limits equal to the supply voltage)",
    "the tests do not evaluate voltages of the controllers",
    [GC],
    [("EMF feedforward", GC + "stages/emf_feedforward*.py"), ("transformation", GC + "stages/abc_transformation.py"), ("output stage", GC + "stages/cont_output_stage.py"), ("constants", GC + "parameter_reader.py")],
    "differential monitor of decoupling against an independent machine model; online monitor of demanded versus applied voltages in the closed loop",
    "executed observations and closed loops")

PROPS["C32"] = P(
    "Observers report the current values of the environment",
    "A StateObserver returns for each name of an observed state, and for each reference name with the suffix _ref, that name with exactly the value of the last observation returned by reset or step, whatever state filter, references or wrappers are used and whenever the observer was created. Other names, and observations before the first reset, are refused. Observing changes nothing, and observer subclasses get each pulled value exactly once.",
    ["configurations", "histories"], "all environments, state filters, references and histories of resets and steps",
    "the tests do not use the observers",
    [SRC + "observers/observer.py", SRC + "core.py"],
    [("lookup of the values", SRC + "observers/observer.py pull"), ("last state and reference", SRC + "core.py reset/step")],
    "online monitor comparing observed values with the returned observations",
    "executed observations")


PROPS["C33"] = P(
    "Copied, wrapped and vectorised environments behave like the original",
    "A copy of an environment (copy.deepcopy, or pickle where its components can be pickled, at any moment of its life, also inside an episode) continues exactly like the original: from then on equal actions and seeds give equal observations, references, rewards and terminations in both, the original is not disturbed by the copying, and driving one never influences the other. An environment keeps its behaviour under the standard Gymnasium wrappers: a time limit truncates exactly at its step and ends nothing else, flattened observations contain exactly the state and the reference, rescaled or clipped actions act like the equivalent actions of the environment itself, recorded episode statistics are the sums and numbers of the steps played; and each member of a vector of environments plays exactly the run that it would have played alone, restarted after its own terminations only.",
    ["configurations", "histories", "schedules"], "all environments with random references, rewards, constraints, wrappers, loads and solvers; the moment of the copy; interleaved runs of copies",
    "the tests never copy an environment and hardly wrap one",
    [SRC + "core.py", SRC + "physical_system_wrappers/", SRC + "random_component.py", SRC + "utils.py"],
    [("state of the environment", SRC + "core.py ElectricMotorEnvironment"), ("attribute forwarding", SRC + "physical_system_wrappers/physical_system_wrapper.py __getattr__"), ("random streams", SRC + "random_component.py")],
    "differential monitor: copies, wrapped and vectorised environments in lockstep with a never copied, never wrapped twin",
    "executed runs")
PROPS["C34"] = P(
    "Long runs need bounded memory",
    "The memory in use by an environment does not depend on the number of steps and episodes that it has played, and that of a controller not on the number of control calls: after a warm-up neither stepping nor resetting (seeded or not) nor controlling accumulates objects. Environments and controllers that are no longer referenced are freed, and building further ones does not accumulate memory.",
    ["histories", "configurations"], "all environments with random references, rewards, constraints, wrappers, loads; all controllers; thousands of steps and episodes",
    "tests end after a few steps, an accumulation only shows in trainings of millions of steps",
    [SRC + "core.py", SRC + "physical_systems/", SRC + "reference_generators/", SRC + "physical_system_wrappers/", "src/gem_controllers/"],
    [("episode state", SRC + "core.py reset/step"), ("buffers", SRC + "physical_system_wrappers/dead_time_processor.py"), ("trajectories", SRC + "reference_generators/subepisoded_reference_generator.py")],
    "runtime monitor of the allocator (memory blocks, sizes of containers and arrays) over equal windows of work",
    "executed steps")


PROPS["C35"] = P(
    "Components that served one environment serve the next one like new ones",
    "A component instance - motor, load, converter, supply, solver, reference generator, reward function, constraint, physical system wrapper - that was used in one environment and is then passed to another environment (of the same or of another motor, action type, sampling time, limits) makes that environment indistinguishable from one built with a new instance: the same spaces, names, limits, nominal values and reward range and, for the same seeds and actions, the same trajectories. Nothing of the former environment (its rotor inertia, its limits, its action space, its state names, its random state) is left in it.",
    ["configurations", "histories"], "component instances x pairs of environments x what was played with the first environment",
    "tests build every component anew; what stays in an instance shows only in a second environment, which users get in parameter sweeps and notebooks",
    [SRC + "physical_systems/", SRC + "reference_generators/", SRC + "reward_functions/weighted_sum_of_errors.py", SRC + "constraints.py", SRC + "physical_system_wrappers/"],
    [("attributes set by set_modules/set_physical_system/set_j_rotor", SRC + "reference_generators/subepisoded_reference_generator.py set_modules"), ("rotor inertia", SRC + "physical_systems/mechanical_loads.py set_j_rotor"), ("derived weights", SRC + "reward_functions/weighted_sum_of_errors.py set_modules"), ("state names", SRC + "constraints.py")],
    "differential runtime monitor: an environment built with a used instance against one built with a new one, interfaces and trajectories",
    "steps compared")


PROPS["C36"] = P(
    "Configurations that do not fit the system are refused",
    "A configuration that names something the system does not have is refused with an error by the construction or the first reset, never silently ignored or corrected: states that are not observed (in constraints, state filters, references, reward weights and powers, noise, wrappers, state plots), parameters, limits and nominal values that the motor or load does not have, initial states that do not exist or lie outside the permitted range, overlapping references, sub-generators of a switched reference with different states, probabilities that do not fit, weight lists of a wrong length, dead times below one step, unknown noise distributions, flux observers on other than induction machines, supplies without their required parameters, unknown environment ids. The same holds for constructor arguments outside of their documented values (violation merging, limit margins, sums of currents, coordinate transformations, supply phases, dashboard options, arguments of sub-generators), and a switching state outside of a discrete action space is refused by the step. The refusal leaves nothing behind: the corrected configuration behaves as if the mistaken one had never been tried.",
    ["configurations"], "all environments and wrappers x all places where a name, size or range is given x mistaken values",
    "a misspelled name that is ignored produces a running, wrong experiment; the tests only build valid configurations",
    [SRC + "utils.py", SRC + "constraints.py", SRC + "core.py", SRC + "reference_generators/", SRC + "reward_functions/", SRC + "physical_system_wrappers/", SRC + "physical_systems/"],
    [("names to arrays", SRC + "utils.py state_dict_to_state_array, update_parameter_dict"), ("sub-generators", SRC + "reference_generators/multiple_reference_generator.py, switched_reference_generator.py"), ("initial values", SRC + "physical_systems/electric_motors/electric_motor.py initialize, mechanical_loads.py initialize")],
    "fault injection into configurations: monitor of the refusals, each paired with its corrected twin before and after",
    "mistaken configurations tried")
PROPS["C37"] = P(
    "Cascaded controllers compute the documented control laws however they are composed",
    "Every torque, current and voltage reference of a cascade follows the documented law of its base controller - P, PI, PID or three-point - with the gains of the symmetrical optimum (from the motor parameters, the sampling time and the parameter a, the speed loop from the total inertia and the time constant of the inner loop), denormalised states and references, and integrators that are advanced by one sampling time per call on exactly the axes whose output is not limited. A cascade composed by hand from the public classes, with stages given to the constructors, exchanged through the properties or left to their defaults, acts exactly as the one built by GemController.make, and every given stage is the one that is used.",
    ["inputs", "histories", "configurations"], "all motors, tasks, action types, base controllers, parameters, sampling times, histories of observations, references and resets, and ways of composition",
    "there are no tests of the controllers' outputs, and only make is ever used to build them",
    [GC],
    [("base controllers", GC + "stages/base_controllers/"), ("anti-windup", GC + "stages/anti_windup.py"), ("composition", GC + "torque_controller.py, pi_speed_controller.py, pi_current_controller.py, gem_adapter.py")],
    "reference monitor: independent model of the control laws in lockstep with the cascade; differential twin for the composition",
    "control calls compared")
PROPS["C38"] = P(
    "Random components draw independently of each other",
    "Everything random in an environment is independent of everything else that is random: the initial states of motor and load, random supply phases, random loads, noise on different states and of different processors, every reference of a multiple, nested or switched generator, and user-written random components (callbacks, rewards, wrappers, loads, generators) that use the documented random component interface. The draws of one episode are independent of those of the episodes before, those of one seed of those of another seed, and those of instances that were never seeded of each other.",
    ["configurations", "histories", "inputs"], "all compositions of random components, all seeds, all numbers of episodes and steps played",
    "a shared stream looks as random as separate ones in every single test; only the joint behaviour of components, episodes and seeds shows it",
    [SRC + "random_component.py", SRC + "core.py", SRC + "physical_systems/physical_systems.py", SRC + "reference_generators/multiple_reference_generator.py", SRC + "reference_generators/switched_reference_generator.py", SRC + "physical_system_wrappers/"],
    [("spawned seed sequences", SRC + "random_component.py seed, next_generator"), ("distribution of the seeds", SRC + "core.py _seed, physical_systems.py seed, multiple/switched seed, physical_system_wrapper.py seed")],
    "statistical monitor: rank correlations of all pairs of random quantities recorded per episode over components, episodes, seeds and instances",
    "episodes recorded")

PROPS["C39"] = P(
    "User-defined components are driven by the documented protocol",
    "Components that a user writes on the documented base classes work like the supplied ones and are asked exactly what the documentation says. Loads with further mechanical states (omega at any position) are integrated together with the motor and appear, with their limits, nominal values and initial states, in the state vector; user-defined converters (also inside multi converters), supplies, solvers and motors determine the trajectory as their equations say, with every switching time integrated separately, the converter told each action once, the supply asked with the converter's current, and solvers given the exact system equation and Jacobian. User-defined reference generators, reward functions, constraints, wrappers and callbacks are connected once, seeded once per seeded reset and never otherwise, reset once per episode, asked once per step with the state and reference of that step, and closed once; constraints and other instances are used themselves.",
    ["configurations", "inputs", "histories"], "all user-defined components on the documented base classes, all drives, actions and step/reset histories",
    "the tests only exercise supplied components, almost all of them through mocks of their neighbours; interfaces towards user code are not exercised at all",
    [SRC + "core.py", PS + "physical_systems.py", PS + "mechanical_loads/mechanical_load.py", PS + "converters.py", PS + "voltage_supplies.py", PS + "solvers.py", SRC + "physical_system_wrappers/physical_system_wrapper.py", SRC + "random_component.py"],
    [("order of calls within a step", SRC + "core.py step, " + PS + "physical_systems.py simulate"), ("composition of the system equation and Jacobian", PS + "physical_systems.py _system_equation, _system_jacobian"), ("indices of load, motor and observed states", PS + "physical_systems.py _set_indices")],
    "offline checker of call traces recorded by user-defined components, and an independent integration of their equations as oracle of the states",
    "simulation and environment steps with recorded calls")


FIXED = """C01 5279695 an unseeded reset re-seeded all components, so later episodes of a seeded run differed between instances
C01 bb362c2 seeds did not reach the physical system wrappers themselves (state noise not reproducible)
C16 d92d455 StateNoiseProcessor with the documented states='all' raised
C01 4d869c1 AC supplies drew their phase from the global random generator (and modified the caller's dictionary)
C18 1b51c49 OrnsteinUhlenbeckLoad could not be constructed
C18 ad5eb19 OrnsteinUhlenbeckLoad returned an increment instead of a derivative
C03 a2ea205 the initial states of loads were shared between instances
C19 e8575b3 normally distributed initial states had the same value in every episode
C19 63e0b0d initial motor states were put in the order of the user's dictionary instead of the state order
C08 968ecf9 FiniteTwoQuadrantConverter kept its switching state over a reset
C08 b4817ad a changed sampling time was not handed to the half bridges of the finite multi-leg converters
C08 6c9c86c finite multi converters accepted actions with a wrong number of elements
C08 e76a6cb the interlocking lasted the whole step instead of the interlocking time
C09 3ab2dc1 the supply current of a step was calculated with the previous switching state
C01 dd16112 the initial field angle of SCIM/DFIM came from the global random generator
C03 c7054db a DFIM modified class-level lists of all induction motors
C02 1a70c3b SwitchedReferenceGenerator continued a super-episode over the reset
C27 598637a Wiener processes drew the initial reference from the generator of the previous episode
C05 74e0100 merging violation degrees by 'product' raised
C05 c96ffbd constraints passed as plain functions were dropped
C16 3116a32 CosSinProcessor(remove_angle) returned the angle at the reset
C15 dbf9056 DeadTimeProcessor produced invalid reset actions for multi-discrete spaces
C15 27d04c7 DeadTimeProcessor stored references to the caller's action buffers
C11 ceea2b5 EulerSolver evaluated its substeps at wrong times
C11 7ed38be the ode solvers received a shared derivative buffer
C03 4f13ce5 permanently excited dc motors shared an input array
C09 b004be7 EESM transformed voltages and currents incorrectly during interlocking
C09 010aa21 DFIM transformed the initial rotor currents with a wrong angle
C03 4fe5146 environments shared their simulation parameters
C23 66680c0 controllers did not clip vectors to the limit and its margin
C23 5a2f115 the current controller returned unclipped voltages
C24 8d458c1 the PermExDc torque control did not limit its current
C23 ef74a8d the removed np.complex was used
C23 7466457 P and PID base controllers could not be tuned and reset
C23 3d2d94e three point controllers could not be tuned
C24 4d922b8 SCIM operation point selections shared a flux controller
C24 90ba88d the SCIM minimum loss table was off by one
C23 102e09c controllers used a fixed sampling time for the angle advance
C03 d727606 default constraints were shared between environments
C09 447b3ae the DFIM rotor converter got stator-fixed instead of rotor-fixed rotor currents
C06 74352d1 ConstReferenceGenerator reported its reference names as a string
C19 ba6d53a normally distributed initial states with coinciding bounds crashed the reset
C19 a330712 a mean of zero for normally distributed initial states was treated as not given
C27 22e1d1d with asymmetric margins the offset of sines, triangles and sawtooths left its configured range and the waves were cut off
C11 c4930cf vode/lsoda reused their step history over input jumps (errors up to 127 %)
C22 4ed8fd8 the derived torque limit of a PMSM with l_d > l_q was nan or far too small (wrong root of the maximum torque per current condition)
C22 3ef83ff the derived torque limit of a SynRM with l_d < l_q was negative and reversed the sign of the normalised torque
C25 da712f6 MeanEpisodeRewardPlot: rendering raised after episodes had ended before the first rendering (follow-ups 0e32d1c, f2a137e), ZeroDivisionError in env.reset() after an episode without steps
C25 632871f CumulativeConstraintViolationPlot could not be rendered after reset_figures() and continued the old count
C25 6be4dd6 RewardPlot was never updated again after reset_figures()
C25 e27e9f6 action and reward plots raised an IndexError with scale_plots=True
C25 032de3f episode plots added the rewards and length of the unfinished episode at reset_figures() to the next recorded one
C25 1db4d90 should_plot of one GemController switched the plotting of all others, controllers built without make had no such flag
C25 6195ecb GemController ignored plot_references=False
C25 4e969f7 GemController.make raised with visualizations that have no time plots; control() raised before the first rendering and with i_a and i_e plots
C22 edeb0a0 the derived torque limit of an EESM took the nominal stator current for the excitation current (down to 4 % of the reachable torque)
C33 e85c0f2 copying or unpickling a PhysicalSystemWrapper exceeded the recursion limit
C24 ff2b7e0 the torque control of a PMSM with l_d = l_q could not be tuned (ValueError)
C24 c2a2ee0 operating points of reluctance machines missed the demanded torque (wrong index of the MTPF table) and had the wrong sign with l_q < l_d
C31 a06f09f the decoupling of induction machines used the mechanical instead of the electrical speed
C31 454304e the transformation to phase voltages advanced the angle by the mechanical speed and ignored the dead time
C31 574feca the decoupling of PermExDc and ExtExDc machines had no effect
C23 94f4a02 GemController.make returned an uninitialised controller (control before reset() raised)
C24 f654896 the analytical operating points of PMSM and EESM did not have the demanded flux (wrong coefficients)
C24 106aa90 operating points of the PMSM could be the real part of a complex root (follow-up 7ee1814)
C23 d62bb7b control_environment let the first episode run max_episode_length+1 steps
C30 6f3080f the current controllers of induction machines were tuned with l_r/r_r instead of the leakage inductance (unstable with the full supply voltage)
C30 a71e386 the flux controller of induction machines drove the rotor flux through zero: a speed controlled SCIM without load violated its current limit
C24 a9b8076 torque demands beyond the current limit of an induction machine magnetised it with the whole current: the torque settled at zero
C21 9336408 steps were accepted after a reset that failed in one of the components
C32 14c0bf3 StateObserver failed on registered environments, for references and after a reset, and reported wrong states with a state filter
C35 6641221 a mechanical load used in a second environment accumulated the rotor inertia
C35 18939f7 subepisoded reference generators used in a second environment applied their margins twice and kept the ranges of the former system
C35 154ed27 WeightedSumOfErrors kept the weights, bias and violation reward derived for a former environment
C35 ca9a173 DeadTimeProcessor kept the default reset actions of a former action space
C35 69fce9d LimitConstraint('all_states') kept the state names of a former physical system
C37 05275a4 the torque controller dropped a clipping stage passed to its constructor (AttributeError at tune)
C37 07ea0e9 the speed controller built an empty default torque controller (tune failed)
C12 e488528 the observed phase currents of synchronous motors (field oriented currents of induction motors) were transformed with the angle of the beginning of the last switching interval: up to 25 % wrong against the observed i_sd, i_sq, epsilon at high speed
C12 6833b93 transformations with a normed angle scaled an angle that was passed as an array (e.g. a view of the state) in place
C32 3b0ea96 the current observation of the environment contained the reference array returned to the caller, who could modify it
C18 495f2a0 a polynomial static load without an own inertia could not be created, although the inertia of the rotor is added
C39 62925f7 systems with induction motors could not be reset with a load of several mechanical states
C39 1bb8222 initial states of a load with several states were put in the order of the user's dictionary instead of the state order
C39 2cfd251 user-defined constraints were replaced by copies, so that the user's instance was never used (introduced by the repair d727606)
C27 4741eea MultipleReferenceGenerator with classes and keyword arguments (the documented form) raised
C25 bae7cc2 a dashboard rendered once at the end (RenderMode.FigureOnce) was empty after less steps than the update interval
""".strip().splitlines()


def main():
    have = [i for i in PROPS if os.path.exists(f"{ROOT}/gemv/checks/{i.lower()}.py")]
    with open(f"{ROOT}/properties.jsonl", "w") as f:
        for i in have:
            f.write(json.dumps(dict(id=i, **PROPS[i][0])) + "\n")
    checks = [dict(property=i, quick_cmd=f"./run.sh {i} --tier quick", thorough_cmd=f"./run.sh {i} --tier thorough",
                   technique="runtime monitoring: " + PROPS[i][1], level="exploration",
                   level_note=PROPS[i][2] + "; assurance is limited to the observed executions") for i in have]
    man = dict(version=1, setup_cmd="./run.sh --selftest",
               hooks=dict(guard="GEMV_HOOKS", enable="no hooks are compiled into /repo: all monitors attach through the public interfaces (callbacks, user-defined components, wrappers)", source_commits=[]),
               checks=checks, not_applicable=[], notes="gemv: runtime monitors for gym-electric-motor; see DESIGN.md")
    with open(f"{ROOT}/MANIFEST.json", "w") as f:
        json.dump(man, f, indent=1)
    p = f"{ROOT}/known_findings.json"
    k = json.load(open(p))
    k["fixed"] = ["fixed: property=%s %s %s" % tuple(x.split(" ", 2)) for x in FIXED]
    with open(p, "w") as f:
        json.dump(k, f, indent=1)
    print(have)


main()
