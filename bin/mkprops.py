#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so the list stays readable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=" ".join(statement.split()),
        quantifier=dict(over=over, text=" ".join(text.split())),
        why_tests_cant=" ".join(why.split()),
        anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a,b,c in state],
                     mechanism=[dict(name=a, where=b) for a,b in mech],
                     observe_at=list(observe), hook_needed=hook)))
I = "include/crocoddyl/core/"
S = "src/core/"
OC = I+"optctrl/"; SV = S+"solvers/"

p("C01", "Parallel evaluation of a shooting problem equals the serial one, race-free",
"""Evaluating a shooting problem (costs and dynamics, derivatives, quasi-static inputs) in a multi-threaded build
leaves, for every number of threads and every schedule of them, bitwise the same values in every node's data and the
same total cost as evaluating the nodes one after the other. No two threads make conflicting unsynchronised memory
accesses while doing so, also when nodes share one action model. When a node's model throws, the caller receives that
exception, the process survives, and the next evaluation is again exact.""",
["schedules","inputs","configurations","fault_sequences"],
"all thread counts, worker interleavings (preemption at any memory access), problem shapes, shared or separate models, and throwing nodes",
"The test build has OpenMP off; a test that ran threads would see one uncontrolled schedule per run.",
[OC+"shooting.hpp", OC+"shooting.hxx"],
[("static loop partition over nodes, per-node data, reduction of cost", OC+"shooting.hxx")],
[("running_datas_", "one data per node, never shared", OC+"shooting.hpp"),("nthreads_","number of threads used by the parallel loops",OC+"shooting.hpp")],
["ShootingProblem::calc/calcDiff/quasiStatic results", "datas of all nodes"])

p("C02", "Solvers give the same result for every thread count and schedule, race-free",
"""In a multi-threaded build a whole solve (DDP, FDDP, BoxDDP, BoxFDDP, Intro, KKT, Ipopt) gives for every number of threads and every
thread schedule bitwise the same return value, iteration history and final trajectories as the single-threaded solve, up
to the documented serial order of floating-point reductions. The parallel sections of the solvers make no conflicting unsynchronised accesses,
and an exception thrown in one of them by a model does not end the process.""",
["schedules","inputs","configurations","fault_sequences"],
"all thread counts, interleavings, problems and solver options",
"No test runs a solver with threads; the schedule space is not reachable by repetition.",
[S+"solver-base.cpp", SV+"ddp.cpp", SV+"fddp.cpp", SV+"intro.cpp", SV+"ipopt/ipopt-iface.cpp", OC+"shooting.hxx"],
[("parallel computeDynamicFeasibility", S+"solver-base.cpp"),("parallel nullspace decompositions", SV+"intro.cpp"),("parallel eval_f/eval_g/eval_jac_g/eval_h", SV+"ipopt/ipopt-iface.cpp")],
observe=["callback stream of (iter, cost, stop, reg, step, merit, feasibility)", "xs, us, K, k"])

p("C03", "Independent problems solved concurrently do not disturb each other",
"""Caller threads that each own their shooting problem and solver, and share only immutable action models, states, costs or actuations,
get under every interleaving bitwise the results they get when run alone. No conflicting unsynchronised access happens
through library-internal global, static or model-level mutable state (the global profiler being off).""",
["schedules","inputs","histories"],
"all interleavings of 2-4 caller threads doing construction, evaluation, solves, edits of their own problem and destruction, with shared model objects",
"Tests are single threaded.",
[I+"action-base.hpp", I+"actions/lqr.hxx", I+"optctrl/shooting.hxx", I+"costs/cost-sum.hxx", I+"constraints/constraint-manager.hxx", S+"solver-base.cpp", SV+"ddp.cpp", SV+"box-qp.cpp", I+"utils/stop-watch.hpp"],
[("models are const during evaluation, mutable memory lives in data", I+"action-base.hpp"),("shared_ptr reference counts are atomic", I+"fwd.hpp")],
observe=["results per caller thread"])

p("C04", "Every solve ends within a bounded number of evaluations",
"""solve() returns after at most maxiter iterations for every solver, and the work it does is bounded by maxiter, the number of
step lengths and the number of regularisation increases between the minimum and maximum regularisation, whatever the models return (finite,
huge, infinite or NaN values), whatever they throw and at whichever evaluation, and whatever the regularisation settings accepted by the setters are.""",
["fault_sequences","inputs","configurations"],
"all problems, solver options, initial guesses and model faults (exceptions, NaN/Inf, transient or sticky) at any evaluation index",
"An endless retry only appears when a derivative computation or backward pass keeps failing in a particular state; the tests never make a model fail.",
[SV+"ddp.cpp", SV+"fddp.cpp", SV+"intro.cpp", SV+"kkt.cpp", SV+"box-ddp.cpp", SV+"box-fddp.cpp", SV+"box-qp.cpp"],
[("increaseRegularization capped by reg_max ends the retry loop", SV+"ddp.cpp"),("for over alphas_, for over maxiter", SV+"ddp.cpp")],
[("preg_/dreg_","current regularisation", I+"solver-base.hpp")],
["number of model evaluations", "simulated steps", "get_iter()"])

p("C05", "What a solver reports about its candidate is true",
"""At every callback and when solve() returns, the candidate trajectories are finite, have the problem's shape and start where the solver
claims; the reported cost is the cost of exactly that candidate, the feasibility flag says whether its gaps close within
tolerance, and reported stop, step, decreases, merit and iteration count belong to it. solve() returns true only for a candidate that satisfies
the stopping criterion on up-to-date derivatives (a stationary point; the optimum for a linear-quadratic problem), and box solvers never accept a control outside
its bounds.""",
["inputs","fault_sequences","histories","configurations"],
"all problems, warm starts, solver options and model faults at any evaluation",
"Tests check a few converged trajectories; a stale cost, derivative or flag shows only after particular sequences of rejected steps, regularisation changes and failed evaluations.",
[S+"solver-base.cpp", SV+"ddp.cpp", SV+"fddp.cpp", SV+"box-ddp.cpp", SV+"box-fddp.cpp", SV+"intro.cpp", SV+"kkt.cpp", SV+"box-qp.cpp"],
[("recalcDiff flag", SV+"ddp.cpp"),("checkFeasibility / computeDynamicFeasibility", S+"solver-base.cpp"),("stoppingCriteria", SV+"ddp.cpp"),("projection on the control bounds", SV+"box-qp.cpp")],
[("cost_, stop_, is_feasible_, was_feasible_, iter_, steplength_","what is reported",I+"solver-base.hpp")],
["SolverAbstract getters inside a callback and after solve()", "return value of solve()"])

p("C06", "Failed or rejected trial steps never leak into the candidate",
"""Between two accepted iterations the solver's candidate changes only by accepting one completely evaluated trial: after a
trial that is rejected, throws, or yields non-finite values, and after a failed backward pass, the candidate trajectories, cost and
feasibility flag are bitwise those of before. From a feasible candidate the cost of accepted candidates never increases beyond the acceptance rule's documented margin.""",
["fault_sequences","histories","inputs"],
"all fault points inside forward and backward passes, all acceptance settings",
"Needs a fault in the middle of a rollout; tests have none.",
[SV+"ddp.cpp", SV+"fddp.cpp", SV+"intro.cpp", SV+"box-ddp.cpp", SV+"box-fddp.cpp", SV+"kkt.cpp", S+"solver-base.cpp"],
[("xs_try_/us_try_ and setCandidate on acceptance", SV+"ddp.cpp"),("try/catch around tryStep", SV+"ddp.cpp")],
observe=["xs/us/cost at callbacks and after a faulted solve"])

p("C07", "A solver's past never influences its next solve",
"""After any history of solves, aborted or failed solves, exceptions from models or callbacks, rejected invalid calls and
option changes that were set back, a solve from given warm start and options behaves bitwise like the same solve on a newly constructed
solver (same return value, iterations, costs and trajectories). The same holds for the box-constrained QP solver, whose answer lies within its bounds
and is the minimiser its projected Newton iteration converges to.""",
["histories","fault_sequences","inputs"],
"all sequences of solves, faults and setter calls followed by a probe solve",
"Tests construct a fresh solver per case.",
[S+"solver-base.cpp", SV+"ddp.cpp", SV+"fddp.cpp", SV+"intro.cpp", SV+"kkt.cpp", SV+"box-ddp.cpp", SV+"box-fddp.cpp", SV+"box-qp.cpp"],
[("setCandidate resets the candidate", S+"solver-base.cpp"),("per-solve initialisation of regularisation and flags", SV+"ddp.cpp")],
[("preg_, dreg_, was_feasible_, xs_try_, fs_, Qu/K buffers","state kept between solves",I+"solvers/ddp.hpp")],
["callback stream and final trajectories"])

p("C08", "Shooting-problem edits are consistent and all-or-nothing",
"""After any sequence of appends, model updates, whole-list replacements, initial-state and thread-count changes and copies, a shooting problem
reports exactly the horizon, models and dimensions that a simple list model predicts, every node's data belongs to that node's model, and evaluating it equals
evaluating a freshly built problem. An edit that is rejected or fails (bad index, wrong dimensions, throwing data creation, allocation failure) leaves the problem exactly as it was, or, for
whole-list replacement, usable and consistent.""",
["histories","fault_sequences"],
"all edit sequences with invalid arguments and failing data creation or allocation at any point",
"Tests cover single successful edits; the intermediate states after a failing edit are never looked at.",
[OC+"shooting.hpp", OC+"shooting.hxx"],
[("argument validation before mutation", OC+"shooting.hxx"),("is_updated flag", OC+"shooting.hxx")],
[("running_models_/running_datas_/terminal_*","the horizon",OC+"shooting.hpp"),("nx_max_/ndx_max_/nu_max_","maxima over nodes",OC+"shooting.hpp"),("is_updated_","models changed since last query",OC+"shooting.hpp")],
["getters", "calc/calcDiff/rollout results"])

p("C09", "Solvers follow edits of their problem (receding horizon)",
"""After its problem was edited (node appended, models replaced by ones of other control dimension, terminal model changed, initial state changed),
the next solve of an existing solver behaves bitwise like a new solver built on the edited problem with the same warm start and options.""",
["histories"],
"all edit/solve histories, including several edits between solves and edits after failed solves",
"The tests never edit a problem between two solves of one solver.",
[OC+"shooting.hxx", S+"solver-base.cpp", SV+"ddp.cpp", SV+"fddp.cpp", SV+"intro.cpp", SV+"box-ddp.cpp", SV+"box-fddp.cpp", SV+"kkt.cpp"],
[("is_updated() consumed by resizeData()", SV+"ddp.cpp")],
observe=["callback stream, trajectories, gains"])

p("C10", "Evaluations depend on their inputs, never on what the data held before",
"""What calc and calcDiff write for given state, control and current model parameters is bitwise the same whether the data object
is new or was used before for any other points, for interrupted (throwing) evaluations, for terminal-node evaluations, or before the model's parameters,
reference, weights, bounds or enabled costs and constraints were changed; two data objects of one model never influence each other.""",
["histories","fault_sequences","inputs"],
"all sequences of evaluations, parameter changes and faults over action, differential-action, integrator, cost, constraint, actuation and control models",
"Unit tests evaluate fresh data at one point; leftovers need two different evaluations of the same data with a change or failure in between.",
[I+"action-base.hxx", I+"integrator/euler.hxx", I+"integrator/rk.hxx", I+"actions/lqr.hxx", I+"actions/diff-lqr.hxx", I+"actions/unicycle.hxx", I+"costs/cost-sum.hxx", I+"costs/residual.hxx", I+"constraints/constraint-manager.hxx", I+"constraints/residual.hxx", I+"actuation/squashing-base.hpp", I+"numdiff/action.hxx"],
[("mutable state only in data; outputs fully overwritten by calc/calcDiff", I+"action-base.hpp"),("shareMemory between node data and cost/constraint data", I+"data/joint.hpp")],
observe=["xnext, cost, r, g, h, Fx, Fu, Lx, Lu, Lxx, Lxu, Luu, Gx, Gu, Hx, Hu"])

p("C11", "Cost and constraint registries stay consistent under any history",
"""After any sequence of adding, removing, enabling and disabling items, including duplicates, unknown names and failing
calls, a cost sum or constraint manager reports exactly the names, dimensions, bounds and status of a simple dictionary model, and
evaluates to the weighted sum or stacking of exactly the active items, also for data created before the items' weights, bounds or status
were changed (a manager's data being resized to its active set first, as documented). Data created for another number of items is refused. A call that
fails, for lack of memory or because its argument is invalid, changes nothing.""",
["histories","fault_sequences"],
"all operation histories, with invalid calls and allocation failures",
"Tests do one add and one remove.",
[I+"costs/cost-sum.hpp", I+"costs/cost-sum.hxx", I+"constraints/constraint-manager.hpp", I+"constraints/constraint-manager.hxx"],
[("active/inactive sets and running dimension totals", I+"costs/cost-sum.hxx")],
[("nr_, nr_total_, ng_, nh_, active_set_, inactive_set_, lb_, ub_","registry",I+"constraints/constraint-manager.hpp")],
["getters and calc/calcDiff"])

p("C12", "Running out of memory never crashes, corrupts or leaks",
"""When any single heap allocation (or every one after a point) fails during construction, evaluation, problem edits, copies, printing or solves, the
call either throws or completes; a completed construction, edit or evaluation has its normal result, and a completed solve still reports
truthfully about its trajectories. The process does not crash, corrupt or leak memory, a failed edit changes nothing, and once memory is available
again the same objects give bitwise the results of objects that never ran out of it.""",
["fault_sequences","histories"],
"the failing allocation index, over all operations of the public API",
"Tests never fail an allocation.",
[OC+"shooting.hxx", S+"solver-base.cpp", SV+"ddp.cpp", SV+"intro.cpp", SV+"box-qp.cpp", I+"costs/cost-sum.hxx", I+"constraints/constraint-manager.hxx"],
[("RAII containers and shared_ptr ownership", OC+"shooting.hpp"),("try/catch in solve loops", SV+"ddp.cpp")],
observe=["results, leak counters, heap canaries"])

p("C13", "Results never depend on uninitialised memory, clocks or profiling",
"""Solver results and problem evaluations are bitwise identical whatever the contents of freshly allocated memory, whatever the clocks show or how they jump,
and whether the profiler is on or off; callbacks that only observe do not change the result.""",
["configurations","fault_sequences","histories"],
"all heap fill patterns, clock behaviours (constant, jumping, backwards), profiler settings and callback sets",
"A test process has one heap content and one clock; a read of uninitialised memory usually sees zeros.",
[S+"solver-base.cpp", SV+"ddp.cpp", SV+"fddp.cpp", SV+"intro.cpp", SV+"kkt.cpp", SV+"box-qp.cpp", OC+"shooting.hxx", I+"utils/stop-watch.hpp", I+"utils/timer.hpp", S+"utils/callbacks.cpp"],
[("all buffers are initialised in constructors / allocateData", SV+"ddp.cpp")],
observe=["hash of the complete observable result"])

p("C14", "The profiler's time accounting is exact for every history",
"""For every history of start, pause, stop, report and reset over any set of profiled names and any behaviour of the clock, the profiler's total, average, minimum, maximum,
last time and number of stops of each name, also as printed in reports, equal those of a simple accounting model, a name that was never started raises
StopwatchException, and pausing never adds time that did not pass. A stopwatch that is turned off, and a disabled profiler, record nothing. A solve in which no evaluation
fails stops every timer it started, and switching the profiler on or off during a solve never makes the solve fail.""",
["histories","fault_sequences","inputs"],
"all operation histories and clock behaviours",
"Tests do not touch the profiler and cannot control the clock.",
[I+"utils/stop-watch.hpp", S+"utils/stop-watch.cpp", I+"utils/timer.hpp"],
[("PerformanceData bookkeeping", S+"utils/stop-watch.cpp")],
[("records_of","per-name totals",I+"utils/stop-watch.hpp")],
["get_total_time/average/min/max/last, report output"])

p("C15", "Logs and CSV output survive stream and disk faults",
"""The solver callbacks and the CSV stream write exactly the rows for the iterations that happened, in order, with the values the solver reports, and when the underlying stream or disk
fails (short write, full disk, error, throwing buffer) the bytes that reached it are a prefix of the correct output, the solver's result is unchanged unless the user told the stream to throw, and the process is
not ended.""",
["fault_sequences","histories"],
"all fault points in the output stream or file",
"Tests print to a working stdout at best.",
[S+"utils/callbacks.cpp", I+"utils/file-io.hpp", I+"utils/callbacks.hpp", S+"utils/stop-watch.cpp"],
[("row formatting by level and header period", S+"utils/callbacks.cpp"),("flush on destruction", I+"utils/file-io.hpp")],
observe=["bytes on the simulated stream/file"])

p("C16", "The Ipopt solver reports truthfully and survives failing models",
"""Whatever model evaluation throws or returns non-finite values during an Ipopt solve, and however the clock jumps, solve() returns or throws within its iteration limit with finite trajectories of the right shape.
When Ipopt ends regularly, the reported cost belongs to them; true is returned only for a feasible trajectory within the control bounds that is stationary to Ipopt's (scaled) tolerance, and linear-quadratic problems are solved.
Afterwards, and after any change of the problem (nodes, initial state, horizon), a solve gives exactly the result of a new solver. The interface gives the objective, gradient, constraints, Jacobian and Hessian of the transcribed problem
in whatever order, at whatever points and objective factors the optimiser asks for them, also after calls that failed.""",
["fault_sequences","histories","inputs"],
"all fault points within the Ipopt callbacks, and all reuse histories",
"The tests do not contain an Ipopt case at all.",
[SV+"ipopt.cpp", SV+"ipopt/ipopt-iface.cpp", I+"solvers/ipopt.hpp", I+"solvers/ipopt/ipopt-iface.hpp"],
[("TNLP callbacks eval_f/eval_grad_f/eval_g/eval_jac_g/eval_h", SV+"ipopt/ipopt-iface.cpp"),("finalize_solution copies the trajectories", SV+"ipopt/ipopt-iface.cpp")],
observe=["return value, xs, us, cost"])

p("C17", "A cast or copied model is complete and independent of its source",
"""Whatever parameter changes a model (state, actuation, squashing, activation, residual, cost, cost sum, constraint, constraint manager, control parametrisation, integrated, LQR, unicycle or numerically differentiated action, shooting problem)
has been through, casting it to another scalar type and back gives a model that reports the same sizes, limits, bounds, weights, statuses, time steps and options (up to the precision of the types; infinite bounds stay infinite)
and whose calc and calcDiff give the same results. The same change made to both keeps them equal; a change of one never shows in the other. A copy (cast to the same type; for LQR models also the copy constructor) reports and evaluates the same as well.
A cast that runs out of memory throws, leaves its source as it was and leaks nothing.""",
["histories","fault_sequences","inputs"],
"all histories of parameter changes before and after casts, and all failing allocations within a cast",
"The tests cast a few freshly made models and compare one evaluation; parameters changed after construction, and later changes, are never looked at.",
[I+"macros.hpp", I+"mathbase.hpp", I+"actions/lqr.hxx", I+"actions/diff-lqr.hxx", I+"actions/unicycle.hxx", I+"activations/quadratic-barrier.hpp", I+"actuation/squashing/smooth-sat.hpp", I+"costs/cost-sum.hxx", I+"constraints/constraint-manager.hxx", I+"constraints/residual.hxx", I+"integrator/euler.hxx", I+"integrator/rk.hxx", I+"numdiff/action.hxx", I+"optctrl/shooting.hxx", I+"states/euclidean.hxx"],
[("CROCODDYL_DERIVED_CAST: cloneAsFloat/cloneAsDouble", I+"macros.hpp"),("cast()", I+"costs/cost-sum.hxx"),("cast()", I+"optctrl/shooting.hxx")],
observe=["getters of the models", "data written by calc/calcDiff"])

# --- properties with no schedule, clock, fault or history: not applicable
def na(id, title, st, files, why="Finite samples of the input space only."):
    p(id, title, st, ["inputs"], "all inputs", why, files, [("formulas", files[0])])
na("N01","Analytical derivatives equal the differentials of the dynamics and costs",
"For every model, state and control, the derivatives computed by calcDiff are the derivatives of what calc computes, in the tangent space of the state manifold.",
[I+"actions/unicycle.hxx", I+"integrator/rk.hxx", I+"numdiff/action.hxx"])
na("N02","State manifolds obey the group laws and their Jacobians are consistent",
"integrate and diff are inverse to each other and Jdiff, Jintegrate and JintegrateTransport are their derivatives for every pair of states.",
[I+"states/euclidean.hxx", I+"state-base.hxx"])
na("N03","Control parametrisations and integrators have their documented order",
"Polynomial control parametrisations interpolate as documented and their multiply-by-Jacobian operators agree with the Jacobian; Runge-Kutta integrators have the documented order of accuracy.",
[I+"controls/poly-one.hxx", I+"controls/poly-two-rk.hxx", I+"integrator/rk.hxx"])
na("N04","Activations and residuals compute their documented functions",
"Each activation, residual, cone and barrier computes the documented function, gradient and Hessian for every argument.",
[I+"activations/quadratic-barrier.hxx", I+"residuals/control.hxx", I+"activations/smooth-1norm.hxx"])
na("N05","Casts of multibody models and to CppAD scalars preserve their meaning",
"A multibody model cast to another scalar type, and any model cast to a CppAD scalar, evaluates to the same values.",
[I+"mathbase.hpp", I+"actions/lqr.hxx"])
na("N06","Multibody dynamics, contacts and impulses match the rigid-body equations",
"Contact and impulse forward dynamics and their derivatives satisfy the constrained rigid-body equations for every configuration.",
["include/crocoddyl/multibody/actions/contact-fwddyn.hxx"])
na("N07","Generated code equals the interpreted model",
"An action model compiled by the code generator evaluates to the same values as its source model.",
[I+"codegen/action-base.hxx"])
na("N08","Python bindings expose the same behaviour as the C++ API",
"Every class, method and copy in the Python module behaves as its C++ counterpart.",
["bindings/python/crocoddyl/core/core.cpp"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P: f.write(json.dumps(x) + "\n")
