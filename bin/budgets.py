"""Budgets and descriptions of the checks."""
BUDGETS = {
    "C01": {"flavour": "mt", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C02": {"flavour": "mt", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 45},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C03": {"flavour": "mt", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 40},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C08": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 60000, "seconds": 40},
            "thorough": {"runs": 3000000, "seconds": 500}},
    "C04": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C05": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 45},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C06": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C07": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C09": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C10": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C11": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 30},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C12": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C13": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 35},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C14": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 25},
            "thorough": {"runs": 10000000, "seconds": 400}},
    "C15": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 25},
            "thorough": {"runs": 10000000, "seconds": 400}},
    "C16": {"flavour": "st", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 45},
            "thorough": {"runs": 10000000, "seconds": 500}},
    "C17": {"flavour": "fl", "level": "exploration",
            "quick": {"runs": 200000, "seconds": 40},
            "thorough": {"runs": 10000000, "seconds": 500}},
}
RULE = {
    "C01": "A run is one seeded history of 3-14 evaluations, derivatives, "
           "quasi-static inputs, rollouts and edits of a problem of 1-8 nodes "
           "(of the harness's own kinds or any model of C10) "
           "on 1-8 threads under one seeded scheduler (random walk, priority "
           "changes, quanta, serial), with throwing and non-finite models, "
           "failing allocations and fewer threads than asked for. Runs are "
           "counted as distinct by the operations and the hash of all thread "
           "switches.",
    "C02": "A run makes 1-3 solves of one solver twice: on one thread, and on "
           "1-8 threads under one seeded scheduler, with equal model faults "
           "per node. Runs are counted as distinct by solver, problem, "
           "outcome and the hash of all thread switches.",
    "C03": "A run lets 2-4 callers do 2-7 operations each (build, solve, "
           "evaluate, edit, compose, destroy) on problems of their own with "
           "shared models, alone and then concurrently under one seeded "
           "scheduler, with model faults inside single callers. Runs are "
           "counted as distinct by the operations and the hash of all thread "
           "switches.",
    "C08": "A run is one seeded history of 3-30 edits, evaluations, copies and "
           "constructions of a shooting problem with 1-6 nodes, with invalid "
           "arguments, failing createData and failing allocations injected. "
           "Runs are counted as distinct by the sequence of operation kinds, "
           "validity and fault kinds.",
    "C04": "A run is one solve: solver, options (also degenerate ones), "
           "problem, warm start and up to 5 model faults (in 15% of the runs "
           "failing allocations too) are drawn from the seed. Runs are counted as distinct by solver, problem shape, "
           "outcome and the sequence of steps.",
    "C05": "A run is one watched solve with up to 4 faults a solver can "
           "notice. Runs are counted as distinct by solver, problem shape, "
           "outcome and the sequence of accepted and rejected step lengths.",
    "C06": "A run is one watched solve with up to 4 model faults of any kind. "
           "Runs are counted as distinct by solver, problem shape, outcome "
           "and the sequence of accepted and rejected step lengths.",
    "C07": "A run gives a solver (or a box-QP solver) a past of 1-6 "
           "operations with model faults, foreign exceptions, throwing "
           "callbacks and refused arguments, then compares one more solve "
           "with that of a new solver on a new problem. Runs are counted as "
           "distinct by solver, problem shape, past and outcome.",
    "C09": "A run interleaves 2-8 problem edits, solves and direct uses of one "
           "or two solvers that share a problem, and compares solves with "
           "those of a new solver on a new problem. Runs are counted as "
           "distinct by the sequence of edits and the outcomes.",
    "C10": "A run takes one model (action, differential action, cost, cost "
           "sum, constraint, manager, residual, actuation, control "
           "parametrisation or activation, also behind numdiff), gives a data "
           "object a past of 1-12 evaluations, parameter changes, "
           "interruptions and non-finite inputs, and compares it with a new "
           "one. Runs are counted as distinct by model and past.",
    "C11": "A run applies 1-25 operations (add, duplicate add, refused add, "
           "remove, enable, disable, new weight or bounds, create data, "
           "evaluate, print) with failing allocations and names that alias "
           "the registry's own entries to a cost sum or a constraint manager "
           "and to a dictionary. Runs are counted as distinct by the sequence "
           "of operations and faults.",
    "C12": "A run takes two equal worlds (problem, solver, box QP, copies, "
           "models of any kind of C10) "
           "through 5-12 operations; in one of them an allocation, or all "
           "after it, fails inside an operation up to three times before the "
           "operation is repeated with memory. Runs are counted as distinct "
           "by the sequence of operations, faults and reactions.",
    "C13": "A run does the same work (construct, evaluate, roll out, quasi-"
           "static inputs, single cost and constraint, box QP, faulted solve) "
           "once in a zeroed environment and 1-4 times with other contents of "
           "fresh memory and stack, clocks, profiler settings, random seeds "
           "and observers. Runs are counted as distinct by environment and "
           "outcome.",
    "C14": "A run applies 3-60 operations on two stopwatches, their watchers "
           "and a timer, the clock being set before each one, or profiles 1-4 "
           "solves. Runs are counted as distinct by the sequence of "
           "operations and faults.",
    "C15": "A run prints 1-4 (faulted) solves through a verbose callback of "
           "changing level and precision, to a sound and to a failing stream, "
           "or writes 1-3 CSV files of up to 1500 items on disks that fill "
           "up, fail, write short, are interrupted or fail to close. Runs are "
           "counted as distinct by settings, outcomes and faults.",
    "C17": "A run takes one model of any kind (or a problem of 1-4 nodes) "
           "through 0-4 parameter changes, casts it to float and back with "
           "failing allocations, and then makes 0-6 changes to both in either "
           "order, further casts and copies, comparing parameters and "
           "evaluations after each. Runs are counted as distinct by kind and "
           "operations.",
    "C16": "Half of the runs make 1-4 Ipopt solves with model faults, clock "
           "jumps and edits of the problem between them; the others put a "
           "simulated optimiser in front of the interface that asks 3-25 "
           "times for anything in any order, with model faults, edits and new "
           "points. Runs are counted as distinct by the sequence of questions "
           "and edits, and by outcomes, iterations and faults.",
}
ASSUME = {
    "st": ["g++ 13, Eigen 3.4, double precision, core module only (no "
           "pinocchio)", "library compiled with -O1 and NDEBUG, Eigen "
           "preconditions kept as checks"],
    "mt": ["g++ 13, -O1, OpenMP constructs lowered by the compiler and run by "
           "the simulator's own runtime", "sequentially consistent memory "
           "between preemption points"],
}
COMPONENTS = {
    "st": {"real": "all of src/core and include/crocoddyl/core "
                   "(double), libipopt, libstdc++, Eigen",
           "simulated": "heap, clocks, rand, file writes, action models of "
                        "the simulation's zoo, fault wrapper, headers of "
                        "pinocchio and multibody forward declarations",
           "absent": "multibody (pinocchio), codegen (CppAD), Python"},
    "mt": {"real": "all of src/core and include/crocoddyl/core (double), libipopt",
           "simulated": "OpenMP runtime, thread scheduling, mutexes, "
                        "race detector, action models of the zoo",
           "absent": "multibody, codegen, Python, libgomp, libtsan"},
}
ASSUME["fl"] = [ASSUME["st"][0].replace("double precision", "double and float"),
                ASSUME["st"][1]]
COMPONENTS["fl"] = dict(COMPONENTS["st"], real=COMPONENTS["st"]["real"].replace(
    "(double)", "(double, and float for casts)"))
NOTE = {
    "C01": "Seeded search, no proof. Thread switches happen at any memory "
           "access of instrumented code, synchronisation and thread creation; "
           "races are found by vector clocks on every explored run. Node "
           "results are compared bitwise, the sum of costs to 1e-13.",
    "C02": "Seeded search, no proof. As for C01; iterations, results, gains "
           "and node datas are compared bitwise with the run on one thread. "
           "Code inside libipopt is not preempted.",
    "C03": "Seeded search, no proof. As for C01. A constrained model shared "
           "by running and terminal nodes is not immutable and not tried; "
           "callers use one thread each.",
    "C08": "Seeded search, no proof: holds on every history explored. Models "
           "come from the simulation's zoo; equality with a freshly built "
           "problem is bitwise.",
    "C04": "Seeded search, no proof. Termination is a bound on directions and "
           "node evaluations derived from maxiter and the regularisation "
           "range; wall clocks are not involved.",
    "C05": "Seeded search, no proof. Costs, gaps, stopping values and bounds "
           "are recomputed from scratch in long double; tolerances cover "
           "rounding only. Inputs that end in a listed finding are counted "
           "as such.",
    "C06": "Seeded search, no proof. The candidate is compared bitwise before "
           "and after every direction and trial, and with the states and "
           "controls at which the accepted trial was really evaluated.",
    "C07": "Seeded search, no proof. Return value, iterations, costs, "
           "trajectories, stopping values, regularisation and feasibilities "
           "are compared bitwise; SolverIntro with zero_upsilon only.",
    "C09": "Seeded search, no proof. Comparison as for C07; solvers reached "
           "through their public interface only.",
    "C10": "Seeded search, no proof. Outputs are compared bitwise; the state "
           "derivatives of integrators on terminal nodes are not outputs.",
    "C11": "Seeded search, no proof. Bookkeeping is compared exactly, sums to "
           "1e-12, stacks bitwise. Evaluating with the data of another set of "
           "equally many items is a documented precondition and not tried. "
           "Inputs that end in a listed finding are counted as such.",
    "C12": "Seeded search, no proof. Values are compared bitwise, leaks by "
           "counting the library's live blocks after destruction, corruption "
           "by canaries and poison. An allocation right after a free is not "
           "failed: Eigen's own resize is not exception safe. Quasi-static "
           "inputs (Eigen's JacobiSVD) are not interrupted.",
    "C13": "Seeded search, no proof. Results are compared bitwise; what a "
           "model does not declare as an output (state derivatives of "
           "integrators on terminal nodes) is left out only by giving the "
           "same data the same past.",
    "C14": "Seeded search, no proof. Times are compared to 2 ns per sample. "
           "That solves stop their timers is seen by counting clock readings "
           "in solves in which no evaluation fails.",
    "C15": "Seeded search, no proof. Columns are parsed and compared with the "
           "solver's getters to the printed digits; CSV files byte by byte. "
           "After a short write followed by a passing error the C++ library "
           "itself repeats bytes: only those before the error are checked.",
    "C17": "Seeded search, no proof. Float parameters limit the comparison: "
           "1e-5 for parameters, 1e-4 for calc, 5e-3 for derivatives. Float "
           "models are cast, not evaluated; test models written for the "
           "simulation have float twins that only carry their parameters. "
           "Sharing of one model by several nodes is not kept by a cast and "
           "not asked for.",
    "C16": "Seeded search, no proof. Interface values are compared to 1e-9 "
           "with a transcription built from a new problem. The final cost "
           "is compared to 1e-5 with control bounds (Ipopt moves the solution "
           "back into them) and 1e-9 without. After infinite or huge "
           "derivatives (from which Ipopt takes its scaling) claims of "
           "success are not judged. Ipopt itself, MUMPS and BLAS run as "
           "installed.",
}
_NA = ("depends on the inputs alone: no schedule, clock, fault or history "
       "enters, so simulated executions decide nothing that sampling inputs "
       "would not")
NOT_APPLICABLE = {
    "N01": "That derivatives match differentials " + _NA + ". What a history "
           "or fault can do to derivatives is C08, C10 and C13.",
    "N02": "The group laws of the manifolds are facts of pure functions: the "
           "claim " + _NA + ".",
    "N03": "The order of integrators and parametrisations " + _NA + ".",
    "N04": "The functions that activations and residuals compute are pure: "
           "the claim " + _NA + ".",
    "N05": "Neither pinocchio nor CppAD is installed, so these casts cannot be "
           "compiled here, let alone executed; C17 covers the casts that can.",
    "N06": "The multibody half needs pinocchio, which is not installed and not "
           "part of the build here: its code cannot be executed, only stub "
           "headers could stand in for the dynamics it is about.",
    "N07": "Code generation needs CppAD and CppADCodeGen, which are not "
           "installed: the code cannot be built or run.",
    "N08": "The bindings need boost-python/eigenpy and pinocchio, which are "
           "not installed: the module cannot be built or loaded.",
}
