"""Per property settings of the checks."""
REAL = ["Mesh", "LevelSet", "Boundary", "FastMarchingMethod", "Heap", "Hole", "InputOutput", "MersenneTwister", "Sensitivity", "Optimise"]
STUB = ["disk and file system calls (simulated in memory)", "heap allocator", "wall clock", "OS entropy (std::random_device)",
        "process lifetime and exit", "the NLopt solver (a small exact solver with injected failures behind NLopt's interface)", "thread scheduler (one runnable thread, switched by the simulator)"]
ASSUMPTIONS = [
    "gcc 13 -O2 with libstdc++; the compiler and the C library are trusted",
    "storage faults are injected at the system call boundary; the kernel below it is simulated",
]
PROPS = {
    "C01": {
        "technique": "seeded storage faults under every kind of save, files compared with a reference reader",
        "note": "sampled states, options and fault positions; kernel and disk below the system call are simulated",
        "level": "exploration", "quick": 40000, "thorough": 1200000,
        "rule": "a seed draws a mesh, shape, history, one to four saves and a storage fault placed in the last one; non-trivial when a completed or refused save was judged",
        "must_fire": ["write_enospc", "write_eio", "short_write", "open_failure", "close_failure", "disk_capacity", "write_eintr", "alloc_failure"],
        "probes": {0: "healthy save verified", 1: "save survived a fault", 2: "save starved of memory", 3: "save reported a fault"},
    },
    "C02": {
        "technique": "seeded torn, corrupted and unreadable files under every kind of load, result compared with the saved state",
        "note": "sampled states, damage and fault positions",
        "level": "exploration", "quick": 40000, "thorough": 1200000,
        "rule": "a seed draws a saved state, damage to the file or a fault during the load; non-trivial when the load was judged against the file's contents",
        "must_fire": ["read_eio", "short_read", "open_failure", "process_crash", "torn_file", "corrupt_file"],
        "probes": {1: "load restored the state", 2: "load starved of memory", 3: "load was refused"},
    },
    "C03": {
        "technique": "seeded crashes (between any two basic blocks, before and inside storage calls) with restart from the surviving files, compared bit for bit with an uninterrupted run",
        "note": "sampled histories and crash points; after a crash only what reached the simulated disk survives",
        "level": "exploration", "quick": 6400, "thorough": 200000,
        "rule": "a seed draws a simulation with numbered checkpoints, one to four crash points and the environment of every restarted process; non-trivial when a crash struck",
        "must_fire": ["process_crash", "restart"],
        "probes": {2: "restarted simulation compared", 3: "crash and restart", 4: "newest checkpoint torn", 5: "torn checkpoint refused"},
    },
    "C04": {
        "technique": "every seed run three times under different simulated entropy, clock, heap and stack garbage, heap layout and generator history, compared bit for bit",
        "note": "sampled histories and environments",
        "level": "exploration", "quick": 6400, "thorough": 200000,
        "rule": "a seed draws a history and three environments; non-trivial when the history ran to its end",
        "must_fire": ["heap_garbage", "stack_garbage", "reseed"],
        "probes": {1: "three environments compared", 2: "history with noise"},
    },
    "C05": {
        "technique": "seeded preemptive interleaving of two or three simulations at basic block granularity, with allocation faults, compared with each simulation alone",
        "note": "sampled interleavings; context switches happen between basic blocks of library code",
        "level": "exploration", "quick": 4000, "thorough": 150000, "builds": {"O2": 0.6, "O0": 0.4},
        "rule": "a seed draws two or three histories, the scheduler's choices and allocation faults; non-trivial when at least two context switches happened",
        "must_fire": ["context_switch", "alloc_failure"],
        "probes": {1: "interleaved runs compared", 2: "interleaved with allocation faults"},
    },
    "C06": {
        "technique": "seeded histories run with and without observers (some of them starved of memory) at arbitrary points, compared bit for bit",
        "note": "sampled histories and observation points",
        "level": "exploration", "quick": 8000, "thorough": 250000,
        "rule": "a seed draws a history and the observers inserted in it; non-trivial when at least one observation completed",
        "must_fire": ["alloc_failure"],
        "probes": {1: "observed and unobserved compared", 2: "observations completed", 3: "an observer ran out of memory"},
    },
    "C07": {
        "technique": "seeded allocation faults in every operation, with retry, compared bit for bit with the fault-free run; leak, corruption and mixture oracles",
        "note": "sampled histories and failing allocations (single, repeated and runs of failures)",
        "level": "exploration", "quick": 8000, "thorough": 250000,
        "rule": "a seed draws a history and the allocations that fail in it; non-trivial when at least one allocation failed",
        "must_fire": ["alloc_failure"],
        "probes": {1: "failed operations judged", 2: "state as before the operation", 3: "state as after a completed stage", 4: "compared with the fault free run"},
    },
    "C08": {
        "technique": "seeded noisy simulations; every deviate normalised by the law's variance and the sample tested for mean, variance, shape and independence",
        "note": "sampled temperatures, steps, boundaries and seeds; statistical tests at about seven standard deviations",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a history and a block of noisy velocity computations with changing temperature, step and seed; non-trivial when at least 60 deviates were judged",
        "must_fire": ["thermal_noise", "alloc_failure"],
        "probes": {1: "noise judged", 2: "time step left alone", 3: "time step reduced", 4: "zero temperature", 5: "same noise on two velocity fields", 6: "sample of more than a thousand deviates", 8: "no time step"},
    },
    "C09": {
        "technique": "seeded histories with allocation faults and restarts; band, mines, update and reinitialisation judged after every operation against their definitions",
        "note": "sampled histories",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a mesh, shape, masks, band width and history; non-trivial when a band or an update was judged",
        "must_fire": ["alloc_failure", "thermal_noise"],
        "probes": {1: "band judged", 2: "update that reinitialised", 3: "update judged"},
    },
    "C10": {
        "technique": "seeded histories with masks at any time, noise and allocation faults; mask membership, frozen nodes and movement limits judged after every operation",
        "note": "sampled histories and masks",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a mesh, shape, masks and history; non-trivial when masked or fixed nodes were judged",
        "must_fire": ["alloc_failure", "thermal_noise"],
        "probes": {1: "boundary point limits judged", 2: "masks judged", 3: "state judged"},
    },
    "C11": {
        "technique": "seeded histories with noise and allocation faults; every reinitialisation compared with an independent marching implementation, with sampled tie orders",
        "note": "sampled histories; where symmetric shapes leave the order of nodes open, any order's result is accepted",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a mesh, shape, masks and history; non-trivial when a reinitialisation was judged",
        "must_fire": ["alloc_failure", "thermal_noise"],
        "probes": {1: "reinitialisation judged", 2: "marching object used again", 3: "velocity march with a used object"},
    },
    "C12": {
        "technique": "seeded histories with noise, masks and allocation faults; every discretisation compared with the zero contour constructed independently",
        "note": "sampled histories",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a mesh, shape, masks and history; non-trivial when a discretisation was judged",
        "must_fire": ["alloc_failure", "thermal_noise"],
        "probes": {1: "discretisation judged", 2: "target discretisation judged", 3: "normals judged", 4: "perimeters judged", 5: "merged points"},
    },
    "C13": {
        "technique": "seeded histories with noise, masks and allocation faults; element areas compared with an independently cut polygon",
        "note": "sampled histories",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a mesh, shape, masks and history; non-trivial when area fractions were judged",
        "must_fire": ["alloc_failure", "thermal_noise"],
        "probes": {1: "areas judged", 2: "target areas judged", 3: "saddle elements"},
    },
    "C14": {
        "technique": "seeded optimisations with scripted solver failures and allocation faults; results compared with the optimum found by enumerating the vertices of the linear programme",
        "note": "sampled boundaries, sensitivities, constraints and solver outcomes; NLopt is replaced by a small exact solver",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a history, optimisation problems and the solver's failures; non-trivial when an optimisation was judged",
        "must_fire": ["solver_roundoff", "solver_invalid_argument", "solver_early_stop", "alloc_failure"],
        "probes": {1: "optimisation judged", 2: "optimum with rescaling", 3: "optimum without rescaling", 4: "optimiser out of memory", 5: "inactive constraint", 6: "infeasible constraints", 7: "function given to the solver judged", 9: "zero time step"},
    },
    "C15": {
        "technique": "seeded histories with noise, masks and allocation faults; extended velocities and gradients compared with independent implementations",
        "note": "sampled histories; where symmetric shapes leave the order of nodes open, any order's result is accepted",
        "level": "exploration", "quick": 40000, "thorough": 600000,
        "rule": "a seed draws a mesh, shape, masks and history; non-trivial when a velocity field was judged",
        "must_fire": ["alloc_failure", "thermal_noise"],
        "probes": {1: "velocities judged", 2: "gradients judged", 3: "uniform velocity", 4: "corner of the domain"},
    },
    "C16": {
        "technique": "seeded sensitivity computations with callbacks that throw at any call and allocation faults; values, arguments and the state left behind judged",
        "note": "sampled histories, functions and failing calls",
        "level": "exploration", "quick": 20000, "thorough": 500000,
        "rule": "a seed draws a history, functions, displacements and failing calls; non-trivial when a sensitivity was judged",
        "must_fire": ["callback_exception", "alloc_failure"],
        "probes": {1: "sensitivities judged", 2: "function threw", 3: "zero temperature", 4: "noise corrections judged"},
    },
    "C17": {
        "technique": "long seeded histories with faults under instrumented library code: red zones, poisoned frees, bounds and arithmetic traps, step limits",
        "note": "sampled histories",
        "level": "exploration", "quick": 10000, "thorough": 300000,
        "rule": "a seed draws a mesh, shape, long history and faults; non-trivial when the history ran to its end",
        "must_fire": ["alloc_failure", "solver_roundoff", "callback_exception", "heap_garbage", "stack_garbage"],
        "probes": {1: "history completed with finite results"},
    },
    "C18": {
        "technique": "seeded histories with storage, solver, callback and allocation faults; the whole grid compared with its definition after every operation, look-ups at any time",
        "note": "sampled sizes, histories and coordinates",
        "level": "exploration", "quick": 28000, "thorough": 500000,
        "rule": "a seed draws a mesh, shape, history, coordinates looked up between its operations and faults; non-trivial when the grid was judged after a boundary was built on it",
        "must_fire": ["alloc_failure"],
        "probes": {1: "grid judged", 2: "coordinates looked up"},
    },
    "C19": {
        "technique": "seeded constructions, first in the process or after (and beside) earlier simulations, with allocation failures and varied memory contents; every node compared with the distance to the shape, band and target judged",
        "note": "sampled sizes, shapes, histories and allocation failures",
        "level": "exploration", "quick": 50000, "thorough": 500000,
        "rule": "a seed draws up to three (thorough: five) level sets constructed one after another with histories in between, allocation failures and refused arguments; non-trivial when a new level set was judged",
        "must_fire": ["alloc_failure", "heap_garbage"],
        "probes": {1: "first construction judged", 2: "later construction judged", 3: "target judged", 10: "Swiss cheese", 11: "holes", 12: "polygon", 13: "holes with a target of holes", 14: "holes with a polygon as target", 15: "polygon with a polygon as target", 40: "arguments refused"},
    },
    "C21": {
        "technique": "seeded simulations with prescribed motions, noise-free, under allocation faults, crashes through files and re-used objects; the front compared with the exact solution of the motion at every step",
        "note": "discs and rectangles under uniform normal speed, translation and rotation, movement limit at most 0.5; tolerances calibrated on the unchanged tree (largest observed about two thirds of what is allowed)",
        "level": "exploration", "quick": 12000, "thorough": 300000,
        "rule": "a seed draws a mesh, a shape, a motion with its time steps, reinitialisations, restarts from file and allocation failures; non-trivial when a front was judged after a step",
        "must_fire": ["alloc_failure"],
        "probes": {1: "fronts judged", 2: "areas judged"},
    },
    "C22": {
        "technique": "seeded optimisation runs (the loops of the demonstrations) with scripted solver failures, allocation faults and restarts from file; progress per step and arrival within a bounded number of steps once faults stop",
        "note": "three kinds of goal; NLopt is replaced by a small exact solver with injected failures; tolerances calibrated on the unchanged tree",
        "level": "exploration", "quick": 6400, "thorough": 150000,
        "rule": "a seed draws a mesh, a start, a goal, the solver's failures, restarts and allocation failures; non-trivial when more than three steps were taken",
        "must_fire": ["alloc_failure", "solver_roundoff", "solver_early_stop"],
        "probes": {1: "steps towards an area", 2: "steps towards a perimeter under a constraint", 3: "steps towards a shape", 4: "solver found no step"},
    },
    "C23": {
        "technique": "seeded sequences of draws of every kind from generators seeded by the simulated OS or explicitly, interleaved and reseeded; distribution and independence tests over the whole sample of runs",
        "note": "statistical: limits at about seven standard deviations over the up to 10000 deviates of a run; smaller biases are not seen",
        "level": "exploration", "quick": 100000, "thorough": 2000000,
        "rule": "a seed draws generators, their seeds, and the order of draws, reseedings and entropy; non-trivial when more than 20 deviates were drawn",
        "must_fire": ["entropy_value"],
        "probes": {1: "seeded by the OS", 2: "explicit seed", 10: "uniform", 11: "normal", 12: "integer", 13: "scaled normal"},
    },
}

NA = {
    "C20": "the bindings need pybind11 and a Python build that are not present in the sandbox, and add no concurrency or faults of their own",
}
