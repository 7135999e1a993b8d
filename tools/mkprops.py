#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run by hand when a property changes)."""
import json, os
B = "pyswarms/backend/"
S = "pyswarms/single/"
OPTS = [S + "global_best.py", S + "local_best.py", S + "general_optimizer.py", "pyswarms/discrete/binary.py"]
BASE = ["pyswarms/base/base_single.py", "pyswarms/base/base_discrete.py"]
OPS = B + "operators.py"
H = B + "handlers.py"
GEN = B + "generators.py"
TOP = [B + "topology/" + t + ".py" for t in ("star", "ring", "von_neumann", "random", "pyramid")]
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({
        "id": id, "title": title, "statement": statement,
        "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
        "anchors": {"files": files,
                    "state": [{"name": n, "meaning": m, "where": w} for n, m, w in state],
                    "mechanism": [{"name": n, "where": w} for n, w in mech],
                    "observe_at": observe, "hook_needed": None}})


prop("C01", "A run returns the best point it evaluated, with that point's cost",
     "Every completed optimisation run returns the smallest cost that the objective produced during that run together with a position that was evaluated in that run and produced exactly that cost. Costs that are not a number never count as best, and infinite costs only when no finite one exists. This holds for every optimiser, topology, boundary and velocity strategy, stop condition, and for every repeated run of the same optimiser object.",
     ["histories", "inputs", "configurations"],
     "All sequences of run/reset on all optimisers, all objectives (ties, plateaus, NaN, infinities, noisy), swarm sizes down to one particle, all topologies and strategies.",
     "The tests compare the result with a known optimum of a smooth benchmark to a tolerance, or run once; they never record what was evaluated, never run twice, never use NaN, infinite or tied costs.",
     OPTS + [OPS] + TOP,
     [("final cost / argmin of personal bests", "optimize() of each optimiser"), ("compute_gbest", "topologies"), ("compute_pbest", OPS)],
     ["arguments and results of the objective callback", "return value of optimize()"],
     [("swarm.best_cost", "best cost of the run", B + "swarms.py"), ("swarm.pbest_cost", "best cost per particle", B + "swarms.py")])

prop("C02", "A personal best is the particle's own best evaluated point of the run",
     "After every iteration each particle's personal best is the position at which that same particle got its lowest cost so far in the run, and its recorded cost is that cost. Only a strictly lower cost replaces it: ties and costs that are not a number keep the earlier one. It never gets worse within a run and every run starts with none.",
     ["histories", "inputs"],
     "Every sequence of cost vectors (ties, NaN, infinities) for every swarm shape, in every optimiser and in user-written loops over the backend.",
     "The tests check compute_pbest on one fixed swarm; no test follows a swarm through a history of costs, ties or NaN.",
     [OPS] + OPTS, [("strict comparison and per-row mask", OPS + " compute_pbest"), ("reset of pbest_cost per run", "optimize()")],
     ["swarm.pbest_pos / swarm.pbest_cost between iterations", "mean_pbest_history"],
     [("swarm.pbest_pos", "personal best positions", B + "swarms.py")])

prop("C03", "The social attractor is the best personal best of the neighbourhood",
     "In every iteration the position that attracts a particle is the personal best with the lowest cost among that particle's neighbours: all particles in a fully connected swarm, itself and its nearest others in a ring or Von Neumann swarm, its linked particles otherwise. The swarm's best cost always equals the lowest personal best cost of the whole swarm, so it never gets worse within a run.",
     ["histories", "inputs", "configurations"],
     "Every history of positions and costs (duplicates, ties, infinite costs included), every topology, p, k and r, static or dynamic.",
     "Each topology test calls compute_gbest once on one fixed swarm and compares one number.",
     TOP + OPTS, [("compute_gbest", "each topology")],
     ["swarm.best_pos / swarm.best_cost between iterations", "compute_gbest() return value", "cost_history"],
     [("topology.neighbor_idx", "neighbours of each particle", B + "topology/base.py")])

prop("C04", "Neighbourhoods have the documented members",
     "A ring neighbourhood of size k holds the particle itself and k-1 others such that nobody left out is nearer under the chosen norm; a Von Neumann neighbourhood is a ring neighbourhood whose size is the number of integer lattice points within the given L1 range in that dimension. A random neighbourhood holds the particle itself and at least k others, is mutual, and links the whole swarm into one connected graph, for every random draw. A pyramid neighbourhood is the set of Delaunay neighbours of the particle, or everybody if there are at most dimensions+1 particles.",
     ["inputs", "schedules"],
     "All positions (duplicates and ties included), all n, d, k, p, r satisfying the documented preconditions, all random draws.",
     "The tests look at one swarm of fixed positions, one k, and only require that a neighbour index exists or compare one adjacency matrix for one seed.",
     TOP, [("cKDTree query", TOP[1]), ("delannoy", TOP[2]), ("__compute_neighbors", TOP[3]), ("Delaunay", TOP[4])],
     ["which particle's personal best compute_gbest() picks when one particle is made the unique best"],
     [("topology.neighbor_idx", "neighbours of each particle", B + "topology/base.py")])

prop("C05", "Static topologies keep their neighbours, dynamic ones follow the swarm",
     "A static topology uses the neighbourhoods of its first use in every later iteration, however the particles move and whatever they cost. A dynamic topology uses in each iteration neighbourhoods computed from the particles' positions of that iteration, or a fresh random draw for a random topology. Star and Von Neumann topologies never change their neighbourhoods.",
     ["histories", "configurations"],
     "All sequences of positions fed to one topology object, through the backend or through an optimiser, for any number of iterations.",
     "The tests call each topology object once, so they cannot see the neighbours of a second iteration.",
     TOP + [S + "local_best.py", S + "general_optimizer.py", "pyswarms/discrete/binary.py"],
     [("if static and neighbor_idx is None or not static", "compute_gbest of ring, random, pyramid")],
     ["which personal bests compute_gbest() picks on successive calls", "attractors during optimize()"],
     [("topology.static", "whether neighbours are fixed", B + "topology/base.py")])

prop("C06", "A bounded search never evaluates a point outside its bounds",
     "When bounds are given, every position handed to the objective or recorded in the history lies within the bounds in every dimension, in every iteration of every run. This holds for every optimiser with bounds, topology, boundary strategy, velocity strategy, clamp and coefficients, and however far a particle tries to leave. Explicit initial positions outside of the bounds are rejected.",
     ["inputs", "histories", "configurations"],
     "All bounds with lower < upper (per-dimension, asymmetric, lists or arrays, tiny or huge ranges), all finite velocities and coefficients, all iterations, seeds and repeated runs; swarms generated with the default centre.",
     "The tests run each strategy on one swarm with one pair of bounds for few iterations; rounding at a bound and far excursions are never produced.",
     [H, GEN, OPS] + OPTS[:3], [("BoundaryHandler strategies", H), ("compute_position applies the handler", OPS), ("generate_swarm", GEN)],
     ["arguments of the objective callback", "pos_history", "return value of the boundary handler"],
     [("BoundaryHandler.memory", "previous positions", H)])

prop("C07", "Boundary strategies repair exactly as documented",
     "Every boundary strategy returns particles that are inside the bounds unchanged and keeps the swarm's shape. For the others: nearest moves each outside coordinate to the bound it crossed, reflective mirrors it at that bound until it is inside, periodic re-enters it from the opposite bound by the excess modulo the range, intermediate puts it midway between the bound and its previous value; shrink moves the particle back along its last move to the first bound that move crossed, and random redraws the whole particle uniformly inside the bounds. The strategies that use the previous position use the position this handler returned last (the starting position on a run's first move).",
     ["inputs", "histories"],
     "All positions in and out of bounds in any mix of particles and dimensions, any distance outside, all bounds with lower < upper, and all sequences of calls on one handler.",
     "The tests mostly check that the result is inside the bounds for one or two assets; the exact landing points, mixed particles, far excursions and later calls are not checked.",
     [H, OPS], [("BoundaryHandler strategies and memory", H)],
     ["return value of a BoundaryHandler on successive calls", "positions of consecutive iterations"],
     [("BoundaryHandler.memory", "previous positions", H)])

prop("C08", "Velocities always respect the clamp",
     "With a velocity clamp, every component of every velocity the swarm has - the initial one, the one after each update and all recorded ones - lies between the clamp's limits for that dimension. This holds for scalar and per-dimension limits, every optimiser, topology and velocity strategy, on the first and all later iterations and after a reset. Components already inside the limits are not changed by the clamp.",
     ["inputs", "histories", "configurations"],
     "All clamps with lower <= 0 <= upper, scalar or per dimension, all velocity strategies, optimisers and backend calls, all iterations.",
     "The tests check one clamp on one fixed velocity matrix for one strategy.",
     [H, OPS, GEN] + OPTS, [("__apply_clamp", H), ("generate_velocity", GEN)],
     ["velocity_history", "swarm.velocity", "return value of a VelocityHandler and compute_velocity()"])

prop("C09", "Velocity strategies change exactly the velocities they document",
     "Unmodified returns the velocity as it is; invert multiplies the whole velocity of each particle that is out of bounds in any dimension exactly once by -z (0.5 unless given); zero sets the whole velocity of such a particle to zero; both leave the velocities of the other particles alone. Adjust returns the difference between the particle's current position and its position at the previous call. A clamp is applied to the resulting velocities.",
     ["inputs", "histories"],
     "All velocity and position matrices (particles outside in several dimensions and on both sides), bounds, factors, clamps, and sequences of calls on one handler.",
     "The tests use one fixed matrix per strategy and never a particle outside on both sides, a clamp with each strategy, or a second call.",
     [H, OPS], [("VelocityHandler strategies", H)],
     ["return value of a VelocityHandler on successive calls"],
     [("VelocityHandler.memory", "previous positions", H)])

prop("C10", "Particles move by the PSO equations with fresh independent draws",
     "From one iteration to the next every velocity component becomes inertia*velocity + cognitive*r1*(personal best - position) + social*r2*(attractor - position), then limited by the clamp, and an unbounded position becomes the position plus that new velocity. The numbers r1 and r2 lie in [0,1) and are drawn uniformly and independently of each other, for every particle, every dimension and every iteration. This holds in every optimiser and topology and with the coefficients in force in that iteration.",
     ["inputs", "histories", "schedules"],
     "All swarms, coefficients, attractors and random draws, in all continuous optimisers (the velocity part also in the binary one) and in the backend's update functions.",
     "The tests check shapes and that a clamp holds; no test compares an update with its equation or looks at how the draws are shared.",
     [OPS] + TOP + OPTS, [("compute_velocity, compute_position", OPS)],
     ["velocity and position of consecutive iterations", "compute_velocity() under re-seeded draws"])

prop("C11", "Histories record exactly what happened, once per iteration, unchangeably",
     "After a run every history has grown by exactly one entry per iteration performed: the positions that iteration evaluated, the velocities the swarm had then, the best cost so far, the mean of the personal best costs at that moment and the best cost over all neighbourhoods. Earlier entries are never altered by later iterations or runs, and successive runs append. The last best-cost entry equals the returned cost and the entries of one run never increase.",
     ["histories", "configurations"],
     "All run/reset sequences, early-stopped runs included, on all optimisers and strategies that modify positions in place.",
     "The tests check the shapes of the histories after one run of fixed length.",
     BASE + OPTS, [("_populate_history", "base classes"), ("ToHistory", "base classes")],
     ["the five public history attributes, compared with the objective's arguments and results"],
     [("cost_history, mean_pbest_history, mean_neighbor_history, pos_history, velocity_history", "histories", BASE[0])])

prop("C12", "Early stopping happens exactly when the tolerance condition holds",
     "A run stops before its iteration limit exactly at the end of the first iteration that completes ftol_iter consecutive iterations in each of which the best cost changed, against the previous iteration, by less than ftol*(1+|previous best cost|); the first iteration of a run has no predecessor and never counts. Otherwise it performs exactly the requested number of iterations. A stopped run returns the best point found so far, and the condition starts afresh in each run.",
     ["histories", "inputs", "configurations"],
     "All cost sequences (plateaus, single improvements, infinities), tolerances, windows from 1 to beyond the iteration limit, optimisers, and repeated runs.",
     "The tests use one tolerance per optimiser and only check that the run was shorter than the limit.",
     OPTS + BASE, [("delta window", "optimize()")],
     ["number of objective evaluations and history length", "cost_history"])

prop("C13", "Each iteration evaluates every particle once, also in parallel",
     "In each iteration the objective is evaluated exactly once on every particle of the current swarm, in particle order, with exactly the keyword arguments the caller passed to the run; nothing else is ever evaluated. Distributing the evaluations over any number of worker processes, more workers than particles included, gives the same costs in the same order, the same histories and the same result as the serial run with the same seed. Worker processes are gone when the run is over.",
     ["schedules", "configurations", "inputs"],
     "All interleavings of workers, all numbers of particles and processes, all keyword arguments, all optimisers.",
     "The tests run one parallel optimisation and never compare it with the serial one; the interleaving of workers is not controlled.",
     [OPS] + OPTS, [("compute_objective_function: split, map, concatenate", OPS), ("Pool set-up and close", "optimize()")],
     ["calls of the objective in the parent and in the workers", "histories and result of serial and parallel runs"])

prop("C14", "Reset gives a fresh start and repeated runs continue",
     "Resetting an optimiser empties all histories, forgets all bests and generates a new swarm by the constructor's rules - explicit initial positions are restored exactly - without changing its configuration, so with the same random state its next run equals the first run of a newly built optimiser (static neighbourhoods excepted). Running again without a reset starts from the positions and velocities the previous run ended with, uses the starting coefficients again, and its bests are those of the new run only.",
     ["histories"],
     "All sequences of runs (of any length, stopped early, with different objectives) and resets on all optimisers.",
     "The tests check that reset restores two attributes of an optimiser that ran once; no test runs an optimiser twice.",
     BASE + OPTS + [GEN], [("reset()", "base classes"), ("per-run initialisation", "optimize()")],
     ["first evaluated positions, histories and results of later runs"])

prop("C15", "Coefficient schedules follow their formula and nothing else changes",
     "When a coefficient has a schedule, the value in force after iteration i of n is the documented function of its starting value, its end value, i and n: linear, power-law and exponential-decay schedules by their formulas, the random schedule somewhere between start and end. Values never compound over iterations or runs, and coefficients without a schedule keep their starting value exactly. The dictionary the caller passed is never modified.",
     ["inputs", "histories", "configurations"],
     "All start and end values, iteration numbers and limits, mixes of schedules over the coefficients, optimisers, early stops and repeated runs.",
     "The tests check each schedule for one set of options at few iterations, directly on the handler, never inside an optimiser.",
     [H] + OPTS[:3], [("OptionsHandler", H), ("schedule applied to the starting options", "optimize()")],
     ["return value of the OptionsHandler", "swarm.options and the velocity updates during a run"])

prop("C16", "Binary swarms stay binary and flip bits by the sigmoid law",
     "Every position a binary optimiser evaluates, records or returns consists of zeros and ones only and has the swarm's shape. Each bit of the next position is one with the probability given by the logistic function of that particle's new velocity in that dimension, drawn independently for every particle, dimension and iteration. Everything else - personal bests, neighbourhood bests, velocity update, clamp - is as in the continuous optimisers.",
     ["inputs", "histories", "schedules"],
     "All objectives, coefficients, clamps, sizes, random draws and repeated runs.",
     "The tests check shapes and history lengths of one run; the distribution of the bits is not looked at.",
     ["pyswarms/discrete/binary.py", GEN, "pyswarms/base/base_discrete.py"],
     [("_compute_position, _sigmoid", "pyswarms/discrete/binary.py"), ("generate_discrete_swarm", GEN)],
     ["arguments of the objective", "pos_history and velocity_history of a run"])

prop("C17", "Hyper-parameter search tries every candidate and returns the best",
     "A grid search tries exactly the Cartesian product of the listed option values (single values held constant), each combination once; a random search tries exactly the requested number of combinations, each value inside its range, the neighbour count an integer and the norm constant. Each candidate is scored by one run of a newly built optimiser with the given particles, dimensions, bounds, clamp, objective and iterations. The result is the lowest score (the highest on request) together with the very options that produced it.",
     ["inputs", "configurations", "histories"],
     "All option dictionaries (lists of any length, tuples, scalars), all score tables (ties, negative scores), all seeds, repeated searches on one object.",
     "The tests compare one grid with a stored list and check the types of the result of one search.",
     ["pyswarms/utils/search/base_search.py", "pyswarms/utils/search/grid_search.py", "pyswarms/utils/search/random_search.py"],
     [("generate_grid", "grid_search.py, random_search.py"), ("search, generate_score", "base_search.py")],
     ["constructor arguments and runs seen by a recording optimiser class", "return value and attributes of search()"])

prop("C18", "Generated swarms have the requested shape and ranges",
     "A generated swarm has one row per particle and one column per dimension; positions lie within the bounds (or between zero and one, scaled by the centre, without bounds), velocities within the clamp (or between zero and one), discrete rows are permutations and binary entries zeros and ones, and an explicit initial position is used exactly. Bounds or initial positions that do not fit the requested shape, lie outside of the bounds or are not binary are rejected with an error. The draws of different particles and dimensions are independent and cover the range.",
     ["inputs", "schedules"],
     "All sizes, bounds, centres, clamps, initial positions and random draws.",
     "The tests check a handful of sizes and one out-of-bounds example.",
     [GEN, B + "swarms.py"] + BASE, [("generate_swarm, generate_discrete_swarm, generate_velocity, create_swarm", GEN)],
     ["return values and errors of the generators and of the optimisers' constructors"])

prop("C19", "Optimisers are isolated from each other and from their inputs",
     "Building, running or resetting one optimiser, swarm or handler never changes the state or results of another one, even when they were given the same options, bounds, clamp or initial positions or run alternately. The caller's options, bounds, clamp and initial positions are never modified. Changing a returned position afterwards does not change the optimiser or its histories.",
     ["histories", "configurations"],
     "All interleavings of operations on several optimisers, swarms and handlers sharing inputs.",
     "The tests use one object at a time and never compare the inputs before and after.",
     OPTS + BASE + [GEN, B + "swarms.py", H, OPS], [("copies of results", "optimize()"), ("Swarm defaults", B + "swarms.py")],
     ["results of interleaved runs compared with isolated runs with the same random state", "inputs before and after"])

prop("C20", "Reporting never influences the search",
     "With the same random state a run gives the same evaluations, histories and result whether it is verbose or silent, and a silent run writes nothing to the console. A verbose run reports its parameters and its final best cost, and shows for each iteration the best cost found so far. Every iteration is performed exactly once in either mode.",
     ["configurations", "inputs"],
     "All optimisers, iteration counts, early stops and both verbosity settings.",
     "The tests never compare a verbose with a silent run and only mock the logger.",
     OPTS + ["pyswarms/utils/reporter/reporter.py"], [("verbose branches", "optimize()"), ("pbar, hook, log, print", "reporter.py")],
     ["console output, log records, histories and results"])

prop("C21", "The cost decorator turns a point cost into a swarm cost",
     "A decorated cost function evaluates the original once per particle, in order, on that particle's coordinates with the caller's keyword arguments, and returns one cost per particle equal to what the original returned. If the original does not return a single number per particle the call is rejected with an error. The decorated function keeps the original's name and documentation and gives the same optimisation as the equivalent vectorised objective.",
     ["inputs", "configurations"],
     "All swarm sizes (one particle included), dimensions, return types and keyword arguments.",
     "The tests use two fixed functions on fixed swarms.",
     ["pyswarms/utils/decorators/decorators.py"], [("cost", "decorators.py")],
     ["calls of the original function and results of the decorated one"])

prop("C22", "Plots and 3D histories show the recorded swarm",
     "An animation of a recorded history has exactly one frame per iteration and frame i shows exactly the particles' positions of iteration i on axes that belong to the figure and have the configured limits, labels and title, with the given point marked. A prepared 3D history keeps every position and appends the objective's value at that position. The drawn mesh covers the configured limits at the configured step with the objective's value at every mesh point, and any number of worker processes gives the same numbers as none. A cost plot shows exactly the recorded costs over the iterations 0, 1, ....",
     ["inputs", "schedules", "configurations"],
     "All histories (lists or arrays, any number of iterations and particles), limits, steps, objectives and numbers of processes.",
     "The tests only check the type of the returned objects.",
     ["pyswarms/utils/plotters/plotters.py", "pyswarms/utils/plotters/formatters.py"],
     [("_animate, _mesh", "plotters.py"), ("compute_history_3d", "formatters.py")],
     ["the artists drawn for each frame, the arrays handed to the contour/surface drawing, the returned 3D history"])

prop("C23", "Benchmark functions are exact, row-wise and guard their domain",
     "Every benchmark function returns one value per row that depends on that row alone, raises on any point outside of its documented domain and, if it is two-dimensional, on any other number of dimensions, and accepts every point inside its domain, the boundary included. It takes its documented minimum at its documented minimiser and is nowhere lower. The polynomial ones equal their formula at every point, and functions that do not distinguish symmetric points give them the same value.",
     ["inputs"],
     "All points and batches of points inside and outside of the domain, all numbers of rows and dimensions.",
     "The tests evaluate each function at its minimiser and at one or two points outside of the domain.",
     ["pyswarms/utils/functions/single_obj.py"], [("domain checks and formulas", "single_obj.py")],
     ["return values and errors"])

prop("C24", "A seeded run is reproducible",
     "With the same configuration, the same objective and the same state of the random number generator, building and running an optimiser gives bit-for-bit the same evaluated positions, histories, and result, however often it is repeated in one process or in another one, and with different random states it gives different swarms. No random numbers come from anywhere else than the seeded global generator.",
     ["schedules", "histories", "configurations"],
     "All optimisers, topologies, strategies, seeds and histories of earlier work in the process.",
     "The tests seed once per module and never repeat a run.",
     OPTS + [OPS, GEN, H] + TOP, [("numpy's global generator as only source", "whole package")],
     ["evaluated positions and results of repeated runs in the same and in fresh processes"])

prop("C25", "A failing objective fails the run and leaves the optimiser usable",
     "If the objective raises in some iteration, the exception reaches the caller unchanged, no iteration after the failing one is performed and the histories hold exactly the completed iterations. The optimiser stays usable: after a reset, or on a later run, it behaves as specified for a reset or repeated run. Parallel evaluation reports the exception as well and leaves no worker processes behind.",
     ["fault_sequences", "crash_points", "histories"],
     "A failure at any iteration, particle or worker, any exception type, any later sequence of runs and resets, all optimisers.",
     "No test uses an objective that fails.",
     OPTS + [OPS], [("no exception is caught around the evaluation", "optimize()"), ("history appended after the evaluation", "optimize()")],
     ["exception seen by the caller, histories and later runs"])

prop("C26", "Invalid configurations are rejected",
     "A convergence window that is not a positive integer, a topology of the wrong type, missing coefficients, a ring or random neighbourhood of no or of more particles than there are, an unknown strategy name, an object that is no swarm passed to operators and topologies, an object without the optimiser interface in a search and a non-integer number of search iterations are all rejected with an error at the latest when first used, and never silently replaced by a default. Valid configurations, including the extreme ones (one particle, one dimension, one neighbour, all neighbours), are accepted and run to completion.",
     ["configurations", "inputs"],
     "All combinations of constructor arguments over all public classes.",
     "The tests try a few wrong values for some arguments and no combination of extreme valid ones.",
     OPTS + BASE + [H, "pyswarms/utils/search/base_search.py", "pyswarms/utils/search/random_search.py"],
     [("assertions and type checks", "constructors"), ("strategy look-up", H)],
     ["errors raised by constructors and first use"])

prop("C27", "Equivalent configurations run the same search",
     "Configurations that mean the same run the same search: from the same random state they evaluate the same positions in the same order and record the same histories and result, bit for bit. The same are: GlobalBestPSO and GeneralOptimizerPSO with Star; LocalBestPSO and GeneralOptimizerPSO with Ring; a ring of all particles, a pyramid of at most dimensions+1 particles and a star if no two points cost the same; a Von Neumann swarm and a static ring of its lattice size; an objective and a strictly increasing image of it (positions only, without tolerance); a bounded and clamped problem and the same problem in units of another power of two; inputs as lists, integer or float arrays, scalar or per-dimension clamps; defaults left out or spelled out; and an optimiser and a loop written with the backend's operators.",
     ["configurations", "inputs", "histories"],
     "All pairs of equivalent configurations over all optimisers, topologies, strategies and inputs they apply to, over runs, repeated runs and resets.",
     "No test compares two optimisers or two ways to write the same problem; each is only tested against a tolerance of a known optimum.",
     OPTS + BASE + [OPS, GEN, H] + TOP, [("the optimisation loops", "optimize()"), ("compute_gbest", "topologies"), ("create_swarm", GEN)],
     ["evaluated positions, histories and results of two configurations under the same seed"])

prop("C28", "Backend operators leave the swarm and earlier arrays unchanged",
     "compute_pbest, compute_velocity, compute_position, compute_objective_function and compute_gbest compute from the swarm and return new values: neither they nor a later call changes the swarm, its options, the bounds, the clamp, the initial positions, an array handed to the objective or an array returned earlier. A step of a user-written loop thus replaces only what the user stores, swarms that share arrays stay independent, and kept arrays stay what they were. A Swarm has the size of its position matrix, documented defaults and options of its own, and refuses attributes of a wrong type.",
     ["histories", "inputs"],
     "Every order of backend operations on one or more swarms, all topologies, boundary and velocity strategies, with shared arrays.",
     "The tests call each operator once and look at what it returns, never at what it did to its arguments.",
     [OPS, B + "swarms.py", GEN] + TOP, [("operators return new arrays", OPS), ("attrs validators and defaults", B + "swarms.py")],
     ["contents of every array reachable from the swarm and of every array returned earlier, after each call"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
