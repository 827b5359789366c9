"""Writes properties.jsonl (kept as code so that the long texts stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "observe_at": observe, "hook_needed": None}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

prop("C01", "Saved files are complete and faithful, or the failure is reported",
 "When a save of the level set, the boundary or the area fractions finishes normally, the file with the documented name holds exactly the requested fields of every node, point, segment or element, in the documented order and format and with the documented precision. When storage fails so that the file is incomplete or could not be written, the save reports an error and ends the program with a failing status instead of returning. A save never changes the simulation state or any other file.",
 ["fault_sequences", "inputs", "configurations"], "every file kind and option, every state reachable in a simulation (and extreme values), every failing, short or interrupted storage call and every disk capacity",
 "There are no tests of file output at all; the quantifier over storage faults and states cannot be sampled by examples on a healthy disk.",
 ["src/InputOutput.cpp"], [("save functions", "src/InputOutput.cpp saveLevelSet*/saveBoundary*/saveAreaFractions*"), ("error macro", "src/Debug.h")], ["files on the (simulated) disk", "exit status", "stderr"])
prop("C02", "Loading a saved level set restores it exactly or reports an error",
 "Loading a file that was saved from a level set of the same size restores every node's signed distance: bit for bit from the binary format, and to the documented text precision from the text format, with or without coordinates. When the file is missing, truncated, torn, malformed or too long, or a read fails, the load reports an error and ends the program with a failing status; it never returns normally with a partly or wrongly restored signed distance.",
 ["fault_sequences", "inputs", "crash_points"], "every saved state, every truncation/tear/corruption of the file and every read fault",
 "There are no tests of loading; torn files and read errors never happen in a unit test.",
 ["src/InputOutput.cpp"], [("load functions", "src/InputOutput.cpp loadLevelSetBIN/loadLevelSetTXT")], ["signed distance after the load", "exit status"])
prop("C03", "A simulation restarted from a checkpoint continues identically after a crash",
 "A simulation that writes binary checkpoints to numbered files can be killed at any instant: the newest complete checkpoint is always found and loads, and a torn newer one is refused rather than used. Once the same masks and the checkpoint are loaded into a fresh object of the same construction and it is reinitialised, the restarted simulation reaches bit for bit the states (signed distance, boundary, areas, velocities) of an uninterrupted simulation that reinitialised at the same point, so no hidden state influences the evolution.",
 ["crash_points", "histories", "fault_sequences"], "every crash instant (any executed basic block or storage call, including in the middle of a write), any number of crashes, every history of operations between checkpoints",
 "No test kills the process or restarts from a file; the set of crash points and histories is unbounded.",
 ["src/LevelSet.cpp", "src/InputOutput.cpp", "src/FastMarchingMethod.cpp", "src/Boundary.cpp"], [("binary format", "src/InputOutput.cpp saveLevelSetBIN"), ("narrow band rebuilt from the signed distance", "src/LevelSet.cpp reinitialise, initialiseNarrowBand")], ["state digests after every operation"],
 [("signed distance and mask flags", "the whole persistent state of a simulation", "src/LevelSet.h, src/Mesh.h")])
prop("C04", "A seeded simulation is exactly reproducible",
 "Two simulations given the same configuration, the same operations and the same random seed produce bit for bit the same results, whatever the operating system's entropy, the clock, the contents of freshly allocated or stack memory, and the numbers drawn from the generator before it was seeded. Without an explicit seed the generator is seeded from operating system entropy, different entropy gives different streams, and the seed it reports reproduces the stream.",
 ["inputs", "histories", "configurations"], "every configuration and operation history, every entropy value and clock, every garbage content of memory, every number and kind of draws before reseeding",
 "Tests run each case once in one environment; they cannot see dependence on entropy, clock, uninitialised memory or leftover generator state.",
 ["src/MersenneTwister.h", "src/LevelSet.cpp", "src/Boundary.cpp", "src/FastMarchingMethod.cpp"], [("seeding", "src/MersenneTwister.h setSeed/getSeed"), ("initialised members", "constructors in src/*.cpp")], ["state digests", "random draws"])
prop("C05", "Independent simulations do not influence each other",
 "Any number of simulations that share no object may run in one process, on different threads and interleaved at any instant, and each produces bit for bit the results it produces alone. This holds for level set evolution, boundary discretisation, noise, sensitivities, optimisation and file input/output to different files, whether or not another simulation fails or runs out of memory.",
 ["schedules", "histories", "fault_sequences"], "every interleaving at basic block granularity of two or three simulations, every history of each, allocation failures in any of them",
 "All tests are single threaded and run one simulation at a time.",
 ["src/LevelSet.cpp", "src/Boundary.cpp", "src/FastMarchingMethod.cpp", "src/Heap.cpp", "src/Optimise.cpp", "src/InputOutput.cpp", "src/MersenneTwister.h"], [("no mutable statics; state lives in objects", "src/*.h")], ["per-simulation state digests against a solo run"])
prop("C06", "Observation does not disturb a simulation",
 "Discretising the boundary, computing area fractions, lengths, perimeters, normal vectors, sensitivities or noise-free velocities, and saving any file, do not change how the simulation evolves afterwards: a simulation observed at arbitrary points reaches bit for bit the states of one that was not. The same holds for a simulation that goes on with copies of its objects. Repeating an observation without an intervening change returns bit for bit the same answer, also when the first attempt failed for lack of memory.",
 ["histories", "fault_sequences"], "every placement and combination of observers in every history, with allocation failures inside observers",
 "Tests never compare an observed run with an unobserved one.",
 ["src/Boundary.cpp", "src/LevelSet.cpp", "src/InputOutput.cpp", "src/Sensitivity.cpp"], [("discretisation, area fractions", "src/Boundary.cpp, src/LevelSet.cpp computeAreaFractions"), ("perturbed point restored", "src/Sensitivity.cpp computeSensitivity")], ["state digests with and without observers"])
prop("C07", "Running out of memory is reported and recoverable",
 "When an allocation fails inside any operation, the operation reports it with an exception (file operations may instead stop the program with an error message); no memory is leaked or corrupted and every object can be used and destroyed afterwards. The signed distance is then what it was before the operation, or what a completed stage of it produced (updated or masked but not yet reinitialised), or what the complete operation would have produced, never partly one and partly the other. Once memory is available, repeating the operation (or, for an update that already moved the signed distance, reinitialising) gives bit for bit the result of an operation that never failed, with the arguments as the caller passed them.",
 ["fault_sequences", "histories"], "every allocation of every operation in every history, single or repeated failures",
 "Tests never fail an allocation.",
 ["src/FastMarchingMethod.cpp", "src/Heap.cpp", "src/LevelSet.cpp", "src/Boundary.cpp", "src/Optimise.cpp", "src/Sensitivity.cpp"], [("ownership of the heap", "src/FastMarchingMethod.cpp march/solve"), ("order of allocation and modification", "src/LevelSet.cpp, src/FastMarchingMethod.cpp")], ["exceptions", "live allocation balance", "state digests"])
prop("C08", "Thermal noise follows the fluctuation-dissipation law",
 "At temperature T each boundary point's velocity receives an independent Gaussian contribution with mean zero and variance 2T/(time step * length associated with the point); the draws are unrelated between points, calls and distinct seeds. The time step is left alone while one standard deviation of displacement sqrt(2T dt) is at most half the move limit; otherwise it is divided by the returned factor so that it equals that bound, and the noise is drawn for the reduced step. The deterministic part of the velocity is untouched, and a zero temperature adds nothing; without a time step (zero) the velocities stay finite.",
 ["histories", "inputs", "configurations"], "all temperatures, time steps, move limits, boundaries and seeds, for every history and number of earlier draws",
 "No test calls the noisy velocity computation; a distribution cannot be judged from one sample.",
 ["src/LevelSet.cpp", "src/MersenneTwister.h"], [("noise and time step scaling", "src/LevelSet.cpp computeVelocities(boundaryPoints, timeStep, temperature, rng)"), ("normal deviates", "src/MersenneTwister.h normal")], ["point velocities and time step before/after"])
prop("C09", "Narrow band bookkeeping and the update rule are exact",
 "After construction, masking or reinitialisation the narrow band is exactly the set of unmasked (and, with a fixed domain, interior) nodes closer to the interface than the band width, each listed once, and the mines are exactly those of them within one unit of the band's edge. An update changes the signed distance of exactly the band nodes by minus time step times gradient times velocity, except that nodes on the domain boundary never become positive, and leaves all other nodes alone unless it reports a reinitialisation. It reinitialises exactly when the interface has come within one unit of a mine.",
 ["histories", "inputs", "fault_sequences", "configurations"], "all meshes, shapes, band widths, masks and histories, including retried operations and restarts",
 "Tests update one fixed shape; they never let the interface reach the edge of the band.",
 ["src/LevelSet.cpp"], [("narrow band and mines", "src/LevelSet.cpp initialiseNarrowBand"), ("update", "src/LevelSet.cpp update")], ["signed distance, narrow band and mines before/after each operation"],
 [("narrowBand/nNarrowBand, mines/nMines", "band membership", "src/LevelSet.h")])
prop("C10", "Masked and fixed regions are respected for ever",
 "Masking a set of holes, a rectangle or a polygon marks exactly the nodes inside the shape, and all of them are outside the structure from then on. Throughout any simulation no masked node ever becomes part of the structure, masked nodes (and the domain boundary's nodes, when the domain is fixed) are not moved by updates, and nodes on the edge of the domain never become positive. Every boundary point's backward movement limit is at most the move limit, its distance to the domain's edge and, when its nearest grid node is masked, its distance to that node; a point that lies on a masked node is flagged as fixed, and a point on the domain's edge as lying on it.",
 ["histories", "inputs", "configurations", "fault_sequences"], "all masks (overlapping, touching, before or during the simulation), fixed or free domains and histories",
 "Tests mask once and check a few nodes; they never evolve a masked or fixed domain.",
 ["src/LevelSet.cpp", "src/Boundary.cpp"], [("mask", "src/LevelSet.cpp mask, isInsidePolygon"), ("frozen nodes", "src/LevelSet.cpp initialiseNarrowBand, update"), ("limits", "src/Boundary.cpp initialisePoint")], ["mask flags, signed distance and movement limits after each operation"])
prop("C11", "Reinitialisation restores a signed distance field",
 "Reinitialisation never moves a node from inside to outside or the reverse and leaves nodes on the interface on it. Nodes next to the interface get the perpendicular distance to the linearly interpolated contour, and every other node, in order of increasing distance, the solution of the second order upwind eikonal equation from its nearer neighbours (where that equation has no real solution, the estimate from fewer neighbours is kept). Nothing else about an earlier march matters: marching again with the same object, or after a failed attempt, gives what a fresh object gives.",
 ["histories", "inputs", "fault_sequences"], "every field reached by any history of updates, noise, masks and loads on any mesh, and every allocation failure during it",
 "Tests reinitialise two exact shapes and compare with a loose tolerance.",
 ["src/FastMarchingMethod.cpp", "src/Heap.cpp", "src/LevelSet.cpp"], [("marching order", "src/Heap.cpp"), ("initial front, quadratic update", "src/FastMarchingMethod.cpp initialiseFrozen, updateNode, solveQuadratic")], ["signed distance before/after"])
prop("C12", "The discretised boundary is the zero contour of the level set",
 "Discretisation yields exactly the piecewise linear zero contour: one point per sign change along an element edge at the linearly interpolated position (and on every interface node that belongs to it), segments joining them within each cut element, with consistent point, segment, neighbour and node look-ups, segment and point lengths and total length, the local perimeter around any point, and normals (where defined, and away from the domain's edge) of unit length pointing into the structure. It classifies nodes and elements by the sign of the signed distance at their nodes or, for saddles, their centre, and depends on the current signed distance, mask and narrow band only, never on earlier discretisations. Edges of the domain that a fixed domain keeps still and that are not masked carry no boundary.",
 ["histories", "inputs", "fault_sequences", "configurations"], "every signed distance reached by any history (saddle elements, nodes exactly on the interface, masks, domain contact), and reuse of the boundary object after failures",
 "Tests discretise a handful of axis aligned shapes.",
 ["src/Boundary.cpp", "src/Mesh.cpp"], [("discretise", "src/Boundary.cpp discretise, computeMeshStatus, isAdded, initialisePoint, computePointLengths"), ("normals", "src/Boundary.cpp computeNormalVectors")], ["boundary points and segments, node and element status"])
prop("C13", "Area fractions measure exactly the material enclosed by the boundary",
 "Each element's area fraction is the area of the part of it that lies inside the discretised boundary: one for elements inside, zero for elements outside, and the area of the polygon cut out by the boundary segments otherwise, always between zero and one (all to within the tolerance of 1e-6 to which the library places boundary points). The total equals the sum over the elements, agrees with the area enclosed by the boundary curve, and does not depend on earlier calls.",
 ["histories", "inputs", "fault_sequences"], "every boundary reached by any history, including saddle elements and boundaries through nodes",
 "Tests check the area of a few simple shapes.",
 ["src/LevelSet.cpp"], [("computeAreaFractions, cutArea, polygonArea", "src/LevelSet.cpp")], ["element areas and total area"])
prop("C14", "The optimiser returns a feasible, consistent and optimal step or says so",
 "Whatever the solver does (success, round-off failure, invalid argument, early stop, out of memory), solving ends and, when it returns, the boundary points' velocities times the returned time step equal the displacement given by the multipliers and sensitivities, with no point moved further than the maximum displacement, points on the domain's edge not moved out of the domain, and fixed points at rest; velocities are always finite, and when the objective's multiplier is zero the time step is zero and every point rests. The returned change of the objective and the multipliers agree with those displacements, inactive constraints take no part, constraints are met as far as the maximum displacement allows (each round-off failure of the solver reduces the changes asked for by 30%), and the function and gradient handed to the solver are consistent with each other. A solver that rejects its arguments ends the program with an error; one that fails for lack of memory leaves the caller's multipliers as they were.",
 ["fault_sequences", "inputs", "histories", "configurations"], "all boundaries, sensitivities, constraint distances and equality flags, both signs of problem, and all sequences of solver outcomes",
 "The optimiser is not covered by any test; solver failures cannot be produced on demand with the real solver.",
 ["src/Optimise.cpp"], [("scaling, limits, displacement", "src/Optimise.cpp computeScaleFactors, computeLambdaLimits, computeDisplacements, rescaleDisplacements"), ("callback and gradients", "src/Optimise.cpp callback, computeFunction, computeGradients"), ("retry after failure", "src/Optimise.cpp solve")], ["velocities, time step, multipliers, returned objective change", "calls made by the (simulated) solver"])
prop("C15", "Velocities and gradients on the grid extend the boundary's values",
 "After the velocities of the boundary points are extended, nodes next to a boundary point carry the inverse-squared-distance weighted mean of the velocities of the points around them (or exactly that of a point on the node), and every other node a value extended from its nearer neighbours along the normal, between the smallest and the largest of those they carry (nodes cut off from the interface by masks excepted); a uniform boundary velocity gives that same velocity everywhere. The signed distance is not changed. The gradient at every band node equals the modulus of the upwind fifth-order WENO gradient for the direction of motion (at a corner of the domain whose neighbours are level with it, the difference to the diagonal node), is zero outside the band, and is finite and non-negative everywhere.",
 ["histories", "inputs", "fault_sequences"], "every boundary, velocity assignment, mask and band reached by any history",
 "Tests extend a constant on one circle.",
 ["src/LevelSet.cpp", "src/FastMarchingMethod.cpp"], [("initialiseVelocities", "src/LevelSet.cpp"), ("extension by fast marching", "src/FastMarchingMethod.cpp march (velocity)"), ("gradients", "src/LevelSet.cpp computeGradient, gradHJWENO")], ["velocity and gradient fields"])
prop("C16", "Sensitivities are exact finite differences and leave the boundary unchanged",
 "The sensitivity of a boundary point is the central difference of the user's function under a displacement of the point along its normal by the stated distance, divided by the length associated with the point, and the correction for noise subtracts from the objective's sensitivity the temperature times the same quantity of the perimeter over twice that length. The point's coordinates and every other part of the boundary are bit for bit what they were, whether the user's function returns, throws or the computation runs out of memory, and the function sees only that one point displaced.",
 ["fault_sequences", "inputs", "histories"], "every boundary, displacement, user function and every call at which the function throws",
 "One test evaluates perimeter sensitivities on a circle; user functions never fail in it.",
 ["src/Sensitivity.cpp", "src/Boundary.cpp"], [("computeSensitivity, itoCorrection", "src/Sensitivity.cpp"), ("computePerimeter", "src/Boundary.cpp")], ["returned sensitivities, points before/after, arguments seen by the callback"])
prop("C17", "No sequence of documented operations crashes, hangs or corrupts memory",
 "Any history of documented operations with valid arguments, on any mesh at least four elements wide and high and any shape, with structures that merge, split, touch masks or the domain, or vanish, either completes with finite results or stops with a reported error. It never accesses memory out of bounds or after it was freed, never divides by zero or overflows silently into an index, and always finishes within work proportional to the mesh.",
 ["histories", "inputs", "fault_sequences", "configurations"], "every history over every operation of the public interface, with memory contents, allocation placement and noise varied",
 "Tests cover a few short calls each and run without memory checking.",
 ["src/LevelSet.cpp", "src/Boundary.cpp", "src/FastMarchingMethod.cpp", "src/Heap.cpp", "src/Mesh.cpp", "src/Optimise.cpp", "src/Hole.cpp"], [("index bounds and list sizes", "src/Boundary.cpp, src/Mesh.cpp, src/Heap.cpp")], ["process outcome, red zones, step count"])
prop("C18", "The mesh describes a rectangular grid exactly, at any time",
 "For every width and height, and after every operation of any history, whether it succeeded or failed, the nodes and elements have the coordinates, neighbours, corner nodes, domain flags and look-up tables of a unit-spaced grid of the requested size, and every coordinate inside the domain (boundary points included) maps to the closest node and to the element that contains it (to within the tolerance of 1e-6 with which the library places points).",
 ["histories", "inputs", "configurations", "fault_sequences"], "all sizes and coordinates, after every history and failure", "Tests check a couple of sizes of a new mesh.", ["src/Mesh.cpp", "src/LevelSet.cpp", "src/Boundary.cpp"], [("construction and mapping", "src/Mesh.cpp"), ("users of the mesh", "src/Boundary.cpp computeMeshStatus, src/LevelSet.cpp computeAreaFractions")], ["mesh nodes and elements, results of look-ups"])
prop("C19", "A new level set is the signed distance to the requested shape",
 "A level set constructed from holes, a polygon (of either orientation) or nothing (the Swiss cheese) holds at every node the signed distance to the nearest hole, polygon segment or edge of the domain, negative inside the holes or the polygon; it has no masked nodes, a narrow band and mines that fit its distances, and, if and only if one is given, a target that is the fast marching distance of the target's shape. This holds for the first level set of a program and for any later one, whatever was simulated before, whatever memory contained and after constructions that ran out of memory. Arguments outside of the documented range (band width up to 2, movement limits outside of 0 to 1, a mesh too small for the Swiss cheese) are refused with an error message.",
 ["inputs", "configurations", "histories", "fault_sequences"], "all sizes, holes and polygons; construction at any point of a program's history and after any failure", "Tests check a few shapes, constructed first.", ["src/LevelSet.cpp", "src/Hole.cpp"], [("constructors, initialise, closestDomainBoundary, pointToLineDistance, isInsidePolygon", "src/LevelSet.cpp")], ["signed distance, band, mines and target after construction", "process outcome for refused arguments"])
prop("C20", "The Python bindings expose the same behaviour as the C++ library",
 "Every class and function of the library is callable from Python with the same arguments and results.",
 ["programs"], "all Python programs", "No tests of the bindings exist.", ["python"], [("bindings", "python/")], ["Python objects"])
prop("C21", "A simulated front follows the exact motion it is given",
 "Discretise, extend the velocities, compute gradients and update, repeated with any time steps within the movement limit (at most half an element), moves the boundary as the prescribed velocities say: after any number of steps, reinitialisations and restarts from file, a disc or rectangle moving at a uniform normal speed, or discs carried by a translation or rotation, have every boundary point, and the total area, where the exact solution has them, up to the scheme's discretisation error (a few hundredths of an element per element travelled or reinitialisation; about one element for sharp corners). No part of the front disappears and none appears elsewhere.",
 ["histories", "fault_sequences", "inputs"], "every sequence of motions, time steps, reinitialisations, restarts and failures",
 "Tests never evolve a level set over time steps.",
 ["src/LevelSet.cpp", "src/Boundary.cpp", "src/FastMarchingMethod.cpp", "src/InputOutput.cpp"], [("time step", "src/LevelSet.cpp computeVelocities, computeGradients, update, reinitialise"), ("front", "src/Boundary.cpp discretise, computeNormalVectors; src/Mesh.cpp computeAreaFractions")], ["boundary points, area fractions after every step"])
prop("C22", "Optimisation runs progress every step and reach their goal",
 "The optimisation loop of the demonstrations (discretise, sensitivities, optimise, extend velocities, gradients, update, reinitialise) makes progress: with unit sensitivities a disc's radius changes by the movement limit in every step; minimising the perimeter under an area constraint arrives at a circle of the required area; minimising the mismatch with a target shape arrives at that shape; each within a number of steps proportional to the distance to cover. Solver failures, allocation failures and restarts from file delay this but, once they stop, do not prevent it.",
 ["histories", "fault_sequences", "configurations"], "every start, goal and sequence of solver failures, allocation failures and restarts (liveness)",
 "Tests run single optimiser calls, never a loop.",
 ["src/Optimise.cpp", "src/Sensitivity.cpp", "src/LevelSet.cpp", "src/Boundary.cpp", "src/FastMarchingMethod.cpp"], [("the loop", "demos/minimise_area.cpp, demos/minimise_perimeter_constrained.cpp, demos/shape_match.cpp"), ("displacements and time step", "src/Optimise.cpp solve")], ["area, perimeter and mismatch after every step"])
prop("C23", "Random deviates have their documented distributions",
 "operator() returns deviates uniform in [0, 1], integer(min, max) integers uniform over the inclusive range, normal() normal deviates with zero mean and unit standard deviation, normal(mean, stdDev) normal deviates with the given mean and standard deviation.  Successive deviates are independent of each other, and so are deviates of different kinds drawn in turn; whatever the seed and whoever chose it (entropy or setSeed), and at whatever points of the sequence it is reseeded.",
 ["histories", "configurations"], "every seed and every sequence of draws and reseedings",
 "Tests compare the first numbers of one seed.",
 ["src/MersenneTwister.h"], [("generator", "src/MersenneTwister.h operator(), integer, normal, setSeed")], ["every deviate drawn"])
out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p) + "\n")
