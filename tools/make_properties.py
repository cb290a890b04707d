#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long texts stay readable)."""
import json, os
G = "planegeometry/geometry.py"; I = "planegeometry/internal.py"
P = []
def prop(id, title, statement, over, qtext, why, mech, state=(), files=(G, I), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    a = {"files": list(files), "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = list(observe)
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

# ------------------------------------------------------------------ claimed
prop("C01", "Overlapping calls on shared objects never influence each other",
 "When several threads use the library at the same time while sharing geometric objects and arrays that none of them modifies, or when a signal handler re-enters the library in the middle of a call, every call returns, raises and prints exactly what the same call does when it runs alone. "
 "The shared objects and arrays have the same values afterwards as before, and later calls on them are unaffected. No interleaving makes a call block forever or run without end.",
 ["schedules"], "every interleaving of any number of public calls (same or different methods, same or different objects) at statement, call and attribute-access granularity, and every point at which a handler re-enters the library",
 "The tests run one call at a time in one thread; a scratch buffer, a lazily filled cache, or a receiver that is changed and restored during a call is invisible to them and shows only when a second call lands between two particular steps of the first.",
 [("every public method and function computes on local values only", G), ("no module-level or class-level mutable state", G + ", " + I)],
 [("public attributes of every object", "center, radius, A, B, alpha, M, ... : the whole state of an object", G)],
 observe=["return value", "exception type and text", "text printed", "public attributes of the objects"])
prop("C02", "A call cut short at any instant leaves no trace",
 "If a call is aborted at an arbitrary instant by an asynchronous exception (keyboard interrupt, a timeout raised by a signal handler, memory exhaustion), every object and array that existed before the call - the receiver, the arguments and all others - keeps its value. "
 "As soon as interruptions stop, the same call and every other call return, within a bounded number of steps, what they would have returned had the interruption never happened.",
 ["crash_points", "fault_sequences"], "every public call, every instant inside it, every sequence of such interruptions followed by retries",
 "No test interrupts anything; code that switches an attribute to another unit, or fills a cache in two steps, and is interrupted between the two passes every test.",
 [("objects are assigned only in constructors; methods never write to the receiver or the arguments", G)],
 [("public attributes of every object", "the whole state of an object", G)],
 observe=["public attributes after the abort", "result of the retried call", "number of steps of the retried call"])
prop("C03", "A fault that hits a call is reported as itself, never disguised or swallowed",
 "A fault that does not come from the call's own argument checks - an interrupt, memory exhaustion, an error raised by an array-like argument while it is being read, a failing output stream, a numpy floating-point trap or warning turned into an error - either reaches the caller as that very exception or the call returns its normal fault-free result. "
 "It is never replaced by another error such as a complaint about the arguments, never turned into a different result such as None, and an absent output stream changes no result.",
 ["fault_sequences", "crash_points"], "every public call, every instant or I/O operation inside it, every fault kind of the list, alone or several in one session",
 "Tests inject no faults, so a handler that catches too much is never entered in them; the only handlers they reach are those for invalid arguments.",
 [("narrow exception handlers in the point transformations", G + ": transform/rotate of Rotation, Shear, ScalingXY, Homothety, Scaling"), ("diagnostics printed to sys.stdout", G)],
 observe=["exception object that reaches the caller", "return value"])
prop("C04", "An answer depends only on current values, never on what was called before",
 "The outcome of a call is determined by its arguments and the current values of the objects involved: no earlier call - on the same or on other objects, successful, failing or interrupted, however many - changes it, and sampling depends on the past only through the random stream. "
 "After a public attribute is reassigned or updated in place, every later call answers exactly as if the object had been built with the new value. Calls never change the objects and arrays they are given.",
 ["histories"], "every finite history of public calls, failures, interruptions, attribute updates and object creations and disposals, followed by any call",
 "Each test builds fresh objects and asks a handful of questions once; stale caches, counters, memo tables with an incomplete key and arguments changed in passing need particular multi-step histories on near-identical objects.",
 [("no caches: every query recomputes from the public attributes", G)],
 [("public attributes of every object", "the whole state of an object", G)],
 observe=["return value", "exception type and text", "text printed"])
prop("C05", "Objects and results never share memory with the caller's buffers or each other",
 "Once an object has been built, later writes by anybody into the arrays or lists it was built from do not change the object or any answer it gives. "
 "Once a call has returned, writing into the arrays it returned, or into the arrays held by the objects it returned, changes neither the receiver, nor the arguments, nor any other object, and later writes into the arguments do not change what was returned.",
 ["histories", "schedules"], "every constructor, class method and public call, every history in which producers recycle their buffers at arbitrary moments between and during calls of other threads",
 "Tests pass tuples and never write to an array after handing it over, so a shared buffer never shows.",
 [("constructors copy array arguments", G + ": __init__ of every class"), ("results are newly created arrays and objects", G)],
 [("coordinate arrays of the objects", "center, A, B, pole, M, b, ...", G)],
 observe=["public attributes and answers of every object after the write", "value of earlier results after the write"])
prop("C06", "Sampled points lie on the requested set for every possible random stream",
 "Whatever values the random source delivers, the random points of a circle, an ellipse or a triangle are the requested number of finite points, as a two-column array, all inside the closed figure when the interior is requested and all on its boundary when the boundary is requested (up to rounding). "
 "This also holds when several threads sample at the same time from the shared random stream.",
 ["inputs", "schedules", "fault_sequences"], "every figure, every number of points, every stream of values the random source may legally deliver (including extreme, repeated and degenerate values), every interleaving of samplers",
 "The tests draw three points from one figure with one ordinary stream; boundary values such as 0 or 1-2^-53, branch boundaries and long runs of equal values practically never occur in them.",
 [("runif_on_circle_, runif_in_circle_, runif_on_ellipse_, runif_in_ellipse_, runif_on_triangle_, runif_in_triangle_", I), ("random_points of Circle, Ellipse, Triangle", G)],
 observe=["returned array"])
prop("C07", "Random points follow the uniform law and are independent from draw to draw",
 "Random points inside a circle, an ellipse or a triangle are uniformly distributed over its area, and random points on a circle or on a triangle's boundary are uniformly distributed along its length; on an ellipse they are uniform in the eccentric angle. "
 "Points are independent of each other within a call, across successive calls, across threads and after interrupted calls, for every number of points requested.",
 ["inputs", "histories"], "every figure, every seed, every split of a sample over calls and threads",
 "A distribution cannot be observed on three points; a wrong radial law, a shared coordinate or a re-used draw passes every membership test.",
 [("runif_* functions", I), ("random_points of Circle, Ellipse, Triangle", G)],
 observe=["empirical law of the returned points"])
prop("C08", "The caller's random stream and process-wide settings are left alone",
 "Only random sampling and the smallest-enclosing-ellipse search draw from numpy's global random stream; no other call reads, advances or re-seeds it, and no call of any kind re-seeds it. Setting the same seed before the same sequence of calls gives identical results, in the same process or in another one. "
 "Neither importing the library nor any call, whether it ends normally, with an error or by an interruption, leaves other process-wide settings changed: numpy error handling and print options, warning filters, recursion limit, standard streams.",
 ["histories", "crash_points", "configurations"], "every history of public calls, every interruption point inside them, every process and hash seed",
 "Tests only look at return values; a call that re-seeds the stream, draws one value too many or leaves numpy's error handling changed passes them all.",
 [("np.random is used only by the runif_* functions and LownerJohnEllipse", G + ", " + I)],
 [("numpy's global random stream", "state shared with the caller's own code", "np.random in " + I)],
 observe=["np.random.get_state()", "np.geterr()", "np.get_printoptions()", "warnings.filters", "sys.getrecursionlimit()", "sys.stdout, sys.stderr"])
prop("C09", "The smallest enclosing ellipse is the same for every random pivot order",
 "The minimum-area ellipse of a set of points contains every point and has the minimum area among all enclosing ellipses (up to rounding), whatever pivots the random source picks, in whatever order and with whatever repetitions the points are supplied. "
 "Hence two computations on the same set of points, under different random streams, give the same ellipse.",
 ["inputs", "schedules"], "every finite planar point set that is not on one line (including duplicated points, collinear subsets, lattices, points on a common ellipse), every pivot sequence",
 "The algorithm is randomised: a given run visits one pivot order out of n!; a sub-problem that is solved wrongly is only reached under particular orders. The tests do not call it at all.",
 [("LownerJohnEllipse, from_boundary3, from_boundary4, from_five_points, from_equation, from_center_and_matrix, contains", G)],
 observe=["returned ellipse"], files=(G, I))
prop("C10", "The enclosing-ellipse search always finishes and treats its input as read-only",
 "For every point set that is not on one line and every choice of random pivots, the smallest-enclosing-ellipse computation ends with an ellipse, without error, within a bounded number of steps and at bounded recursion depth even for thousands of points; for points on one line it ends with no ellipse. "
 "The supplied point arrays are never modified, not even when the search is interrupted, and a later run gives the same answer.",
 ["schedules", "crash_points", "inputs"], "every pivot sequence including adversarial ones, every point set of the described kind, every interruption point",
 "The tests do not call it; failures occur only for particular pivot orders on particular sets (duplicates, collinear triples, co-elliptic points, large convex sets).",
 [("LownerJohnEllipse and the primitives it calls", G)],
 observe=["returned value or exception", "number of steps", "nesting depth", "the caller's arrays"])
prop("C11", "Displaying an object is complete, faithful and survives a bad output device",
 "For every object, printing its description, or converting it to a string, completes and shows the current value of every parameter that defines it, in any state, after any history of updates and in any thread. "
 "When the output device accepts only part of the data at a time, everything is still written in order; when it fails, the device's own error is reported, what was written is a prefix of the full text, and neither the object nor a later display is affected.",
 ["histories", "fault_sequences", "schedules"], "every object of every class, every history of attribute updates before it, every sequence of short writes and device errors, every interleaving with other displays",
 "No test displays anything.",
 [("show() and __str__ of every class", G)],
 observe=["bytes received by the device", "exception"], files=(G,))
prop("C12", "Saved, copied and restored objects answer exactly like the originals",
 "An object that is pickled, copied or deep-copied - at any moment, including while another thread is in the middle of a call on it - and restored in the same process or, after a crash, in a new one, gives exactly the answers of the original. "
 "A restored or deep-copied object is independent: later changes to either one do not show in the other.",
 ["crash_points", "histories", "schedules"], "every object of every class in any state, every instant at which the checkpoint is taken, every process that restores it",
 "No test saves or copies an object; state kept outside the public attributes (by identity, in unpicklable fields, in module tables) is lost on restore and shows only after one.",
 [("objects are plain instances whose attributes hold their whole state", G)],
 [("instance attributes", "the durable state of an object", G)],
 observe=["answers of the restored object"], files=(G,))

prop("C13", "Nothing is retained: a process can use the library without end",
 "However many calls a process makes - with ever new values, on objects that are dropped or on objects in constant use, ending normally, with an error or by an interruption - the library's memory stays bounded: objects and arguments that the program has dropped are let go (all but a bounded number that a cache may keep), what modules, classes and objects in use hold stops growing, and a result does not keep the objects it was computed from alive. "
 "Nor does it use up other things of the process (threads, open files, hooks), and calls do not get slower with the number of calls made before.",
 ["histories", "crash_points", "fault_sequences"], "every unbounded history of public calls and interruptions",
 "Tests make a few calls and end; a table that is filled by every new argument, or by every call that is interrupted, exhausts a long-running process only after millions of calls.",
 [("objects hold only their parameters; modules hold no tables", G + ", " + I)],
 [("module and class attributes", "what outlives a call", G + ", " + I)],
 observe=["objects alive after they are dropped", "amount of data reachable from the package and from objects in use", "steps of a call"])
prop("C14", "A process using the library can fork at any moment, and both processes go on",
 "When a process forks - at rest, from a signal handler in the middle of a call, or in one thread while others are in the middle of calls - parent and child both go on as if alone: every call in either of them ends and gives the answer it gives in a process that never forked, calls in progress finish unharmed, the child's random stream continues the inherited one, and nothing one process does afterwards shows in the other.",
 ["crash_points", "schedules", "histories"], "every instant of a fork inside any public call of any thread, every history before and after it in either process, either order of the two",
 "Worker pools fork; a lock held or a half-updated table at the instant of the fork stays that way in the child for ever. No test forks.",
 [("no locks, no process-wide or shared state", G + ", " + I)],
 [("fork", "the child has the memory but not the threads of its parent", G + ", " + I)],
 observe=["return values and exceptions in both processes", "termination of the child", "np.random.get_state()"])
prop("C15", "Answers do not depend on the ambient settings of the process",
 "What a call returns, raises and prints depends only on its arguments, the values of the objects and the random stream. It does not depend on the surroundings: numpy error modes that only warn, warning filters, print options (except how a displayed array is formatted), decimal context, environment, working directory, clock, python's own random stream, recursion limit, garbage collector, command line, optimisation level of python, or the thread, terminal or tracer it runs under - not even when these change while the library is imported or in the middle of a call.",
 ["configurations", "schedules"], "every combination of such settings, before or at any instant inside any public call",
 "Tests run under one configuration; code that decides by a printed form, a warning, an assertion or the time gives other answers elsewhere.",
 [("no function reads ambient state; computations are plain float arithmetic", G + ", " + I)],
 [("ambient settings", "owned by the application, may change at any time", G + ", " + I)],
 observe=["return values, exceptions and printed text"])

# ------------------------------------------------- pure functions (not applicable)
def pure(id, title, statement, qtext, mech):
    prop(id, title, statement, ["inputs"], qtext,
         "The tests check a few fixed inputs; the statement quantifies over all real inputs, including degenerate ones.", mech)
pure("N01", "Inversions act on generalized circles and the constructed ones do their job",
 "An inversion maps points of a circle or line onto the circle or line it announces as the image and is its own inverse. Inversions built to swap or fix given circles do swap or fix them, and the composition of two inversions agrees with applying them one after the other.",
 "every pole, power, point, circle and line", [("class Inversion", G), ("inversion_to_conjugate_mobius_", I)])
pure("N02", "Möbius transformations form a group acting on points, circles and lines",
 "Composition, inverse, integer and real powers of Möbius transformations agree with their action on points, infinity included; images of circles and lines contain the images of their points; fixed points are fixed and constructed transformations map the given points or circle as requested.",
 "every non-singular matrix, point, circle and line", [("class Mobius", G), ("mobius_from_three_points_to_zero_one_inf_", I)])
pure("N03", "All descriptions of an affine-type transformation agree",
 "For reflections, projections, rotations, shears, scalings and homotheties, the point map, the augmented matrix, the affine conversion and the specialised maps for circles, lines and ellipses describe the same transformation; inverse and composition of affine maps agree with their action.",
 "every transformation of these classes and every argument", [("classes Affine, Reflection, Projection, Rotation, Shear, ScalingXY, Homothety, Scaling", G)])
pure("N04", "Intersections are exactly the common points",
 "The intersection of two lines, two circles, a circle or an ellipse with a line consists of points lying on both objects, is empty only when there are none, and a single point is returned only for tangency.",
 "every pair of objects", [("intersection_* functions", G), ("line_line_intersection_, circle_line_intersection_", I)])
pure("N05", "Circles, ellipses and points derived from a triangle satisfy their definitions",
 "The circumcircle passes through the vertices, the incircle and excircles touch the side lines, Malfatti circles touch each other and the sides, the Steiner ellipses pass through the vertices or touch the side midpoints, and the orthic triangle's vertices are the feet of the altitudes.",
 "every non-degenerate triangle", [("class Triangle", G)])
pure("N06", "All representations of an ellipse describe the same curve",
 "Converting an ellipse to its implicit equation, shape matrix or five of its points and back gives the same ellipse; points produced from angles or paths satisfy the equation.",
 "every ellipse", [("class Ellipse", G), ("ellipse_from_center_and_eigen_, ellipse_points_", I)])
pure("N07", "Equality, incidence and containment predicates are geometrically right",
 "Two lines, circles or ellipses are reported equal exactly when they are the same set up to rounding; membership, containment, parallelism, perpendicularity and orthogonality are reported as geometry defines them, independently of how the objects are presented.",
 "every pair of objects and every point", [("is_equal, includes, contains, is_parallel, is_perpendicular, is_orthogonal", G)])
pure("N08", "Radical, mid- and orthogonal circle constructions satisfy their definitions",
 "Points of the radical axis have equal powers, inverting in a mid-circle swaps the two circles, and the circle or arc constructed orthogonally through two points passes through them and is orthogonal to the reference circle.",
 "every configuration of circles and points", [("radical_center, radical_axis, mid_circles, orthogonal_through_two_points_*", G)])
pure("N09", "Steiner chains close up",
 "The circles of a Steiner chain are each tangent to the two bounding circles and to their two neighbours, and their centres lie on the returned ellipse.",
 "every bounding circle, number of circles, eccentricity and shift", [("SteinerChain, SteinerChain_phi0_", G)])
pure("N10", "Invalid arguments are rejected with a clear error",
 "Arguments of the wrong kind (not a point, not a number, not positive, not a Boolean, not an object of the required class) are rejected with an error naming the argument.",
 "every public constructor, method and function and every invalid argument", [("error_if_not_* functions", I), ("isinstance checks", G)])
pure("N11", "Unimodular matrices and cross ratios are exact",
 "The generated matrices are distinct, have determinant one, entries bounded by the requested size, and none of that family is missing; cross ratios are invariant under Möbius transformations and real exactly for points of a generalized circle.",
 "every size and every four points", [("unimodular_matrices, cross_ratio", G), ("farey_, farey_stack_", I)])
pure("N12", "Paths trace the whole curve in order",
 "The path of an arc or ellipse has the requested number of points, all on the curve, equally spaced in its parameter, starting and ending where documented.",
 "every arc and ellipse and every number of points", [("path of Arc and Ellipse, starting_point, ending_point", G)])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
