BASE_NOTE = ("Decides the stated structural condition for every path of every function analysed (flow-sensitive, interprocedural, "
             "context-insensitive summaries); trusts Cython's parser, the transfer rules for numpy/builtins in sa/alias.py and that "
             "unresolved dynamic calls have no effect on tracked objects. Not a proof of the arithmetic.")

prop("C01", "Geometry objects never answer from state that a mutation made stale",
     "After any public mutation of a curve, surface, bounding box or implicit primitive (setter, in-place edit, knot insertion, "
     "degree change, periodic/open conversion, normalisation, unpickling), every later query on that object answers as a freshly "
     "constructed object with the same defining data would. Cached evaluations, parameter intervals, Greville abscissae, array views, "
     "box centre/extent and primitive bounds are all covered; objects returned by an operation are equally consistent.",
     ["histories", "inputs"], "all sequences of public mutators and queries on an object, on every control-flow path of each mutator",
     "Tests call a mutator and check one consequence; the property quantifies over every mutator x every derived quantity x every branch "
     "(e.g. a rarely taken periodic branch) and over the history in which caches were filled before the mutation.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/nurbs.pxd", "mmcore/geom/bvh/__init__.py", "mmcore/geom/primitives.pyx", "mmcore/numeric/fdm.py"],
     [("knots_update_hook / _update_interval / cache_clear", "mmcore/geom/nurbs.pyx NURBSCurve"),
      ("_update_interval, rebuilding control point views", "mmcore/geom/nurbs.pyx NURBSSurface"),
      ("_calculate_bounds in setters", "mmcore/geom/primitives.pyx"), ("BoundingBox._update", "mmcore/geom/bvh/__init__.py")],
     ["evaluate()/interval()/greville_abscissae after a setter or mutator", "BoundingBox.center/dims/__array__ after split/expand", "bounds() after setting radius/origin/start/end"],
     "interprocedural typestate (fresh/empty/stale/unset) over points-to summaries", BASE_NOTE,
     state=[("_evaluate_cached", "memo of evaluated points", "NURBSCurve"), ("_interval", "parameter domain", "NURBSCurve/NURBSSurface"),
            ("_greville_abscissae", "knot averages", "NURBSCurve"), ("control_points_view", "view of the control array", "NURBSSurface")])

prop("C02", "Results share no storage with the objects they were computed from",
     "Copies, splits, trims, decompositions, evaluations, boxes and constructed curves or surfaces are independent of their sources: "
     "writing into a returned array or object never changes the object it came from, the caller's input arrays, or later results, and "
     "vice versa; the parts of one result (the halves of a split) are independent of each other. Getters that are explicitly live views (control_points, knots, weights, bounds and the like) are excluded.",
     ["histories", "inputs"], "every public function returning a mutable value, every path, and every later write to result or source",
     "Aliasing is invisible until somebody writes to one of the two values; the tests compare values right after the call and never mutate "
     "results or inputs afterwards.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/parametric.pyx", "mmcore/geom/primitives.pyx", "mmcore/geom/bvh/__init__.py", "mmcore/numeric/vectors.pyx", "mmcore/construction/ruled.py"],
     [("copying in constructors, ccopy/copy/__deepcopy__", "mmcore/geom/nurbs.pyx"), ("NURBSCurve.evaluate returns a copy of the memoised point", "mmcore/geom/nurbs.pyx"),
      ("np.array() of fresh buffers in evaluators", "mmcore/geom/parametric.pyx")],
     ["mutate a result, then query the source", "mutate constructor arguments, then query the object"],
     "points-to reachability over interprocedural summaries", BASE_NOTE)

prop("C03", "Queries leave their arguments unchanged",
     "Evaluating, measuring, intersecting, splitting, projecting, inverting, boxing or serialising never changes the curves, surfaces, "
     "points, vectors, matrices, lists or trees passed in (lazily built acceleration structures aside); only documented out-buffers and the "
     "receivers of mutators are written.",
     ["inputs", "histories"], "every call of a listed query with every input, including repeated and interleaved calls sharing arguments",
     "The tests build inputs freshly for each call, so an in-place normalisation, sort or accumulation inside a query is not observed.",
     ["mmcore/geom", "mmcore/numeric"],
     [("working copies taken before in-place algorithms", "mmcore/numeric/vectors.pyx, mmcore/geom/vec, mmcore/numeric/fdm.py"),
      ("copies taken by split/trim/decompose", "mmcore/geom/nurbs.pyx")],
     ["compare every argument before and after the call"],
     "interprocedural mod-ref (effect) analysis", BASE_NOTE + " Known: detect_intersection in cydqr/dqr4 renormalises the caller's surfaces.")

prop("C18", "Code behind every public operation refers only to things that exist",
     "No public operation of the geometry, numeric, construction, data-structure and exchange packages can fail, on any input or branch, because the "
     "code itself is inconsistent: every name, imported symbol, attribute of a known class or module, and call signature it uses exists, and no "
     "local variable is read on a path on which it was never assigned. Error paths, rare branches and seldom-used methods are included.",
     ["inputs"], "every statement of every function and method in the packages, reachable by any input",
     "Python and untyped Cython resolve names at run time, so a stale name or missing attribute on a branch no test takes is a NameError/AttributeError "
     "(or, in Cython, a read of an uninitialised variable) only for the user whose input takes it.",
     ["mmcore/geom", "mmcore/numeric", "mmcore/construction", "mmcore/ds", "mmcore/compat", "mmcore/topo/brep"],
     [("module level imports and cimports", "all modules in scope"), ("attribute definitions, cdef classes and .pxd fields", "mmcore/geom/nurbs.pxd, mmcore/geom/parametric.pxd")],
     ["NameError / AttributeError / UnboundLocalError / TypeError from inside the library for well-formed input"],
     "name, import, attribute, call-shape and path-sensitive definite-assignment analysis",
     "Receivers of unknown class generate no obligation; loops are taken to run at least once and elif chains to be exhaustive when deciding definite assignment. "
     "Known: dqr4 imports the nonexistent mmcore.collision.")

prop("C23", "Every query answers, in its documented shape, on every path",
     "A public function that answers with a value answers on every path: no branch falls off the end, returns None or returns a tuple of another length or "
     "another container kind than the caller was promised (flag-dependent shapes such as return_x=True are part of the promise), and internal "
     "callers unpack results the way callees return them.",
     ["inputs"], "every path through every public function, for each value of the flags that select the result shape",
     "Early exits for degenerate, empty or boundary input are the paths tests rarely take; a missing return there hands None to the caller.",
     ["mmcore/geom", "mmcore/numeric", "mmcore/construction", "mmcore/ds", "mmcore/compat", "mmcore/topo/brep"],
     [("return statements and early exits", "mmcore/numeric/intersection, mmcore/numeric/closest_point.py, mmcore/geom/nurbs.pyx"),
      ("flag-selected results", "mmcore/geom/nurbs.pyx, mmcore/numeric/algorithms")],
     ["TypeError 'cannot unpack' / None results / tuple length"],
     "control-flow-graph result-shape analysis (interprocedural, flag sensitive)",
     "Shapes that come from unknown calls are not judged; the reviewed table sa/spec/c23_shapes.json is the documented shape. Known: closest_point_on_nurbs_surface returns None.")

prop("C22", "Invalid input is refused, valid input is not, and errors reach the caller",
     "Entry points that document a precondition (split/trim parameters strictly inside the domain, direction names, matching sizes and degrees, list and tree "
     "index ranges, operand types, format headers) raise their documented error for exactly the inputs that violate it - none slips through, no valid "
     "input is refused - and an error the library raises is never lost on the way to the caller in a noexcept function, a catch-all handler or a finally return.",
     ["inputs"], "all inputs of each guarded entry point, on every path; all handlers and noexcept functions",
     "Tests pass valid input, or one obviously invalid value; boundary values, the other operand of a compound condition and errors raised deep inside a "
     "call chain are not sampled.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/polygon.py", "mmcore/ds/cdll/cdll.py", "mmcore/ds/bkdtree.py", "mmcore/compat/step/step_writer.py", "mmcore/numeric"],
     [("raise ValueError/TypeError guards", "mmcore/geom/nurbs.pyx split_*, trim, decompose_surface, control_points setter, deserialize"),
      ("raise guards", "mmcore/ds, mmcore/numeric/intersection/ssx/boundary_intersection.py, mmcore/numeric/fdm.py, mmcore/compat/step/step_writer.py")],
     ["which exception, if any, a call raises"],
     "rejection-condition extraction (flow-sensitive) compared with the documented condition by truth table and linear arithmetic; exception-flow rules",
     "Conditions are compared as boolean formulas over the entry point's inputs; a condition rewritten in terms outside the documented vocabulary is not judged.")

prop("C16", "The same question gets the same answer, whatever happened before",
     "The result of every operation is a function of its arguments and of the receiver's defining data alone. It does not depend on earlier calls "
     "(module-, class- or closure-level state, memo tables, shared default arguments, containers left over from a previous run of a solver object), on object "
     "identity or address reuse, on hash order, on the clock, the environment or unseeded randomness, or on how the iterations of a parallel loop interleave; "
     "and no call changes process-wide settings. Documented random helpers and registries are excluded.",
     ["histories", "schedules", "inputs"], "every call of every function after every history of other calls, and every interleaving of parallel loop iterations",
     "A test calls a function once or twice in a fresh process; a stale memo, a shared default or a left-over container only shows after a particular earlier call, "
     "and a race or hash-order dependence only in some runs.",
     ["mmcore/geom", "mmcore/numeric", "mmcore/topo/brep", "mmcore/ds", "mmcore/construction", "mmcore/compat"],
     [("memo of Bernstein matrices", "mmcore/numeric/monomial.py bpmat"), ("binary corner table keyed by dimension", "mmcore/geom/bvh/__init__.py get_aabb_corners_numpy"),
      ("prange over triangles", "mmcore/numeric/algorithms/moller.pyx"), ("reset at solver entry points", "sweep_intersector.py, csx/_ncsx.py, implicit/tree")],
     ["repeat a query after unrelated queries", "reuse a solver object", "run in a new process with another hash seed"],
     "interprocedural effect analysis of global, closure, default-argument and receiver state; key-coverage slicing for memo tables; index separation for parallel loops",
     "Unresolved dynamic calls are taken to have no ambient effect and caller-supplied callables to be pure; uninitialised memory is the subject of another property.")

prop("C04", "No answer is computed from memory that was never written",
     "Every element of an array or buffer that reaches a caller, or that takes part in a computation, was written first on every path: accumulators start from "
     "zero, work arrays and result rows created empty (np.empty, malloc, C arrays) are completely filled - or the incompleteness is reported by the status the "
     "caller checks - and no loop reads or accumulates into elements an earlier, shorter or skipped loop was meant to fill.",
     ["inputs", "histories"], "every path of every numeric function, all sizes, degrees, orders and dimensions, and every prior content of recycled memory",
     "Fresh memory is usually zero in a short test process, so an uninitialised accumulator passes; after other work the same call answers with leftovers.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/nurbs.pxd", "mmcore/numeric/vectors.pyx", "mmcore/geom/parametric.pyx", "mmcore/geom/primitives.pyx", "mmcore/numeric/algorithms"],
     [("zeroing of accumulators", "mmcore/geom/nurbs.pxd curve_point, surface_point, rat_surface_derivs"), ("np.empty results", "mmcore/numeric/vectors.pyx, mmcore/geom/parametric.pyx"),
      ("status of solvers that may not write", "mmcore/numeric/vectors.pyx solve2x2, cinvert_jacobian")],
     ["fill and free large arrays, then compare with the same call in a fresh process"],
     "abstract interpretation of written regions (polynomial bounds, interprocedural write/read summaries)",
     "Elements written under an index outside the polynomial domain count as written, loops over a range count as run, and unresolved calls may write everything they are given.")

prop("C05", "Hand-managed memory is freed exactly once and nothing refers to it afterwards",
     "Every block the library allocates by hand (malloc, realloc, C helpers that return fresh memory) has exactly one owner at any time and is freed exactly once: it is released "
     "or handed on on every path, early exits and errors included; it is never used, nor referred to through a pointer, view or attribute, after it was freed or moved by a "
     "resize; two objects never own the same block; memory that does not come from malloc is never freed or resized; and no public call hands out a view of memory its object "
     "will free or move. Objects release what they own when they die.",
     ["histories", "inputs"], "every path of every function that allocates, frees, resizes or refers to managed memory, and every later history of mutations and deaths of the objects involved",
     "A leak, a dangling view or a double free rarely changes the value a test compares; whether a stale read is visible depends on what the allocator does next.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/nurbs.pxd", "mmcore/numeric/algorithms/_unique.c", "mmcore/numeric/algorithms/quicksort.pyx", "mmcore/geom/primitives.pyx"],
     [("_control_points_arr, its views, realloc_control_points, __dealloc__", "mmcore/geom/nurbs.pyx NURBSSurface"), ("work arrays with free before return", "mmcore/geom/nurbs.pxd, mmcore/geom/nurbs.pyx"),
      ("functions returning fresh memory", "mmcore/numeric/algorithms/_unique.c")],
     ["valgrind/ASan reports, growing memory, values read through old views"],
     "path-sensitive ownership and view-validity analysis with interprocedural summaries",
     "Exceptions raised by NumPy or the interpreter between an allocation and its release, and failure of malloc itself, are not considered; containers and unknown callees take over pointers handed to them.")

prop("C06", "Reads and writes stay inside the arrays they index",
     "With bounds checks compiled out, every subscript of the numeric kernels still stays within the array it addresses, for every degree, derivative order, number of "
     "control points and dimension: work arrays and results are as large as the loops that fill them, callees receive arrays as large as they index, and views are "
     "no larger than the allocation behind them.",
     ["inputs"], "every subscript of every function in the packages, for all sizes, degrees, orders and dimensions",
     "An overrun of a few elements lands in allocator slack and goes unnoticed for the sizes a test uses; other sizes corrupt the heap or read garbage.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/nurbs.pxd", "mmcore/numeric/vectors.pyx", "mmcore/numeric/algorithms", "mmcore/geom/primitives.pyx", "mmcore/geom/parametric.pyx"],
     [("boundscheck=False directives and their loops", "mmcore/geom/nurbs.pyx, mmcore/numeric"), ("malloc sizes", "mmcore/geom/nurbs.pxd, mmcore/geom/nurbs.pyx")],
     ["AddressSanitizer / crash / values changing with neighbouring memory"],
     "abstract interpretation of extents and index polynomials (interprocedural)",
     "Indices outside the polynomial domain and accesses under conditions with a non-constant excess are not judged.")

prop("C08", "Directions, ends, coordinates and operands are never interchanged",
     "A value that belongs to one parameter direction (u or v), one end of an interval or box (lower or upper), one coordinate (x, y, z) or one of two operands "
     "(first or second curve or surface) is only ever used as such: every operation on a surface indexes, measures, splits, inserts, differentiates and reports each direction with "
     "that direction's own knots, degree, size, span, interval and parameter, results list u before v and lower before upper, and each operand of an intersection is evaluated at "
     "its own parameters. Operations that come in a u and a v form behave alike up to the exchange of directions.",
     ["inputs"], "every function that handles two directions, interval ends, coordinates or operands, and all inputs",
     "With square control grids, equal degrees, symmetric boxes or unit domains - what tests use - an exchange changes nothing.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/nurbs.pxd", "mmcore/geom/parametric.pyx", "mmcore/geom/surfaces", "mmcore/geom/evaluator", "mmcore/numeric", "mmcore/compat/step/step_writer.py"],
     [("_u/_v attributes and operations", "mmcore/geom/nurbs.pyx NURBSSurface"), ("size[0]/size[1], degree[0]/degree[1]", "mmcore/geom/nurbs.pyx, nurbs.pxd"),
      ("u1,v1,u2,v2 of two operands", "mmcore/numeric/intersection/ssx")],
     ["compare the u and the v operation on a surface and its transpose", "non-square grids, different degrees and domains per direction"],
     "role typing: dataflow of direction/end/coordinate/operand roles seeded from names and documented positions",
     "Roles come from names, attribute names and documented positions of pairs; values without a role are not judged.")

prop("C07", "Copies, pickles, byte forms and derived geometry carry every defining datum",
     "A copy, deep copy, pickle round trip, restored state, tuple form, dictionary form or byte form of a geometry object carries every defining datum of its source - control points, "
     "weights, knots, degree per direction, periodicity, interval ends, corners, radii, colour channels - each into its own place; writer and reader of a byte form agree on the position, "
     "width and meaning of every entry and the form is exactly as long as what is written, and short data is refused; equality and hashes look at every defining datum. Curves and surfaces "
     "derived from others (splits, trims, reversals, knot insertions, degree elevations, joins, isocurves, ruled surfaces) take points, weights, knots and degree from the matching data of their sources.",
     ["inputs"], "every class with a copy, state, tuple, dictionary or byte form, every operation that derives curves or surfaces from others, and all objects",
     "The non-default part of the data - weights other than 1, periodicity, alpha, non-unit domains, unequal degrees - is what tests leave at its default, where dropping it changes nothing.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/curves", "mmcore/geom/parametric.pyx", "mmcore/geom/primitives.pyx", "mmcore/geom/materials", "mmcore/api", "mmcore/construction/ruled.py"],
     [("ccopy, __reduce__, __getstate__/__setstate__, cserialize/cdeserialize, geometry_hash", "mmcore/geom/nurbs.pyx"), ("split_*, trim, reverse_curve, decompose_*", "mmcore/geom/nurbs.pyx"),
      ("degree_elevate_curve, join_two_curves, refine_curve", "mmcore/geom/curves/knot.py")],
     ["compare the copy field by field with weights, periodicity and domain set to non-default values", "serialize, cut or alter bytes, deserialize"],
     "provenance: abstract interpretation of which source fields each field of the result is made of; symbolic byte layouts",
     "Which field a datum comes from is decided, not its numeric value: a formula over the right fields but wrong in value is not detected.")

prop("C14", "Every option a caller gives takes effect",
     "Every option of every operation - tolerance, iteration or depth limit, step, bounds, flag, optional data - influences what the operation does: it is used where it applies, for every "
     "branch and callee; operations that delegate hand the caller's tolerance, limit or flag on to every callee that takes the same option instead of letting it fall back to a default or "
     "a literal; limits given by the caller bound the loops; options stored by a constructor are read by its methods; no option is overwritten before use or bound to another one's place. "
     "Distinctions the code draws are real: the branches of a condition differ and comparisons compare two different things.",
     ["inputs"], "every option of every function in the packages, every call that could hand one on, and all values of the options",
     "Tests run with the defaults; an option that is dropped, replaced by its default or wired to another place gives the same results there.",
     ["mmcore/numeric", "mmcore/geom", "mmcore/construction", "mmcore/compat", "mmcore/topo/brep", "mmcore/ds"],
     [("tol / max_iter / bounds of solvers and searches", "mmcore/numeric/fdm.py, mmcore/numeric/newton, mmcore/numeric/closest_point.py, mmcore/numeric/divide_and_conquer.py"),
      ("delegation of tolerances", "mmcore/numeric/intersection"), ("tol and normalize_knots of splits", "mmcore/geom/nurbs.pyx")],
     ["call with two different values of the option and compare what is evaluated or returned"],
     "interprocedural option-flow (effective-use) analysis over parameters, calls and stored attributes",
     "That an option influences the computation is decided, not that its influence has the right size; options of the same name in caller and callee are taken to mean the same unless reviewed otherwise in sa/spec/options.json.")

prop("C17", "A failed computation is never used as an answer",
     "When a solver, search, lookup, inversion, refinement or fit reports that it has no result - None, a failure status, a False flag, a singular system - its caller notices: it raises, reports "
     "the failure in turn, falls back, or skips the item. No caller computes with, stores or returns the absent value as if it were an answer, no output buffer is read that a failed call left "
     "unwritten, and a function that reports success has written its results.",
     ["inputs"], "every call, in every function of the packages, of a function that can report failure, and all inputs that make it fail",
     "Tests feed inputs for which the solvers converge; the failing branch - a singular Jacobian, parallel planes, a missing key, a degenerate system - is not run.",
     ["mmcore/numeric", "mmcore/geom", "mmcore/ds", "mmcore/construction", "mmcore/topo"],
     [("status codes of lu_factorize, lu_solve, invert_matrix, solve2x2", "mmcore/numeric/newton/cnewton.pyx, mmcore/numeric/algorithms/cygjk.pyx"),
      ("improve_uv, inversion, closest point and marching steps", "mmcore/numeric/intersection, mmcore/numeric/closest_point.py, mmcore/geom/nurbs.pyx"),
      ("lookups returning None", "mmcore/ds, mmcore/numeric/algorithms")],
     ["feed singular, parallel or empty inputs and observe a TypeError far from its cause, or garbage results reported as success"],
     "path-sensitive interprocedural outcome (typestate) analysis",
     "A failure must be visible in what the function returns; a solver that returns a wrong number as if it had converged is not detected. A method called through a receiver of unknown class is not followed.")

prop("C24", "Small, singular, parallel and best are judged by magnitude",
     "Tests for degenerate, singular, parallel, equal or converged look at magnitudes: a determinant, dot product, component, pivot or difference that happens to be negative is never taken for "
     "a small one, on either side of zero the same tolerance applies, and pivots and best-conditioned coordinate pairs are chosen by the magnitude of their determinant. Mirrored, reversed, "
     "left-handed or negatively oriented input is treated like its mirror image.",
     ["inputs"], "every comparison with a tolerance and every choice by determinant in the packages, for inputs of either orientation and sign",
     "Tests use right-handed, increasing, positively oriented data, for which signed and absolute tests agree.",
     ["mmcore/numeric", "mmcore/geom", "mmcore/compat/step/step_writer.py", "mmcore/construction"],
     [("improve_uv", "mmcore/numeric/intersection/ssx, mmcore/geom/curves/offset.py"), ("parallel and singular tests", "mmcore/numeric/plane, mmcore/numeric/_aabb.pyx, mmcore/numeric/newton/bounded.py, mmcore/numeric/intersection/pp.py"),
      ("knot and end-parameter comparisons", "mmcore/geom/nurbs.pyx, mmcore/geom/curves/knot.py")],
     ["run the operation on mirrored input (swap u and v, negate a direction, reverse an order) and compare"],
     "abstract interpretation over signs",
     "Values whose sign is not derivable are not judged; whether a tolerance has a sensible size is not decided.")

prop("C25", "Formulas combine quantities of like dimension",
     "Geometric results do not depend on the unit of length or on how a parameter is scaled: every formula - curvatures, fundamental forms, Newton steps and convergence tests of inversions and "
     "closest points, projections, intersections of planes, rays, circles, triangles, marching steps, finite differences, interpolation - adds, subtracts, compares and takes angles only of "
     "quantities that change alike when lengths, u, v or t are rescaled; it hands them on in the argument places that mean them, and returns a quantity of the dimension it is named after.",
     ["inputs"], "every sum, difference, comparison, angle, formula call and named result whose parts have a derivable dimension, for every input",
     "Tests use shapes of size about one over parameter ranges of length one; a missing square, a swapped du and dv, a length compared with a derivative or a multiplied step then give numbers of the "
     "right size, or differ only where no test looks.",
     ["mmcore/geom/surfaces", "mmcore/geom/nurbs.pyx", "mmcore/geom/parametric.pyx", "mmcore/geom/curves", "mmcore/numeric"],
     [("fundamental forms and curvatures", "mmcore/geom/surfaces/fundamental_forms.py, mmcore/numeric/numeric.py"), ("inversions and Newton steps", "mmcore/numeric/algorithms/point_inversion.py, mmcore/geom/nurbs.pyx"),
      ("planes and projections", "mmcore/numeric/plane"), ("finite differences", "mmcore/geom/parametric.pyx, mmcore/geom/parametric.py, mmcore/numeric/fdm.py")],
     ["scale the input, or reparametrise it, and compare the rescaled results"],
     "abstract interpretation over physical dimensions",
     "Dimensions of formula arguments are a reviewed specification (sa/spec/dims.json); values whose dimension cannot be derived are not judged, and a wrong dimensionless factor is invisible.")

prop("C13", "Every computation ends",
     "No call runs for ever, whatever its input: every loop moves, on every way around it, something its exit depends on toward that exit; an iterative refinement "
     "(Newton steps, projections onto implicit curves and surfaces, foot points, adaptive integration, marching) whose convergence is not certain stops after a bounded "
     "number of rounds; subdivisions and searches halve their interval, empty their worklist or follow a link in each round; and every recursion works on a smaller "
     "problem or advances the depth it is limited by, in the direction of the limit.",
     ["inputs"], "every cycle of every loop and every recursive call, for every input (no root, parallel gradients, NaN, degenerate intervals included)",
     "A test that ends says nothing about the input for which the loop does not; the tests use convergent cases only.",
     ["mmcore/numeric", "mmcore/geom", "mmcore/ds"],
     [("iteration limits of refinements", "mmcore/numeric/algorithms/implicit_point.py, mmcore/numeric/calgorithms.pyx, mmcore/numeric/newton, mmcore/numeric/closest_point.py"),
      ("interval halving and worklists", "mmcore/numeric/divide_and_conquer.py, mmcore/numeric/bisection.py, mmcore/geom/bvh/__init__.py, mmcore/geom/nurbs.pyx find_span"),
      ("depth limits of subdivision", "mmcore/numeric/intersection/ssx/cydqr.pyx, dqr4.py, mmcore/geom/implicit/tree")],
     ["a call with an input that has no solution returns or raises"],
     "control-flow-graph progress analysis: measures of loops and recursions, cycles that move none of them",
     "Measures are recognised by form (counter against limit, container emptied, link followed, arithmetic halving or marching); six loops reviewed to converge by a numeric argument are held to the weaker "
     "rule that every round changes what the exit compares. Recursion through several functions and loops in third-party code are not judged.")

prop("C09", "Refinement never changes the shape",
     "Inserting knots, elevating the degree, splitting, trimming, reversing, decomposing into Bezier pieces, joining and re-parametrising leave the point set of curves and surfaces "
     "(rational ones included) unchanged; evaluation agrees with the definition (partition of unity, end-point interpolation, affine invariance) and derivatives agree with it.",
     ["inputs"], "all control nets, weights, degrees, knots and parameters",
     "The equality is an identity over real-valued inputs; tests check a few curves, mostly non-rational.",
     ["mmcore/geom/nurbs.pyx", "mmcore/geom/curves"],
     [("knot insertion, refinement, removal, degree elevation", "mmcore/geom/nurbs.pyx")],
     ["compare points before and after"],
     na="The equality of two rational functions of real inputs: it depends on the values computed by loops over runtime sizes, not on which data flow where (that part is C07, C08 and C25). Deciding it needs "
        "execution, symbolic execution or proof. (Seen while reading and not judged by any check: several refinement routines interpolate un-premultiplied control points of rational curves.)")

prop("C10", "Intersections and closest points are complete and lie on both operands",
     "Curve-curve, curve-surface, surface-surface, plane and implicit intersections report every intersection within the tolerance, once, with parameters that evaluate to the reported point on "
     "both operands; closest-point searches return the global minimum.",
     ["inputs"], "all pairs of operands and all tolerances",
     "Completeness is a statement about what was not found; the tests check counts for a few pairs.",
     ["mmcore/numeric/intersection", "mmcore/numeric/closest_point.py"],
     [("subdivision, bounding volumes, Newton refinement, marching", "mmcore/numeric/intersection")],
     ["evaluate both operands at the reported parameters"],
     na="Depends on the numerical convergence of subdivision and Newton steps on runtime geometry; no sound static bound on curvature, separation or condition is in reach. The parts that are structural - operands and "
        "parameters not interchanged, tolerances forwarded, failures not used as answers, no state between calls - are C08, C14, C17 and C16.")

prop("C11", "Results are within the tolerance asked for",
     "Solvers, inversions, quadratures, arc lengths and finite differences return results whose error is at most the tolerance given.",
     ["inputs"], "all functions, intervals and tolerances",
     "Error bounds hold or fail per function; tests sample smooth ones.",
     ["mmcore/numeric"],
     [("Newton, bisection, quadrature, finite differences", "mmcore/numeric")],
     ["compare with exact values"],
     na="An error bound on floating-point results of caller-supplied functions: a runtime quantity without a sound static argument. That the tolerance is used at all, forwarded, and compared with a magnitude of the right dimension is C14, C24 and C25.")

prop("C12", "Spatial indices and Booleans answer exactly their definition",
     "A tree query (BVH, R-tree, kd-tree, AVL, octree) returns exactly the objects a linear scan would; polygon and implicit Booleans, hulls and contours contain exactly the points their definition says.",
     ["inputs", "histories"], "all object sets, insertion orders and queries",
     "Equivalence with a linear scan over all insert/delete histories and coordinates.",
     ["mmcore/geom/bvh", "mmcore/ds", "mmcore/geom/polygon.py", "mmcore/geom/implicit"],
     [("pruning tests, rotations, splits", "mmcore/geom/bvh/__init__.py, mmcore/ds")],
     ["compare with a linear scan"],
     na="Functional correctness of comparisons over runtime coordinates and shapes of trees; a structural analysis cannot tell a right pruning test from a wrong one beyond the exchange of ends and axes (C08), signs (C24), progress (C13) and left-overs (C16).")
