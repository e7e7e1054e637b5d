#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, st, over, qt, why, files, mech, state=None, obs=None):
    a = {"files": ["pyproximal/" + f for f in files], "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": st, "quantifier": {"over": over, "text": qt},
              "why_tests_cant": why, "anchors": a})

p("C01", "Convex proximal maps return the minimiser of the documented objective",
  "For every convex penalty or loss in the library (l1 with optional shift and column weights, l2 data terms with any operator, data, linear term and inner solver, l2 deconvolution (its zero-padded periodic form), Euclidean norm, group and sparse-group norms, Huber and circular Huber, quadratic forms, nuclear norm, total variation), the proximal map at a point x with step tau>0 returns the minimiser of tau*f(z)+||z-x||^2/2, to the accuracy of its inner solver. Evaluating the operator at x returns the documented function value f(x). Both hold wherever x lies relative to thresholds and ties, for real (also integer-valued integer arrays) and, where the operator accepts them, complex or single-precision arrays.",
  ["inputs", "configurations"], "all finite inputs (including zeros, exact ties with the threshold and far-away points), all positive steps, all valid operator parameters and inner-solver choices",
  "The tests check mostly Moreau's identity, which holds for any map when the conjugate map is derived from it, and closed forms at a handful of random points; optimality must hold at every point, step and configuration.",
  ["proximal/L1.py", "proximal/L2.py", "proximal/L21.py", "proximal/L21_plus_L1.py", "proximal/Euclidean.py", "proximal/Huber.py", "proximal/Quadratic.py", "proximal/Nuclear.py", "proximal/TV.py"],
  [("soft/group thresholding", "proximal/L1.py, L21.py, L21_plus_L1.py, Euclidean.py"), ("regularised solves", "proximal/L2.py, Quadratic.py"), ("dual projected gradient", "proximal/TV.py")],
  obs=["return value of prox", "return value of calling the operator"])

p("C02", "Projections return the nearest point of the set, and membership tests agree",
  "For every set in the library (box, Euclidean, l1, nuclear-norm and l0 balls, half-space, affine set, simplex with both engines and row/column layouts, hyperplane-box, Hankel matrices, pairwise-distance intersections), the proximal map of its indicator, for any step, and the stand-alone projection return the point of the set closest to the input (for the group-sparsity ball: the input with only the allowed number of groups of largest l1 norm kept), leaving points that are already inside unmoved. Evaluating the indicator returns true for points of the set and false for points outside it by more than its tolerance, and true on the projection itself up to the projection's stopping accuracy.",
  ["inputs", "configurations"], "all inputs inside, on the boundary of and outside each set, all radii/bounds/levels including degenerate ones, all layouts and engines, all steps",
  "Tests project one or two random points and mostly check idempotence or the Moreau identity; the variational characterisation must hold for every point, in particular interior, boundary and tied ones.",
  ["projection/Box.py", "projection/Euclidean.py", "projection/HalfSpace.py", "projection/AffineSet.py", "projection/Simplex.py", "projection/L0.py", "projection/L1.py", "projection/Nuclear.py", "projection/Hankel.py", "projection/Intersection.py", "proximal/Simplex.py", "proximal/_Simplex_numba.py", "proximal/L0.py"],
  [("clamping, scaling, bisection on the multiplier, sorting, averaging", "projection/*.py"), ("indicator evaluation", "proximal/{Box,Euclidean,HalfSpace,AffineSet,Simplex,L0,L1,Nuclear,Hankel,Intersection}.py")],
  obs=["return value of prox / of the projection", "boolean returned by calling the operator"])

p("C03", "Non-convex penalties return the global minimiser or documented threshold",
  "For the logarithmic, Geman, exponential-type, SCAD, relaxed Mumford-Shah, cardinality- and rank-envelope penalties, and for such penalties applied to singular values, the proximal map returns a global minimiser of tau*f(z)+||z-x||^2/2 for every input, positive parameters and step (SCAD: steps below a-1), and for the l0 penalty and the second logarithmic penalty it returns the documented thresholding rule (the latter for delta below sqrt(2*tau*sigma)). The result keeps the sign or phase of every entry, never exceeds it in magnitude, and evaluating the documented separable penalties returns their documented value.",
  ["inputs", "configurations"], "all inputs including ties between the two candidate minimisers, zeros and large entries; all positive steps; all valid parameters",
  "Tests compare with one grid search or check one threshold; the discontinuous branch choices must be right for every input and step.",
  ["proximal/Log.py", "proximal/Geman.py", "proximal/ETP.py", "proximal/SCAD.py", "proximal/RelaxedMS.py", "proximal/QuadraticEnvelope.py", "proximal/SingularValuePenalty.py", "proximal/L0.py"],
  [("stationary-point selection", "proximal/{Log,Geman,ETP,SCAD,RelaxedMS,QuadraticEnvelope}.py")], obs=["return value of prox", "return value of calling the operator"])

p("C04", "Moreau decomposition links each prox, its conjugate and its adjoint view",
  "For every operator, prox_{tau f}(x) + tau*prox_{f*/tau}(x/tau) = x for all x and tau>0, whether the conjugate map is given in closed form or derived, and also for an operator that only defines one of the two maps; for convex f the conjugate map is the proximal map of the Fenchel conjugate. The adjoint view of an operator swaps the two maps exactly and swapping twice gives back the original, and for operators without a gradient of their own the gradient is that of their Moreau envelope.",
  ["inputs", "configurations"], "all operators incl. composite ones, all inputs (real and complex where supported), all positive steps and parameters",
  "Tests check the identity at one random point per operator with tau=2; closed-form conjugate maps must agree for every point, step, weight and shift.",
  ["ProxOperator.py", "proximal/L1.py", "proximal/L21.py", "proximal/Euclidean.py", "utils/moreau.py"],
  [("generic Moreau fallback", "ProxOperator.py:_prox_moreau,_proxdual_moreau"), ("closed-form conjugates", "proximal/{L1,L21,Euclidean}.py:proxdual"), ("adjoint wrapper", "ProxOperator.py:_AdjointOperator"), ("envelope gradient", "ProxOperator.py:grad"), ("identity test", "utils/moreau.py")],
  obs=["return values of prox, proxdual, grad, H, moreau"])

p("C05", "Operator algebra denotes the composed function",
  "Adding or subtracting a vector, scaling by a positive scalar (also written with an integer), pre-composing with a scaling and shift, composing with a fully or partially orthogonal linear operator, stacking over index blocks or restrictions and chaining, alone or nested in any order, yield an operator whose value, proximal map and (where defined) gradient are those of the composed function f(x)+v'x, s*f(x), f(ax+b), f(Qx+b), sum of f_i(x_i), respectively the sequential application of the two maps. Building or using a composite never changes the operators it was built from.",
  ["programs", "inputs"], "all expression trees over the algebra up to the explored depth, all leaves, all inputs and steps",
  "Tests exercise each combinator once over one leaf; the laws must hold for every nesting, leaf, scale and shift.",
  ["ProxOperator.py", "proximal/Orthogonal.py", "proximal/VStack.py"],
  [("combinators", "ProxOperator.py:_SumOperator,_PostcompositionOperator,_PrecompositionOperator,_ChainOperator"), ("linear composition", "proximal/Orthogonal.py"), ("stacking", "proximal/VStack.py")],
  obs=["return values of composite operators"])

p("C06", "Gradients are the derivatives of the evaluated functions",
  "For every operator that offers a gradient of its own (l2 data terms, quadratic forms, deconvolution, Euclidean norm, low-rank bilinear misfit, stacked, shifted, scaled and pre-composed operators, user-defined nonlinear functions), the returned gradient is the derivative of the value returned by evaluating the operator at the same point; for the bilinear misfit this holds for both factors, jointly and partially, and its Lipschitz bounds are valid bounds. The user-defined nonlinear operator hands its optimiser the proximal objective f(z)+||z-x||^2/(2 tau) and that objective's gradient.",
  ["inputs", "configurations"], "all points where the function is differentiable, all operators, data terms, linear terms and weights",
  "Tests compare one random directional finite difference per operator with a loose tolerance.",
  ["proximal/L2.py", "proximal/Quadratic.py", "proximal/Euclidean.py", "proximal/Nonlinear.py", "utils/bilinear.py", "proximal/VStack.py", "ProxOperator.py"],
  [("analytic gradients", "grad methods"), ("bilinear gradients", "utils/bilinear.py"), ("proximal objective", "proximal/Nonlinear.py")], obs=["return values of grad/gradx/grady/lx/ly and of the operator"])

p("C07", "Invalid arguments are rejected before any result is produced",
  "A zero or negative step is rejected with a value error by the proximal and conjugate maps of every operator, simple or composite, however the step is passed (scalar, array, positional or by name). Constructors and solvers reject the inputs they document as invalid: negative penalty parameters, unknown inner solvers, engines or acceleration names, non-square quadratic forms, combinator arguments of the wrong type, missing block sizes or wrong-sized vectors for stacks, empty operator lists, missing starting points and (generalized proximal gradient) weights of wrong length or not summing to one. Valid arguments next to those limits (for example default weights for any number of terms) are accepted.",
  ["inputs", "configurations"], "every operator and solver, every documented invalid argument class and its valid neighbours",
  "Tests check one invalid step on a few operators; the guard must be present on every public map of every operator.",
  ["ProxOperator.py", "proximal/VStack.py", "proximal/L2.py", "proximal/Quadratic.py", "proximal/Log.py", "proximal/ETP.py", "proximal/Geman.py", "proximal/SCAD.py", "proximal/Simplex.py", "proximal/_Dykstra.py", "optimization/primal.py"],
  [("step guard", "ProxOperator.py:_check_tau"), ("argument checks", "constructors; primal.py:_x0z0_init")], obs=["exception raised or value returned"])

p("C08", "Scheduled parameters follow the call count; other history changes no result",
  "An operator whose weight, radius or inner-iteration count is given as a function uses, in its n-th proximal call, the value of that function at n (first call: 1), regardless of interleaved evaluations or gradient calls (a conjugate or envelope-gradient call that is derived from the proximal map counts as one proximal call), and independently of other instances. For every operator, the sequence of calls made before (other points, other steps, evaluations, warm starts, cached factorisations) never changes the result of a call beyond inner-solver accuracy, and two interleaved instances behave as if used alone.",
  ["histories"], "all finite sequences of prox, conjugate, evaluation and gradient calls over one or two instances, with changing points and steps, up to the explored length",
  "Tests make one or two calls on a fresh instance; history independence quantifies over call sequences.",
  ["proximal/L0.py", "proximal/L1.py", "proximal/L2.py", "proximal/RelaxedMS.py", "proximal/TV.py", "proximal/Quadratic.py", "proximal/Huber.py", "proximal/Sum.py"],
  [("call counters", "_increment_count in L0, L1, L2, RelaxedMS, TV"), ("warm start and cached Cholesky factor", "proximal/L2.py, Quadratic.py")],
  state=[("count", "number of proximal calls so far", "L0/L1/L2/RelaxedMS/TV"), ("x0, tausigma, cl", "warm start and cached factorisation", "proximal/L2.py")],
  obs=["return values along a call history"])

p("C09", "No call modifies the caller's arrays",
  "No operator evaluation, proximal, conjugate, gradient or projection call and no solver run changes the contents of any array the caller passed in: the point, starting points, data, weights, shifts, bounds, step and schedule arrays, class levels and factor matrices are bit-for-bit the same afterwards, also when the linear operator returns its input array itself. Modifying a returned result in place afterwards changes neither the arguments nor later results, except where a map hands back its very input because the result equals it (a projection of an inside point, the zero penalty), and except the factors a bilinear operator shares with its user.",
  ["inputs", "histories"], "all public operators and solvers, all argument arrays, including aliasing linear operators (identity)",
  "Tests never compare argument arrays before and after a call, and an aliasing write stays invisible until the array is reused.",
  ["proximal/L2.py", "projection/Intersection.py", "proximal/Orthogonal.py", "proximal/_Dykstra.py", "optimization/primaldual.py", "optimization/primal.py", "optimization/palm.py", "optimization/sr3.py"],
  [("copies of inputs", "x0.copy() in the solvers, fresh arrays in prox")], obs=["argument arrays before/after the call"])

p("C10", "Proximal-point and proximal-gradient solvers follow their documented recursions",
  "The iterates passed to the callback and the returned point of the proximal-point, proximal-gradient (fixed step, one step per right-hand side, backtracking, relaxation, Vandenberghe and FISTA acceleration, scalar or per-iteration regularisation weight), Anderson-accelerated, TwIST and generalized proximal-gradient (several smooth and several non-smooth terms, weights, relaxation, acceleration) solvers are exactly those of the documented recursion from the given start, for every combination of options. With backtracking the step only ever shrinks by the given factor until the sufficient-decrease test holds or the backtracking budget is exhausted. A bilinear smooth term is left holding the returned factors.",
  ["configurations", "inputs"], "all option combinations, starting points, steps and operators; every iteration of the run",
  "Tests check that a few configurations approach a reference solution; a wrong momentum, weight index or step still converges on the tested problem.",
  ["optimization/primal.py"],
  [("ProximalPoint, ProximalGradient, AndersonProximalGradient, GeneralizedProximalGradient, TwIST", "optimization/primal.py")],
  obs=["callback iterates", "returned values"])

p("C11", "Two-block splitting solvers follow their documented recursions",
  "The iterates reported and returned by half-quadratic splitting, ADMM, ADMM with least-squares data term, linearized ADMM and Douglas-Rachford splitting are exactly those of the documented recursion (same order of the two blocks as selected, same dual update, same relaxation, per-iteration steps where accepted), for every choice of order flag, start for either block, step and operator pair. The second block reported and returned is the one the same iteration computed.",
  ["configurations", "inputs"], "all option combinations (order, given/missing starts, steps, callbacks with the second block, non-square linear operators) and every iteration",
  "Tests compare final results of two solvers on one problem, where wrong dual updates or stale blocks vanish at convergence.",
  ["optimization/primal.py"], [("HQS, ADMM, ADMML2, LinearizedADMM, DouglasRachfordSplitting", "optimization/primal.py")],
  obs=["callback iterates", "returned values"])

p("C12", "Multi-block parallel solvers follow their documented recursions",
  "The iterates reported and returned by the parallel proximal algorithm (equal or given weights, relaxation, single, stacked or listed starting points) and by consensus ADMM are exactly those of the documented recursion for any number of functions, and the run stops exactly at the first iteration whose largest change is below the tolerance (never before, not at all when no tolerance is given) or at the iteration limit. Permuting the functions together with their weights does not change the result.",
  ["configurations", "inputs"], "all numbers of functions, weights, relaxations, starts, tolerances, and every iteration",
  "Tests solve one two- and one three-term problem with default weights to convergence.",
  ["optimization/primal.py"], [("PPXA, ConsensusADMM", "optimization/primal.py")], obs=["callback iterates", "returned values"])

p("C13", "Primal-dual solvers follow their documented recursions",
  "The primal (and dual) iterates reported and returned by the primal-dual solver (either order, scalar or per-iteration steps, over-relaxation, dual start, additional linear term) and by its adaptive variant, including its step-size and adaptivity sequences and its residual-based stopping, are exactly those of the documented recursion for any linear operator, square or not. The segmentation driver returns the class probabilities of that recursion for its documented model and, per pixel, the most probable class.",
  ["configurations", "inputs"], "all option combinations, linear operators, extra terms and every iteration; all small images, class levels and class variances for segmentation",
  "Tests compare final iterates on one problem; wrong extrapolation, residuals or step updates only change the path.",
  ["optimization/primaldual.py", "optimization/segmentation.py"], [("PrimalDual, AdaptivePrimalDual", "optimization/primaldual.py"), ("Segment", "optimization/segmentation.py")],
  obs=["callback iterates", "returned values and step histories"])

p("C14", "Alternating linearized solvers follow their documented recursions",
  "The pairs of factors reported and returned by the alternating linearized solver and its inertial variant, with fixed step factors or backtracking for either factor and with or without a non-smooth term on either factor, are exactly those of the documented recursion started from the given factors (as long as the step bounds do not vanish): each factor's gradient is taken at the latest value of the other, its own non-smooth term is used, and each solve depends only on its arguments, not on earlier solves with the same bilinear operator. The bilinear operator's stored factors equal the returned ones after the run.",
  ["configurations", "histories"], "all option combinations, factor sizes, repeated solves with one bilinear operator, every iteration",
  "Tests run one factorisation per solver and check that the misfit became small.",
  ["optimization/palm.py", "utils/bilinear.py"], [("PALM, iPALM, _backtracking", "optimization/palm.py"), ("LowRankFactorizedMatrix", "utils/bilinear.py")],
  obs=["callback iterates", "returned values", "H.x, H.y"])

p("C15", "Outer drivers (Bregman, plug-and-play, SR3) follow their documented recursions",
  "The Bregman driver reports and returns the outer iterates of the documented iteration (subgradient accumulated with the given coefficient, inner solver started from the previous iterate only when warm starting is on, stopping on small change or small function value); the plug-and-play driver is the chosen solver run with the given denoiser, called with the reshaped image and the step, as its second proximal map, and the sparse relaxed regularisation solver returns the result of its documented accelerated alternating scheme with adaptively accurate inner solves.",
  ["configurations", "inputs"], "all inner solvers and option combinations, denoisers and image shapes, regularisation operators, every outer iteration",
  "Tests check one Bregman, one plug-and-play and one SR3 problem for approximate recovery.",
  ["optimization/bregman.py", "optimization/pnp.py", "optimization/sr3.py"], [("Bregman", "optimization/bregman.py"), ("PlugAndPlay, _Denoise", "optimization/pnp.py"), ("SR3", "optimization/sr3.py")],
  obs=["outer callback iterates", "denoiser arguments", "returned values"])

p("C16", "Dykstra operators compute the prox of a sum, or the nearest common point",
  "For convex terms the sum operator's proximal map is that of the sum of its terms (parallel variant with the original-step option: of the weighted sum), and the generic intersection returns the nearest point of the intersection of its sets, for one, two or more terms, in the sequential and parallel variants, for any valid weights, to the given tolerance. Evaluating the sum returns the sum of the finite terms, false if any indicator fails and true if there are only satisfied indicators, and evaluating the intersection tells whether the point is in every set.",
  ["inputs", "configurations"], "all lists of one to four convex terms or sets, weights, tolerances, inputs inside and outside, all steps",
  "Tests cover a few pairs and triples at random points; correctness of the increments shows only for non-orthogonal or non-nested sets and enough iterations.",
  ["proximal/Sum.py", "proximal/_Dykstra.py", "proximal/GenericIntersection.py", "projection/GenericIntersection.py"],
  [("Dykstra iterations", "proximal/_Dykstra.py"), ("value combination", "proximal/Sum.py:__call__")], obs=["return values of prox, projection, evaluation"])

p("C17", "Iteration protocol: callbacks, stopping and printing never alter the computation",
  "Every iterative solver calls its callback exactly once per completed iteration with that iteration's iterate, in order, performs at most the requested number of iterations, and returns the iterate of its last callback; with a tolerance it stops at the first iteration meeting the documented criterion and not before. Turning printing, callbacks or cost recording on or off, for any iteration count, changes neither the number of iterations nor any iterate or returned value.",
  ["configurations", "histories"], "all solvers, iteration counts from 1 to beyond the printing strides, tolerances at, above and below the observed changes, with and without callbacks and printing",
  "Tests run with show=True only for a few counts and never compare runs with and without it; off-by-one and observer effects depend on iteration count and tolerance.",
  ["optimization/primal.py", "optimization/primaldual.py", "optimization/palm.py", "optimization/bregman.py", "optimization/segmentation.py"],
  [("iteration loops", "optimization/*.py")], obs=["callback sequence", "returned values"])

p("C18", "Solvers converge to a minimiser and stay there",
  "On convex problems with steps inside their documented convergence range, every solver's iterates approach a minimiser of the documented composite objective: the distance that its theory declares monotone never increases beyond rounding, the objective gap and the optimality residual become small, and a run started at a minimiser (with matching auxiliary variables where the solver accepts them) stays there. Different solvers applied to the same problem agree on the minimiser.",
  ["inputs", "configurations"], "all small strongly convex test problems and step sizes in range, all solvers and option combinations",
  "Tests compare pairs of solvers on one problem with loose tolerances.",
  ["optimization/primal.py", "optimization/primaldual.py"], [("solver recursions", "optimization/*.py")], obs=["callback iterates", "returned values"])

p("C19", "The self-test helpers give the right verdict",
  "The Moreau test accepts exactly the operators whose two maps satisfy the Moreau identity at the given point and step within the given tolerance, and the proximal and bilinear gradient tests accept exactly when the analytic derivative agrees, within the given tolerances, with the finite difference taken along the coordinate (and real or imaginary direction) they drew; on disagreement they raise, or return false when asked not to raise. Over repeated tests every coordinate, both factors and, for complex points, both directions are tried, so an error in a single entry is found. The tested point and the tested operator are left as they were.",
  ["inputs", "configurations"], "all operators right or wrong in one entry by more than the tolerance, all points, steps, tolerances and flag combinations",
  "Tests use the helpers only on correct operators; a helper that accepts everything passes every existing test.",
  ["utils/moreau.py", "utils/gradtest.py"], [("verdicts", "utils/moreau.py, utils/gradtest.py")], obs=["verdict returned or raised", "calls received by the tested operator"])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q) + "\n")
print(len(P))
