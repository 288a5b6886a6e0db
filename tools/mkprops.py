#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
B = "pyproximal/"
PX = B + "proximal/"
PJ = B + "projection/"
OP = B + "optimization/"
P = []
def p(id, title, statement, over, text, why, files, mech, obs=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=obs or [], hook_needed=None))
    if state:
        d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

p("P01", "Proximal step of a convex functional is the true minimiser",
  "For every convex functional the library offers, every input vector and every positive step size, the point returned by its proximal operation minimises the functional plus the squared distance to the input divided by twice the step size. No other point, including the exact answer computed by an independent method, has a lower objective beyond the accuracy of the documented inner solver. This covers every option of the functional (offsets, weights, linear terms, forward operators, groupings, dimensions).",
  ["inputs", "configurations"], "all convex functionals x all their options x all real inputs x all steps tau>0, including threshold-adjacent, zero, tied, tiny and huge inputs",
  "The tests check Moreau's identity (which holds by construction for the default dual) or one hand-computed vector per functional, with one tau; a wrong threshold, factor or branch boundary satisfies them.",
  [PX + f for f in ("L1.py","L2.py","L21.py","L21_plus_L1.py","Huber.py","Euclidean.py","Quadratic.py","Nuclear.py","Nonlinear.py","Orthogonal.py","VStack.py")],
  [("closed-form or inner-solve proximal formula", "the prox method of each functional"), ("soft thresholding", PX + "L1.py")],
  ["return value of prox"])
p("P02", "Proximal step of a non-convex penalty is a global minimiser",
  "For every non-convex penalty the library offers (thresholding, concave, capped-quadratic and quadratic-envelope penalties), every input and every positive step size, the returned point attains the global minimum of the penalty plus the squared distance to the input divided by twice the step size, not merely a stationary point. Where two global minimisers tie, either may be returned. Where the documentation defines the operation by a formula whose scaling differs from this definition, the documented formula holds.",
  ["inputs", "configurations"], "all non-convex penalties x parameters x inputs (both sides of every jump and branch boundary) x tau>0",
  "Tests compare with a coarse grid search or check Moreau at a few random points; jumps between local and global minimisers are in narrow parameter bands that random unit-normal vectors with tau=1 miss.",
  [PX + f for f in ("L0.py","ETP.py","Geman.py","Log.py","SCAD.py","RelaxedMS.py","QuadraticEnvelope.py","SingularValuePenalty.py")],
  [("selection between stationary point and zero", "prox of each penalty"), ("hard threshold", PX + "L0.py"), ("search for the level s", PX + "QuadraticEnvelope.py")],
  ["return value of prox"])
p("P03", "Projections return the nearest point of their set",
  "For every set the library can project on and every input, the projection lies in the set, leaves members of the set where they are, is idempotent, and no member of the set is closer to the input, to within the solver accuracy the caller chose. The proximal operation of a set's indicator is this same projection whatever the step size.",
  ["inputs", "configurations"], "all sets (box, hyperplane-box, simplex, l0/l1/l1-0 balls, Euclidean ball, nuclear ball, half space, affine set, Hankel matrices, pairwise-difference set, intersections) x parameters x inputs inside, on and outside",
  "Tests project one or two random points and check feasibility only; an operation that returns a feasible but not nearest point, or that moves members of the set, passes.",
  [PJ + f for f in ("Box.py","Simplex.py","L0.py","L1.py","Euclidean.py","Nuclear.py","HalfSpace.py","AffineSet.py","Hankel.py","Intersection.py","GenericIntersection.py")] + [PX + f for f in ("Box.py","Simplex.py","L0.py","L1.py","Euclidean.py","Nuclear.py","HalfSpace.py","AffineSet.py","Hankel.py","Intersection.py")],
  [("projection call", "pyproximal/projection/*.py"), ("bisection on the multiplier", PJ + "Box.py")], ["projection return value", "prox of the indicator"])
p("P04", "Functional values and membership answers match their definition",
  "Evaluating a functional returns the value of its documented mathematical definition at that point, for every option it takes. Evaluating an indicator answers yes for points of the set and no for points clearly outside it, and the point returned by its proximal operation is always answered yes within the documented tolerance.",
  ["inputs", "configurations"], "all functionals and indicators x options x inputs (members, boundary-near, clear non-members)",
  "Tests evaluate few functionals at all and indicators at one member and one non-member; solvers use the values for backtracking and stopping, so a wrong value silently changes results.",
  [PX + "L1.py", PX + "L2.py", PX + "Nuclear.py", PX + "L21.py", PX + "TV.py", PX + "Simplex.py", PX + "L0.py", PX + "Sum.py", PX + "VStack.py"],
  [("__call__ of each functional", "pyproximal/proximal/*.py")], ["return value of __call__"])
p("P05", "Proximal and dual proximal steps satisfy the Moreau decomposition",
  "For every convex functional, input and positive step, the proximal step plus the step times the dual proximal step at the rescaled point gives back the input, whether the dual step is derived or has its own closed form. The dual step is the proximal step of the convex conjugate, and the dual view of an operator swaps the two exactly.",
  ["inputs", "configurations"], "all convex functionals (closed-form and derived duals) x offsets, weights, schedules x real and complex inputs x tau>0",
  "The identity is tautological for derived duals; tests exercise the closed-form duals only with default offsets, scalar weights and tau near 1, and never against an independently computed conjugate.",
  [B + "ProxOperator.py", PX + "L1.py", PX + "L21.py", PX + "Euclidean.py"],
  [("Moreau conversions", B + "ProxOperator.py"), ("closed-form proxdual", PX + "L1.py")], ["prox", "proxdual", "adjoint view"])
p("P06", "Convex proximal steps and projections are firmly nonexpansive",
  "For every convex functional or set and any two inputs, the squared distance between the two proximal steps never exceeds their inner product with the input difference, so proximal steps never spread points apart and are monotone. Residuals and dual steps inherit the same inequality.",
  ["inputs"], "all pairs of inputs (including close pairs straddling branch boundaries and extreme magnitudes) x all convex functionals and sets x tau>0",
  "A pairwise inequality over all input pairs; tests evaluate single points. A discontinuity or misplaced branch boundary shows only for pairs that straddle it.",
  [PX + f for f in ("Huber.py","L1.py","L21.py","Euclidean.py","Nuclear.py","TV.py")] + [PJ + "Box.py", PJ + "L1.py"],
  [("continuity of piecewise formulas", "prox methods")], ["prox", "proxdual", "projections"])
p("P07", "Gradients are the derivative of the functional they belong to",
  "Every functional that declares a gradient returns the derivative of its own value (or, when it offers no gradient of its own, the derivative of its Moreau envelope with the configured envelope parameter) at every point where that derivative exists. This holds through sums with vectors, scalings, compositions with affine maps, stacking, and for real and complex variables.",
  ["inputs", "configurations"], "all functionals with gradients x options x derived operators x points",
  "The gradient test samples one coordinate of one random point with loose tolerances for four functionals; derived operators, dimension axes and the default envelope gradient are unsampled.",
  [B + "ProxOperator.py", PX + "L2.py", PX + "Quadratic.py", PX + "Euclidean.py", PX + "VStack.py", PX + "Orthogonal.py"],
  [("grad methods", "proximal/*.py"), ("Moreau-envelope gradient", B + "ProxOperator.py")], ["grad", "__call__"])
p("P08", "Operator algebra gives the operator of the composed functional",
  "Adding or subtracting a vector, scaling by a positive number, composing with a scalar affine map, chaining, stacking by lengths or index sets, composing with an orthogonal or semi-orthogonal map, and nesting these to any depth, yields an operator whose value, proximal step, dual step and gradient are those of the composed functional. Building such an operator does not alter its ingredients.",
  ["programs", "inputs"], "all expression trees over the algebra and base functionals x inputs x tau>0",
  "Tests build each combinator once over L1 or L2 at depth one; wrong scaling of the step inside nested combinators needs depth two or non-unit coefficients to show.",
  [B + "ProxOperator.py", PX + "VStack.py", PX + "Orthogonal.py"],
  [("derived operator classes", B + "ProxOperator.py")], ["value/prox/proxdual/grad of derived operators"])
p("P09", "Non-positive step sizes are always rejected, without side effects",
  "Every proximal and dual proximal operation of every operator, basic or derived, raises a value error when the step size, or any component of a vector step size, is zero or negative, and accepts every positive step size. A rejected call leaves the operator's later answers exactly as if the call had not been made.",
  ["inputs", "configurations"], "all operators (basic, derived, dual view, stacks, sums, plug-and-play wrappers) x prox/dual x scalar or array steps x position of the bad component x positional or keyword passing",
  "Tests try tau=-1 and 0 on a handful of operators positionally; derived operators, vector steps with a single bad entry, keyword passing and the effect of a rejected call on counters are unsampled.",
  [B + "ProxOperator.py"] + [PX + f for f in ("L1.py","L0.py","L2.py","TV.py","RelaxedMS.py")] + [OP + "pnp.py"],
  [("step-size guard decorator", B + "ProxOperator.py")], ["exceptions raised", "later proximal steps"])
p("P10", "Caller-owned arrays are never modified",
  "No evaluation, proximal or dual step, gradient, projection, solver run or verification utility changes any array the caller passed in or configured an operator with (inputs, starting points, data, offsets, weights, schedules, step arrays), even when linear operators return their argument unchanged. Read-only arrays are accepted wherever arrays are accepted.",
  ["inputs", "configurations", "programs"], "all public entry points x options x aliasing linear operators (in-place identity) x write-protected inputs",
  "Tests never re-inspect inputs after a call; mutation shows only when the same array is reused, which in an iterative solver silently corrupts later iterations.",
  [PX + f for f in ("L2.py","Orthogonal.py","Huber.py","SCAD.py","_Dykstra.py")] + [PJ + "Intersection.py", OP + "primaldual.py", OP + "primal.py", OP + "palm.py", OP + "sr3.py", B + "utils/gradtest.py"],
  [("copies before in-place updates", "throughout")], ["bytes of every argument before/after each call"])
p("P11", "Operator answers depend only on arguments, not on call history",
  "Apart from documented counters and warm starts, what an operator returns depends only on its configuration and the arguments of that call: interleaving other evaluations, gradients, proximal steps with other steps sizes, copies or concurrent use from several threads gives the same answers as a fresh operator. Warm starts change a result only within the accuracy of the inner solver, and arrays already returned to the caller never change later.",
  ["histories", "schedules"], "all call sequences (value/prox/dual/grad with changing tau) over all operators, including cached factorisations, warm starts, deep copies, and thread interleavings",
  "Tests call each operator once or with constant tau; stale caches, aliasing of internal state with returned arrays and cross-call leakage need multi-call histories with changing arguments.",
  [PX + "L2.py", PX + "Quadratic.py", PX + "Nonlinear.py", PX + "TV.py", PX + "L0.py", PJ + "L0.py", PX + "Simplex.py"],
  [("factor cache keyed on step", PX + "L2.py"), ("warm start", PX + "L2.py")], ["prox results over histories"],
  [("x0 / warm start", "start of the inner solver", PX + "L2.py"), ("cl, tausigma", "cached Cholesky factor and its key", PX + "L2.py")])
p("P12", "Parameter schedules advance exactly once per proximal step",
  "When a parameter is given as a function of a counter (weight, radius, threshold, number of inner iterations), the k-th proximal step uses the value scheduled for k, values are read with the schedule position reached so far, and nothing but an accepted proximal step advances the position. Inside a solver the position therefore equals the number of proximal steps the solver has taken on that operator.",
  ["histories"], "all interleavings of value, dual, gradient and proximal calls and rejected calls x all schedulable parameters x direct use and use in solvers",
  "Tests use a constant-valued schedule or one call; off-by-one positions, double increments through derived operators and advances on rejected calls need counted histories.",
  [PX + f for f in ("L1.py","L0.py","L2.py","TV.py","RelaxedMS.py")],
  [("counter decorator", "each schedulable functional")], ["arguments received by the schedule", "prox results"],
  [("count", "number of proximal steps taken", PX + "L1.py")])
p("P13", "Sums and intersections combine several functionals or sets correctly",
  "The proximal step of a sum of convex functionals converges to the minimiser of the whole sum plus the proximity term, and the projection on an intersection of convex sets converges to the nearest common point, for any number of terms, any order, any admissible weights, and for both the sequential and the parallel engine. Values of a sum are the sum of the values, false if any indicator is false.",
  ["inputs", "configurations"], "1..5 terms x orders x engines x weights x inputs x tau>0, with enough inner iterations",
  "Tests check two-term sums against one hand solution and that intersections are feasible; the correction terms that turn alternating projections into the nearest-point method only matter for points where the two differ.",
  [PX + "Sum.py", PX + "_Dykstra.py", PX + "GenericIntersection.py", PJ + "GenericIntersection.py", PJ + "Intersection.py"],
  [("Dykstra corrections", PX + "_Dykstra.py")], ["prox/projection results", "inner iterates via instrumented terms"])
p("P14", "Matrix functionals act on singular values and commute with rotations",
  "For matrix functionals and sets defined through singular values, multiplying the input on either side by orthogonal (unitary) matrices multiplies the proximal step the same way and leaves the value unchanged, the singular vectors are preserved, and the singular values are those of the corresponding vector operation. This holds for tall, wide and square shapes, rank-deficient inputs and per-value weights.",
  ["inputs", "configurations"], "shapes (tall/wide/square/single row) x ranks x weights x real and complex matrices x tau>0",
  "Tests use one or two fixed real shapes and check Moreau; wide matrices, rank deficiency, weights and complex matrices are unsampled.",
  [PX + "Nuclear.py", PX + "SingularValuePenalty.py", PX + "QuadraticEnvelope.py", PJ + "Nuclear.py", PJ + "Hankel.py"],
  [("SVD transfer", PX + "Nuclear.py")], ["prox, value"])
p("P15", "Interchangeable engines and inner solvers give the same answer",
  "Options that select an implementation and not a problem (interpreted or compiled simplex projection and its axis layout, dense, factorised or iterative least-squares solves with any inner solver, explicit or matrix-free operators, cached or fresh factorisations, sequential or parallel combination) agree with each other to the requested accuracy on every input. The compiled code performs no out-of-bounds access.",
  ["configurations", "inputs"], "all engine pairs x shapes/axes/radii x inputs x tau sequences; compiled kernels also under bounds checking",
  "Tests compare engines on one random input of one shape; changing tau with a cached factor, other axes, non-unit radii and offsets with linear terms are unsampled.",
  [PX + "Simplex.py", PX + "_Simplex_numba.py", PX + "L2.py", PX + "Quadratic.py", PX + "Sum.py"],
  [("engine dispatch", PX + "Simplex.py"), ("solver dispatch", PX + "L2.py")], ["prox results per engine"])
p("P16", "Proximal-gradient solvers follow their documented recursion exactly",
  "Starting from the same point with the same step, weight, relaxation, acceleration, backtracking, history and stopping options, each iterate of the proximal-point, (accelerated, generalised, Anderson-accelerated) proximal-gradient and two-step shrinkage solvers equals the iterate of the documented recursion. This holds for every iteration and option combination, not only in the limit.",
  ["configurations", "histories", "inputs"], "all option combinations (tau fixed/None, backtracking, beta, eta, acceleration, per-iteration epsg, nhistory, safeguard, weights) x problems x iterations",
  "Tests compare final points of a few option sets at loose tolerance; a wrong momentum index, lost step-size memory or swapped argument still converges.",
  [OP + "primal.py"],
  [("iteration loops", OP + "primal.py"), ("backtracking line search", OP + "primal.py")], ["callback iterates", "instrumented prox/grad calls"])
p("P17", "Splitting solvers follow their documented recursion exactly",
  "Each iterate of half-quadratic splitting, ADMM (plain, least-squares, linearised), Douglas-Rachford, the parallel proximal algorithm and consensus ADMM equals the iterate of the documented recursion for the given starting points, step, relaxation, order of updates and weights. This includes auxiliary variables and every iteration, for any linear operator.",
  ["configurations", "histories", "inputs"], "all option combinations (order of updates, x0/z0 given or derived, variable tau, relaxation, weights) x problems x iterations",
  "Tests compare limits between solvers for one problem each with defaults; order options, given auxiliary starts, non-uniform weights and non-square operators are unsampled.",
  [OP + "primal.py"],
  [("iteration loops", OP + "primal.py"), ("starting-point derivation", OP + "primal.py")], ["callback iterates", "instrumented prox calls"])
p("P18", "Primal-dual solvers follow their recursion and conserve step sizes",
  "Each iterate of the primal-dual solvers equals the iterate of the documented recursion for any linear operator, linear term, order of updates, extrapolation and fixed or per-iteration steps. In the adaptive version the product of the two steps is conserved, the adaptation level never increases, a step changes only when the documented residual comparison demands it, and the recorded histories have one entry per iteration plus the start. Steps reach the functionals as the positive real numbers given, whatever the type of the start.",
  ["configurations", "histories", "inputs"], "gfirst x theta x z x y0 x scalar/array steps x operators (square and rectangular) x iterations; adaptive parameters s, delta, alpha, eta, tol",
  "Tests run two problems with defaults and compare limits; the linear term, dual start, rectangular operators and the adaptation law are unsampled.",
  [OP + "primaldual.py"],
  [("iteration loops", OP + "primaldual.py"), ("residual balancing", OP + "primaldual.py")], ["callback iterates", "returned step histories"],
  [("tau, mu, alpha", "adaptive steps", OP + "primaldual.py")])
p("P19", "Solvers converge to the optimum of the problem they document",
  "Given step sizes in the documented admissible range and enough iterations, every solver reaches a point that satisfies the optimality conditions of the objective its documentation states, for any starting point, and all solvers applicable to the same problem agree on its optimum. Relaxation, acceleration, update order, weights, warm auxiliary starts and linear terms change the path but not the limit.",
  ["configurations", "inputs"], "all solvers x option combinations x strongly convex test problems with independently computed optimum x starts; convergence restated as distance after a bounded number of iterations",
  "Tests check agreement of a few solvers on one problem with decimal=2 and default options.",
  [OP + "primal.py", OP + "primaldual.py", OP + "sr3.py", OP + "bregman.py"],
  [("fixed points of the recursions", OP + "primal.py")], ["returned points", "optimality residuals"])
p("P20", "Monotone quantities of the algorithms never move the wrong way",
  "Along every run, the objective never increases for unaccelerated proximal gradient with admissible or backtracked steps, alternating linearised minimisation and half-quadratic splitting of its penalised objective, and the distance to a solution never increases for the fixed-point iterations (proximal point, relaxed splitting variables). Every step accepted by backtracking satisfies the sufficient-decrease inequality, and backtracked steps never grow.",
  ["histories", "inputs"], "all iterations of all runs over problems, starts, steps, relaxation, backtracking factors",
  "A per-iteration inequality over whole runs; tests look at final points only, which recover from occasional wrong steps.",
  [OP + "primal.py", OP + "palm.py"],
  [("sufficient-decrease test", OP + "primal.py"), ("bilinear sufficient-decrease test", OP + "palm.py")], ["callback iterates", "instrumented steps"])
p("P21", "Solvers report every iteration once and stop when asked",
  "A solver calls the user's callback exactly once per completed iteration with the current iterate(s), the last of which equal what is returned; it runs exactly the requested number of iterations unless a given tolerance is met, in which case it stops at the first iteration meeting its documented criterion. Printing progress, attaching callbacks or not, and deprecated aliases never change the result; each progress line shows its own iterate and the functionals at it.",
  ["configurations", "histories"], "all solvers x niter (1, 2, 9, 10, 11, ...) x tol (None, 0, loose) x show x callback flavours",
  "Tests rarely attach callbacks and never count them; early or late stops by one iteration change results by less than test tolerances.",
  [OP + f for f in ("primal.py","primaldual.py","palm.py","bregman.py","pnp.py","sr3.py","segmentation.py")],
  [("callback and stopping code in each loop", OP + "primal.py")], ["callback events", "stdout", "returned values"])
p("P22", "Bilinear models and alternating minimisation are consistent",
  "The bilinear model's value, partial products, partial gradients and Lipschitz constants agree with one another and with the half squared misfit it represents for any shapes, optional linear operator and complex data, and evaluating them does not change the model's state. The alternating (inertial) minimisation solvers perform the documented partial steps with the right variable, regulariser and step for every combination of fixed or backtracked steps.",
  ["inputs", "configurations", "histories"], "shapes (n,k,m incl. n=m) x with/without operator x real/complex x solver options (gammaf/gammag None or fixed, inertia, missing regularisers, starting points different from the model's state)",
  "Tests run two fixed factorizations and a gradient test of one coordinate; crossed regularisers or stale partner variables still decrease the misfit.",
  [B + "utils/bilinear.py", OP + "palm.py"],
  [("partial gradients", B + "utils/bilinear.py"), ("partial updates", OP + "palm.py")], ["model calls", "callback iterates"],
  [("x, y", "current factors held by the model", B + "utils/bilinear.py")])
p("P23", "Segmentation returns class probabilities solving its convex model",
  "For data of any dimension the segmentation returns, for every sample, non-negative class weights summing to one, and the label of each sample is the class with the largest weight. The weights approach the optimum of the documented total-variation model for the given classes, noise levels and extra term, and relabelling the classes or permuting the axes of the data relabels or permutes the answer.",
  ["inputs", "configurations"], "1-D/2-D/3-D data x numbers of classes x clsigmas/z/alpha/sigma x starts x simplex engines",
  "No test exercises segmentation at all.",
  [OP + "segmentation.py", PX + "Simplex.py", PX + "VStack.py"],
  [("model assembly", OP + "segmentation.py")], ["returned weights and labels"])
p("P24", "Bregman, plug-and-play and relaxed-split wrappers solve what they wrap",
  "Bregman iterations solve, at each outer iteration, the documented subproblem with the accumulated subgradient and stop by the documented tests; plug-and-play with a denoiser that is a proximal step gives exactly the iterates of the underlying solver with that proximal step, whichever solver is chosen; the sparse relaxed regularisation solver returns a minimiser of its documented relaxed objective for adaptive and fixed inner iterations, including degenerate data. User-supplied operators and options reach the inner solver unchanged.",
  ["configurations", "histories", "inputs"], "inner solvers x alpha x warm x tolerances; denoisers x solvers x dims; SR3 shapes x kappa x eps x adaptive x starts x zero/trivial data",
  "Tests run each wrapper once at default settings with loose tolerance.",
  [OP + "bregman.py", OP + "pnp.py", OP + "sr3.py"],
  [("outer loop", OP + "bregman.py"), ("denoiser wrapper", OP + "pnp.py"), ("relaxed split", OP + "sr3.py")], ["instrumented inner solver calls", "returned values"])
p("P25", "Verification utilities accept correct operators and expose wrong ones",
  "The Moreau-identity checker and the gradient checkers accept every operator that satisfies what they verify (for tolerances no tighter than the finite-difference error), report or raise on every draw for an operator whose dual or gradient is wrong by more than their tolerance in every tested component, and honour their raise/return and verbosity options. They leave the operator, the bilinear model and the supplied point as they found them.",
  ["inputs", "histories"], "correct operators, and fault-injected ones (scaled, sign-flipped, conjugated, stale gradients and duals) x random draws x real/complex x options",
  "Tests only run the checkers on correct operators; a checker that always passes would satisfy them.",
  [B + "utils/gradtest.py", B + "utils/moreau.py"],
  [("finite-difference comparison", B + "utils/gradtest.py"), ("Moreau comparison", B + "utils/moreau.py")], ["verdicts under fault injection"])
p("P26", "Complex inputs and single precision are first-class",
  "Functionals that depend on magnitudes treat complex inputs consistently: rotating the input by a common phase (or, for entrywise functionals, by any phases) rotates the proximal step the same way, real inputs viewed as complex give the same answer, and the complex answer minimises the same objective. Single-precision inputs give the double-precision answer to single-precision accuracy.",
  ["inputs"], "all magnitude-based functionals, combinators and solvers x complex phases x precisions",
  "Tests contain complex inputs for very few operators and never check equivariance; branch-wise complex formulas differ from the real ones.",
  [PX + f for f in ("L1.py","L0.py","L2.py","L21.py","L21_plus_L1.py","Huber.py","Euclidean.py","Log.py","Nuclear.py","RelaxedMS.py")] + [PJ + "L1.py"],
  [("complex branches", PX + "L1.py")], ["prox, proxdual, value"])
p("P27", "Results keep shape and type and are finite for finite input",
  "For finite inputs, including zeros, ties, denormal-scale and very large values and degenerate parameters (zero radius, zero weight, point at a centre), every value, proximal step, dual step, gradient and projection is finite, has the shape of its input, is real when input and configuration are real, and does not lose precision. No floating-point exception corrupts a result.",
  ["inputs", "configurations"], "all operators x degenerate and extreme inputs and parameters",
  "Tests draw unit normal inputs; 0/0 and 0*inf occur at exact zeros, ties and degenerate parameters.",
  [PX + f for f in ("L21_plus_L1.py","Geman.py","ETP.py","Log.py","Euclidean.py","L2.py","QuadraticEnvelope.py")] + [PJ + "Euclidean.py", PJ + "L0.py", OP + "sr3.py"],
  [("guards against division by zero", "prox formulas")], ["returned arrays"])
p("P28", "Total-variation denoising is correct in one to four dimensions",
  "The total-variation proximal step converges to the unique minimiser as its iterations grow, for arrays of one to four dimensions of any extents, weights and step; it preserves the mean, commutes with adding constants, negation and reversing or permuting axes where the functional does, returns constants unchanged and never exceeds the input's range. Its value is the documented discrete total variation.",
  ["inputs", "configurations"], "dims 1-D..4-D incl. extents 2 and 3 x sigma x tau x inputs x niter (constant or scheduled)",
  "Tests cover 1-D and 2-D arrays through one loose decimal check; 3-D and 4-D branches and axis lengths are untested.",
  [PX + "TV.py"], [("dual projected gradient", PX + "TV.py")], ["prox, value"])
p("P29", "Invalid configurations are rejected, valid ones never",
  "Requests the library documents as invalid (unknown engines, solvers or acceleration schemes, inconsistent sizes, missing starting points, weights that do not sum to one, invalid penalty parameters, operands of the wrong kind, evaluating an unimplemented functional) raise an error of the documented kind before any work is done, and every request within the documented domain is accepted and yields an answer.",
  ["configurations"], "all documented rejection rules and, on the other side of each, the accepted neighbours (e.g. any number of equal default weights)",
  "Tests raise a few of these errors once; that valid neighbours are accepted (e.g. default weights for every number of terms) is unsampled.",
  [B + "ProxOperator.py", OP + "primal.py", PX + "VStack.py", PX + "Quadratic.py", PX + "Simplex.py", PX + "L2.py", PX + "ETP.py", PX + "SCAD.py"],
  [("argument validation", "constructors and solver preambles")], ["exceptions"])
p("P30", "Library calls have no ambient side effects",
  "Evaluating functionals, proximal steps, projections and solvers never changes process-wide state: the global random generator (outside the randomised verification utilities), floating-point error handling, warning filters, print options and the working environment stay as they were, and nothing is printed unless progress output was requested. Running twice in any order therefore gives identical results.",
  ["histories", "programs"], "all public entry points in random order, repeated",
  "Tests do not observe process-wide state; leakage shows as irreproducible results in unrelated code.",
  [OP + "primal.py", OP + "primaldual.py", OP + "segmentation.py", PX + "TV.py", B + "__init__.py"],
  [("absence of global writes", "whole package")], ["numpy random state, errstate, warning filters, stdout"])
p("P31", "Omitted options act as documented and arguments keep their order",
  "Leaving an option out is the same as giving it the default its documentation states, and giving all arguments by position in the documented order is the same as giving them by name, for every public functional, projection, solver and utility: values, steps, gradients, iterates, results and printed lines agree exactly. An option given explicitly is the one in force.",
  ["inputs", "configurations"], "all public callables x all documented options x drawn problems on which the option matters",
  "Tests pass the few options they exercise by name and never compare a call that leaves an option out with the documented default; a default that silently changes alters every user's answer.",
  [PX + f for f in ("L1.py","L2.py","TV.py","ETP.py","Log.py","Huber.py","Simplex.py")] + [PJ + "Simplex.py", PJ + "Nuclear.py", OP + "primal.py", OP + "primaldual.py", OP + "palm.py", OP + "pnp.py", OP + "segmentation.py", OP + "bregman.py"],
  [("signatures and their defaults", "all public constructors and solvers")], ["answers of equivalent calls"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for d in P:
        assert len(d["title"]) <= 80, d["title"]
        f.write(json.dumps(d) + "\n")
print(len(P))
