"""Writes /verif/properties.jsonl (kept as a script so that the text stays reviewable)."""
import json, os

P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
  P.append(dict(id=id, title=title, statement=statement,
                quantifier=dict(over=over, text=text), why_tests_cant=why,
                anchors=dict(files=["jaxopt/_src/" + f for f in files],
                             state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
                             mechanism=[dict(name=n, where=w) for n, w in mech],
                             observe_at=list(observe), hook_needed=hook)))

ITER = ["base.py", "proximal_gradient.py", "gradient_descent.py", "projected_gradient.py",
        "mirror_descent.py", "block_cd.py", "cd_qp.py", "polyak_sgd.py", "armijo_sgd.py",
        "optax_wrapper.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py",
        "gauss_newton.py", "levenberg_marquardt.py", "fixed_point_iteration.py", "anderson.py",
        "anderson_wrapper.py", "broyden.py", "bisection.py", "iterative_refinement.py", "osqp.py"]
LS = ["backtracking_linesearch.py", "zoom_linesearch.py", "hager_zhang_linesearch.py"]

prop("C01", "A solve can be stopped anywhere and resumed from (params, state) alone",
  "For every iterative solver the pair (params, state) returned by a step is the complete memory of the "
  "optimisation: dropping everything else after any step and continuing from a saved copy of that pair in a "
  "freshly constructed, identically configured solver gives the same sequence of params and states as the "
  "run that was never interrupted, and going back to an older saved pair replays the lost steps identically. "
  "Solvers whose run or init_state accepts a previous (params, state) result as starting point continue "
  "exactly where that result stopped.",
  ["crash_points", "histories", "schedules", "configurations"],
  "every iterative solver and configuration, every step at which the process is lost, every number of losses "
  "and rollbacks, every use the receiving solver object was put to before",
  "Tests run each solver straight through on one object; none stops after an arbitrary step, saves the pair "
  "and continues in another process or object.",
  ITER, [("state NamedTuples threaded through update", "every solver's init_state/update"),
         ("OptStep accepted as init_params", "lbfgs.py, lbfgsb.py, broyden.py init_state")],
  [("(params, state)", "the only durable state", "return value of update and run")],
  ["init_state", "update", "run"])

prop("C02", "run equals repeated update in every execution mode, stopping at the right step",
  "run returns the params and state reached by init_state followed by repeated update, stopping after the "
  "first update whose reported error is not above tol and never making more than maxiter updates (none when "
  "maxiter is 0, at least one otherwise). The jit, unroll and implicit_diff settings only choose how the loop "
  "is executed: they never change the iterates, the number of updates made, the stopping point or the "
  "reported state, also when an evaluation returns a non-finite value part-way.",
  ["schedules", "configurations", "fault_sequences", "histories"],
  "every iterative solver, problem, maxiter, tol, jit/unroll/implicit_diff combination and every step at "
  "which an evaluation turns non-finite",
  "Tests compare jit and non-jit results on a few problems at the optimum, where every path agrees; they do not "
  "compare the iterates, update counts and stopping steps of the loop drivers.",
  ITER + ["loop.py", "cond.py"],
  [("while_loop drivers (lax while, scan with guarded steps, python)", "loop.py"),
   ("first update outside the loop, maxiter==0 selection", "base.py IterativeSolver._run"),
   ("stopping predicate", "base.py IterativeSolver._cond_fun and overrides")],
  [("error, iter_num", "stopping criterion and update counter", "every solver state")],
  ["run", "update", "jaxopt.loop.while_loop"])

prop("C03", "Interleaved, concurrent and nested solves never influence one another",
  "Any number of solves - on one shared solver object, on several objects of one class built from the same "
  "user-supplied options, from several threads, or nested inside the objective of another - may be interleaved "
  "at any step or function evaluation, and each returns the result it returns when run alone. Objects "
  "passed by the caller (arrays, option dictionaries, initial points, saved states) are never modified.",
  ["schedules", "histories", "configurations"],
  "every interleaving of any number of solves at step and evaluation granularity, every mix of solver classes "
  "and shared objects",
  "Tests use one solver on one thread at a time and never look at shared option objects afterwards.",
  ITER + LS + ["scipy_wrappers.py", "implicit_diff.py"],
  [("solver objects hold configuration only", "every solver's __post_init__"),
   ("options copied or defaulted per object", "scipy_wrappers.py __post_init__")],
  [], ["init_state", "update", "run", "run of the SciPy wrappers"])

prop("C04", "Mini-batch streams are consumed in order, each batch exactly once",
  "run_iterator draws batches strictly in order, uses the first batch only to initialise and each later batch "
  "for exactly one update, never draws more than maxiter+1 batches, and returns what a manual loop over the same "
  "batches returns, for any stream length and also when the stream ends early (an empty stream is an error, raised as StopIteration). If the stream raises, the error "
  "reaches the caller unchanged, nothing further is drawn, and continuing from saved params and state with the "
  "rest of the stream gives the uninterrupted result. A pre_update hook is applied exactly once before every update, to the "
  "current params and state, with the arguments and batch of that update.",
  ["schedules", "fault_sequences", "crash_points", "histories"],
  "every stream (finite, infinite, ending early, failing at any batch, repeating or corrupting batches), every "
  "maxiter, every stochastic solver and configuration, every point of interruption",
  "Tests feed one healthy generator and only look at the final loss.",
  ["base.py", "polyak_sgd.py", "armijo_sgd.py", "optax_wrapper.py"],
  [("run_iterator", "base.py StochasticSolver"), ("pre_update hooks", "polyak_sgd.py, armijo_sgd.py, optax_wrapper.py update")],
  [], ["run_iterator", "iterator.__next__", "pre_update"])

prop("C05", "Problems solved together in one batch do not affect one another",
  "When several problems are solved together by vectorising run or update over a batch, each problem's "
  "params, state, step count and stopping point are those it has when solved alone. A problem that diverges, "
  "turns non-finite or never converges leaves the other problems of its batch untouched, and a problem that "
  "has already stopped is frozen while the others continue.",
  ["inputs", "schedules", "fault_sequences", "configurations"],
  "every batch composition and order, every subset of faulty members, every step at which each fault "
  "appears, every solver and loop mode",
  "Vectorised tests use a handful of similar, healthy problems and compare only optima.",
  ITER + LS + ["loop.py", "isotonic.py"],
  [("while_loop under vmap; guarded scan steps", "loop.py"), ("selects instead of branches", "line searches and solvers")],
  [], ["jax.vmap(solver.run)", "jax.vmap(solver.update)"])

prop("C06", "The reported state tells the truth about the current iterate after every step",
  "After every update the state's error is the solver's documented stopping quantity, its value, "
  "gradient, residual and auxiliary output are those of the objective at the point the solver documents, its counter equals the updates "
  "made, and every quantity cached for the next step (predictions, residuals, Jacobian products, brackets, "
  "histories) agrees with the iterates it summarises. This holds whatever happened before: other data at "
  "earlier steps (methods whose state caches a function of the data and the iterate - block coordinate descent, Gauss-Newton, Levenberg-Marquardt, iterative refinement, "
  "bisection, ADMM - being re-initialised when the data changes), corrupted or non-finite evaluations since replaced by good ones, restarts, or warm starts.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "every history of updates, data changes, evaluation faults and restarts, every solver and configuration",
  "Tests check the final params; caches and diagnostics in the middle of a run, let alone after a fault, are not looked at.",
  ITER, [("each solver recomputes or updates its cached quantities in update", "update methods")],
  [("error/value/grad/aux", "diagnostics", "solver states"),
   ("predictions, residual, jtj, s/y histories, gram, target_residuals, bracket", "caches carried between steps", "solver states")],
  ["state returned by init_state/update/run"])

prop("C07", "Constrained solvers never leave the feasible set",
  "Every iterate returned by a constrained solver is feasible - inside the bounds, simplex, ball or set "
  "defined by the supplied projection or proximity operator, and inside the bracket for root bracketing - after "
  "every update, whatever step sizes, data changes, warm starts from infeasible points, saved states or "
  "non-finite trial evaluations occur along the way. The bounded quasi-Newton and mirror-descent methods must start from a feasible point; sets whose projection is itself computed iteratively are met "
  "to that computation's tolerance, and an update whose own gradient is non-finite is not covered.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "every history of updates, faults, warm starts and bound or data changes, every constrained solver and configuration",
  "Tests check the final point of healthy runs against a reference optimum, where feasibility is implied by closeness.",
  ["projected_gradient.py", "proximal_gradient.py", "mirror_descent.py", "block_cd.py", "cd_qp.py", "lbfgsb.py",
   "bisection.py", "osqp.py", "projection.py", "scipy_wrappers.py", "isotonic.py"],
  [("iterate is the output of the projection/prox", "proximal_gradient.py, mirror_descent.py, block_cd.py"),
   ("clipping of Cauchy point, subspace step and line-search range", "lbfgsb.py")],
  [], ["params after each update"])

prop("C08", "Line searches report truthfully and never accept a bad trial point",
  "A line search that reports success returns a step of at most its allowed maximum at which its stated decrease and curvature "
  "conditions hold, and the params, value, gradient and auxiliary output it returns are those of the objective at exactly that step. "
  "If no such step is found within its budget, or evaluations along the way are non-finite, it reports failure and never "
  "presents a non-finite or increased value as success; it stops within its iteration budget in every case. Documented "
  "relaxations count as conditions: rounding slack relative to the initial value, approximate-Wolfe acceptance in Hager-Zhang (which has no maximal step), and the maximal step accepted on decrease alone in the zoom search.",
  ["fault_sequences", "inputs", "configurations", "schedules"],
  "every function along the search direction, every pattern of non-finite evaluations (by call or by region), every initial step, "
  "condition, budget and line search",
  "Tests search smooth functions from a few points; evaluation failures during a search and exhausted budgets are barely exercised.",
  LS + ["linesearch_util.py"],
  [("acceptance conditions and done/failed flags", "the three line search update methods"),
   ("safe step and out-of-domain handling", "zoom_linesearch.py")],
  [("done, failed, params, value, grad", "outcome of the search", "line search states")],
  ["run/update of the line search classes"])

prop("C09", "Descent solvers never get worse, and a failed trial never poisons the iterate",
  "Solvers that only take steps which a line search or gain test has accepted (line-search gradient, quasi-Newton and conjugate-gradient "
  "methods, trust-region style least squares, coordinate descent) return a sequence of objective values that "
  "never increases beyond the slack their acceptance rule states, as long as their searches report success. If trial points inside a step evaluate to NaN or infinity, the solver rejects them: "
  "params and state stay finite, the objective is no worse than before the step, and the solve goes on.",
  ["fault_sequences", "histories", "inputs", "configurations"],
  "every objective, every placement of non-finite trial evaluations in time or space, every descent solver, line search and option",
  "Tests use functions that are finite everywhere and compare the final point only.",
  ["proximal_gradient.py", "bfgs.py", "lbfgs.py", "lbfgsb.py", "nonlinear_cg.py", "levenberg_marquardt.py", "block_cd.py",
   "cd_qp.py"] + LS,
  [("accept/reject of the trial step", "levenberg_marquardt.py update_state_using_gain_ratio; line searches"),
   ("backtracking with decrease_factor", "proximal_gradient.py")],
  [], ["params, state.value after each update"])

prop("C10", "Once faults stop, solvers reach the solution within a bounded number of steps",
  "After any history of bad steps that left the params finite - corrupted or foreign data, crashes and restarts from old saved states, "
  "changed data or hyper-parameters, perturbed or warm-started params - once the problem stays fixed and "
  "well posed every solver with a global convergence guarantee reaches an optimum, root or fixed point of the fixed problem, and reports an error at most tol, within a "
  "number of further steps typical of its method. Methods that cache data-dependent quantities or curvature are re-initialised when the data changes, locally convergent ones start near "
  "the solution, and ADMM runs with a constant step size.",
  ["histories", "fault_sequences", "crash_points", "inputs"],
  "every finite history followed by a fault-free suffix on a well-posed convex or contractive problem, every solver and configuration",
  "Tests start fresh from zeros on fixed data; recovery from a disturbed state is never exercised.",
  ITER, [("self-correcting updates: histories and caches refreshed from current data", "update methods"),
         ("resets of step size, restart of conjugate directions, history overwrite", "linesearch_init, nonlinear_cg, lbfgs")],
  [], ["state.error, params after the last fault"])

prop("C11", "A solve aborted by an exception leaves no trace",
  "If the objective, a callback, a projection or a hook raises at any evaluation of a solve, the exception reaches the caller "
  "(for solves that go through a host callback, as an error naming it) and no result is fabricated. Afterwards the same solver "
  "object, saved states and shared inputs behave as if the aborted call had never been made: retrying gives the result a "
  "fresh solver gives, and nothing the caller passed in has been modified.",
  ["fault_sequences", "crash_points", "histories", "configurations"],
  "every solver, every evaluation index at which the failure strikes, every user-supplied function that can fail, any number of "
  "failures and retries, jitted (while tracing) or not",
  "Tests never make a user function raise.",
  ITER + LS + ["scipy_wrappers.py", "implicit_diff.py", "isotonic.py", "cvxpy_wrapper.py"],
  [("no mutable state outside (params, state)", "all solvers"), ("exceptions not swallowed", "scipy_wrappers.py, loop.py")],
  [], ["exceptions out of init_state/update/run"])

prop("C12", "The SciPy bridge is a faithful, loss-free conversation with SciPy",
  "For every pytree of parameters, the SciPy-backed solvers hand SciPy exactly the user's function, derivatives, bounds and options, "
  "evaluated at the point SciPy asks for, and hand back the point, value, success flag, status and counts that SciPy reported, in the "
  "structure, shapes and dtype of the caller's parameters. Callbacks see every iterate SciPy announces, in the caller's structure; "
  "early stops and failed runs are reported as such and never as success.",
  ["histories", "fault_sequences", "inputs", "configurations"],
  "every pytree shape and dtype mix, method, option, bound and callback, every sequence of host calls SciPy makes and every evaluation fault in it",
  "Tests compare final optima for a few methods; the per-call conversation, statuses after faults and repeated use are unobserved.",
  ["scipy_wrappers.py"],
  [("flatten/unflatten of pytrees", "pytree_topology_from_example, onp_to_jnp, jnp_to_onp"),
   ("make_onp_to_jnp, value_and_grad plumbing", "scipy_wrappers.py run")],
  [], ["calls made by scipy.optimize", "ScipyMinimizeInfo, ScipyRootInfo, ScipyLeastSquaresInfo"])

prop("C13", "Quadratic-program solvers give correct verdicts",
  "When a QP solver reports that a problem is solved, the returned primal and dual variables satisfy feasibility, stationarity and "
  "complementarity with correctly signed multipliers to the requested tolerance; when it reports primal or dual infeasibility the problem really has none; and when it runs "
  "out of iterations it says so, which it does not do on strongly convex feasible problems given ample iterations. The verdict does not depend on how the solve was reached: cold, warm-started from another "
  "problem, resumed from a saved state, interrupted, or with step sizes adapted.",
  ["histories", "inputs", "crash_points", "configurations"],
  "every feasible, infeasible and unbounded QP, every history of warm starts, data changes, interruptions and resumptions, every "
  "termination-check and step-adaptation frequency, every constraint layout",
  "Tests solve a few instances from a cold start and compare with a reference optimum.",
  ["osqp.py", "eq_qp.py", "cd_qp.py", "cvxpy_wrapper.py"],
  [("termination and infeasibility checks", "osqp.py _check_termination_conditions"),
   ("splitting of equality/inequality duals", "osqp.py OSQP, _box_qp_to_osqp style conversions"),
   ("step-size adaptation", "osqp.py")],
  [("status, error, primal/dual residuals", "verdict", "BoxOSQPState/OSQPState")],
  ["run, update, state.status"])

prop("C14", "Derivatives through a solve do not depend on how the solution was reached",
  "Differentiating a converged solve with respect to any differentiable argument, passed by position or by keyword, gives the "
  "derivative of the solution map of the underlying optimality condition - the same in forward and reverse mode, with the "
  "solve implicit or unrolled to convergence - whatever initial point, warm start, restart, interruption, batch, nesting or "
  "execution mode led to the solution. The derivative with respect to the initial point is zero when implicit differentiation is on. "
  "Forward mode is offered for the optimality condition and for unrolled iterations started away from the solution; derivatives hold to the accuracy of the linear solver used.",
  ["histories", "schedules", "crash_points", "configurations"],
  "every path to the solution (initial points, warm starts, restarts, modes, nesting), every argument layout, every differentiable solver",
  "Tests check Jacobians from one cold start with one argument layout per solver.",
  ["implicit_diff.py", "base.py"] + ["proximal_gradient.py", "projected_gradient.py", "bfgs.py", "lbfgs.py", "levenberg_marquardt.py",
   "gauss_newton.py", "anderson.py", "fixed_point_iteration.py", "broyden.py", "bisection.py", "osqp.py", "eq_qp.py", "cd_qp.py",
   "block_cd.py", "mirror_descent.py", "scipy_wrappers.py", "linear_solve.py"],
  [("custom_root / custom_fixed_point", "implicit_diff.py"), ("optimality_fun of each solver", "solvers"),
   ("keyword binding through reference_signature", "implicit_diff.py")],
  [], ["jax.grad/jacrev/jacfwd of run"])

prop("C15", "Random smoothing is a function of its key alone and matches its stated estimator",
  "Perturbed argmax, max and scalar operators give bit-identical outputs and derivatives for the same key and input under every "
  "order of calls, number of concurrent users, jit, vmap and retry after failure, and independent outputs for different keys. For the "
  "samples a key selects, the output is the average of the function over exactly the requested number of perturbed inputs and the derivative is "
  "the score-function estimate over those same samples, so averages over keys converge to the smoothed function and its gradient.",
  ["schedules", "histories", "fault_sequences", "inputs"],
  "every key, call order, interleaving, failure and retry; every noise law, sample count, scale, input structure and wrapped function",
  "Tests check a handful of keys against loose statistical bounds.",
  ["perturbations.py"],
  [("key splitting, noise sampling, custom_jvp", "perturbations.py")],
  [], ["make_perturbed_argmax, make_perturbed_max, make_perturbed_fun; calls made to the wrapped function"])

prop("C16", "Each step is the documented update computed from the actual history",
  "Every update is the step of the method named in the documentation computed from the history that really happened: quasi-Newton directions use "
  "exactly the most recent stored pairs, Anderson mixing exactly the most recent iterates at the stated frequency, momentum and acceleration exactly the preceding steps, conjugate "
  "directions the preceding gradient, and step-size schedules the number of updates made. The step stays exact when the history wraps "
  "around, data changes between steps, updates are rejected, or the solve is resumed.",
  ["histories", "fault_sequences", "crash_points", "configurations"],
  "every history length relative to memory size, every data change, rejected or skipped update and resumption, every solver option",
  "Tests check convergence, which survives most errors in memory handling, and a few short sequences against other libraries.",
  ITER, [("circular history buffers and two-loop recursions", "lbfgs.py, lbfgsb.py, broyden.py, anderson.py, anderson_wrapper.py"),
         ("momentum/velocity/t sequences", "proximal_gradient.py, polyak_sgd.py, armijo_sgd.py"),
         ("beta formulas", "nonlinear_cg.py"), ("damping schedule", "levenberg_marquardt.py")],
  [], ["params and state.stepsize after each update"])

# --- pure functions: stated for completeness, not decidable by simulation -------------------------------------------------------------
prop("C20", "Projections return the Euclidean projection onto the stated set",
  "Every projection returns a point of the stated set no farther from the input than any other point of the set, for every pytree, "
  "shape, scale and set parameter, and is idempotent.",
  ["inputs"], "every input and set parameter", "Tests sample a few random vectors per set.",
  ["projection.py"], [("closed forms, bisection and KL/transport solvers", "projection.py")], observe=["jaxopt.projection"])
prop("C21", "Proximity operators solve their stated proximal problem",
  "Every proximity operator returns the minimiser of half the squared distance plus the scaled stated penalty, for every input, penalty strength and scaling.",
  ["inputs"], "every input, hyper-parameter and scaling", "Tests sample a few random vectors.",
  ["prox.py"], [("closed forms", "prox.py")], observe=["jaxopt.prox"])
prop("C22", "Losses and objectives have their stated values, gradients and convexity",
  "Every loss and objective equals its mathematical definition, is finite for finite scores of any magnitude, and its gradient is that of the definition.",
  ["inputs"], "every logit, label and weight", "Tests sample a few logits.",
  ["loss.py", "objective.py"], [("closed forms", "loss.py, objective.py")], observe=["jaxopt.loss", "jaxopt.objective"])
prop("C23", "Linear solvers solve the linear system they are given",
  "For every well-posed matrix-free system each linear solver returns its solution (least-squares solution for the normal-equation solvers), including the stated ridge term, for every pytree.",
  ["inputs"], "every operator, right-hand side, ridge and preconditioner", "Tests sample a few small systems.",
  ["linear_solve.py", "linear_operator.py"], [("materialised and Krylov solvers", "linear_solve.py")], observe=["jaxopt.linear_solve"])
prop("C24", "Pytree arithmetic agrees with flat vector arithmetic",
  "Every pytree operation equals the same operation on the concatenated leaves, for every structure and dtype.",
  ["inputs"], "every pytree", "Tests sample a few structures.",
  ["tree_util.py"], [("tree_map compositions", "tree_util.py")], observe=["jaxopt.tree_util"])
prop("C25", "Isotonic regression returns the isotonic least-squares fit",
  "Isotonic regression returns the monotone vector closest to its input, and its derivative averages over the blocks of the fit.",
  ["inputs"], "every input vector", "Tests sample a few vectors.",
  ["isotonic.py"], [("pool adjacent violators", "isotonic.py")], observe=["jaxopt.isotonic"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
  for p in P:
    assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    f.write(json.dumps(p) + "\n")
print(len(P), "properties")
