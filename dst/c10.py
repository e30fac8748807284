"""C10: once faults stop, solvers reach the solution within a bounded number of steps.

World: the history world, then a fault-free suffix: the data stays fixed and the solve goes on from whatever (params, state) the history left. The number of further
steps is bounded, and the point reached is compared with an independent optimum, root or fixed point (NumPy / SciPy).
"""
import functools

import numpy as np
import jax
import jax.numpy as jnp

from dst import c09  # registers the objectives with holes
from dst import catalog as C
from dst import c13, common, hist
from dst import problems as P
from dst.core import Rng, all_finite, flat

LEVEL = "exploration"
RULE = ("A case is one history (see C06) of one solver followed by a fault-free suffix on a well-posed problem. After the suffix's step budget the error reported must be at most "
        "tol and the params must agree with an independently computed solution. Non-trivial: at least one fault or history operation before the suffix. Distinct: by hash of the event log.")
REAL = ["all 22 iterative solvers"]
STUB = ["data source and durable storage (simulated)", "reference optima (NumPy, SciPy)"]
ASSUMPTIONS = ["x64; strongly convex, contractive or otherwise well-posed problems for the suffix", "step budgets are 5 to 20 times what the methods need on these problems",
               "options that are documented not to converge (diverging or vanishing step sizes, tiny line search budgets) are not part of the configurations"]

# further steps, tolerance on state.error, tolerance on the distance to the solution (relative to 1 + |x*|)
BUDGET = {"GradientDescent": (4000, 1e-7, 1e-4), "ProximalGradient": (4000, 1e-7, 1e-4), "ProjectedGradient": (4000, 1e-7, 1e-4), "MirrorDescent": (20000, 1e-6, None),
          "BFGS": (300, 1e-6, 1e-4), "LBFGS": (500, 1e-6, 1e-4), "NonlinearCG": (3000, 1e-6, 1e-4), "LBFGSB": (800, 1e-6, 1e-4), "PolyakSGD": (4000, 1e-5, 1e-3),
          "ArmijoSGD": (4000, 1e-6, 1e-4), "OptaxSolver": (3000, 1e-4, 1e-2), "GaussNewton": (60, 1e-7, 1e-5), "LevenbergMarquardt": (400, 1e-6, None),
          "FixedPointIteration": (300, 1e-8, 1e-6), "AndersonAcceleration": (300, 1e-7, 1e-5), "AndersonWrapper": (3000, 1e-6, 1e-4), "Broyden": (300, 1e-7, 1e-5),
          "Bisection": (60, 1e-9, 1e-8), "IterativeRefinement": (200, 1e-8, 1e-6), "BlockCoordinateDescent": (3000, 1e-7, None), "BoxCDQP": (3000, 1e-8, None),
          "BoxOSQP": (6000, 1e-5, 1e-2)}
NAMES = list(BUDGET)


class Interp(C.Polyak):
  """Interpolation holds: the minimum of the objective is the fun_min given to the solver."""

  def problem(self, rng, cfg):
    X, _ = P.gen_data(rng, m=10, n=self.n, cond=rng.choice([2.0, 8.0]), noise=0.0)
    w = rng.np().randn(self.n)
    return C.Prob(C.J(P.to_tree(rng.np().randn(self.n), cfg["pt"])), (jnp.asarray(0.0),), dict(data=C.J((X, X @ w))), dict(l2=0.0, data=(X, X @ w), w=w))

  def optimum(self, cfg, prob):
    return prob.meta["w"]


T = dict(C.REG)
T["PolyakSGD"] = Interp()


def config(name, rng):
  t = T[name]
  while True:
    c = t.cfg(rng)
    if "fam" in c:
      if c["fam"] == "rosen" or name in ("PolyakSGD", "OptaxSolver"):
        c["fam"] = "lsq" if name in ("PolyakSGD",) else rng.choice(["lsq", "logistic", "logcosh"])
      if name in ("GradientDescent", "BFGS", "LBFGS", "NonlinearCG") and rng.chance(0.2):
        c["fam"] = "barrier"
    if "stepsize" in c and name not in ("Broyden", "MirrorDescent"):
      c["stepsize"] = 0.0 if isinstance(c["stepsize"], str) or name in c09.QUASI else c["stepsize"]
    if "maxls" in c:
      c["maxls"] = 30 if name in c09.QUASI else 15
    if c.get("fam") == "barrier" and "stepsize" in c:
      c["stepsize"] = 0.0
    if c.get("linesearch") == "backtracking":
      # the curvature condition is not met on the way down from a small largest step: a search that fails returns its tiny last trial
      c["linesearch"] = "zoom"
    if name == "MirrorDescent":
      c["stepsize"] = rng.choice([0.5, 0.2])
    if name == "BoxOSQP":
      c["ssf"] = 10 ** 6  # convergence is known for a fixed step size only
    if name == "BlockCoordinateDescent" and c["prox"] == "none":
      continue  # separable data have no minimiser
    if name == "PolyakSGD":
      c.update(delta=0.0, fun_min=0.0, momentum=rng.choice([0.0, 0.5]))
    if name == "ArmijoSGD":
      c["momentum"] = 0.0
    if name == "OptaxSolver":
      c["opt"] = rng.choice(["sgd", "mom", "nesterov", "adam"])
    if name == "AndersonWrapper":
      c.update(inner_accel=False, beta=1.0, fam="lsq")
    if name == "GaussNewton":
      c["res"] = "linear"
    if name == "LevenbergMarquardt" and c["geodesic"]:
      continue
    if name == "Broyden":
      c.update(history_size=12, stepsize=rng.choice([0.0, 1.0]), gamma=1.0)
    if name == "IterativeRefinement" and c["solve"] == "cg":
      continue
    return c


def plan(seed, tier):
  jobs = []
  q = tier == "quick"
  for name in NAMES:
    ncfg = (6 if name in c09.QUASI else 4 if name in ("GradientDescent", "ProximalGradient", "ProjectedGradient", "AndersonWrapper") else 3) * (1 if q else 8)
    for ci in range(ncfg):
      rng = Rng("C10", seed, name, ci)
      cfg = config(name, rng)
      runs = []
      for r in range(10 if q else 40):
        rr = Rng("C10run", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30), "ops": hist.gen_ops(rr, name, rr.randrange(2, 9))})
      jobs.append({"template": name, "cfg": cfg, "world": "history", "x64": True, "runs": runs, "cost": 20 if cfg.get("linesearch") == "hager-zhang" else 8})
  return jobs


def shrink(job, run):
  for ops in common.ddmin_ops(run["ops"]):
    yield dict(run, ops=ops)


def nontrivial(r):
  return sum(r["faults"].values()) >= 1


class Last(hist.Hooks):
  """Remembers where the history ended."""

  def __init__(self):
    self.at = None

  def on_init(self, prob, p, s, why):
    self.at = (prob, p, s)

  def on_step(self, prob, p0, s0, p1, s1, n):
    self.at = (prob, p1, s1)

  def on_warm(self, prob, p, s):
    self.at = (prob, p, s)

  def on_bad_step(self, prob, p0, s0, p1, s1):
    pass

  def snapshot(self):
    return self.at

  def restore(self, snap):
    self.at = snap


def runner(ctx, solver, budget, tol):
  """The suffix as one compiled loop over the real update."""
  if "suffix" not in ctx:
    def go(p, s, args, kwargs):
      def cond(c):
        k, p, s = c
        return (k < budget) & ~(s.error <= tol)

      def body(c):
        k, p, s = c
        p, s = solver.update(p, s, *args, **kwargs)
        return k + 1, p, s
      # the first update settles dtypes and weak types of the carry
      p, s = solver.update(p, s, *args, **kwargs)
      strong = lambda tree: jax.tree_util.tree_map(lambda x: jax.lax.convert_element_type(x, jnp.asarray(x).dtype), tree)
      return jax.lax.while_loop(cond, lambda c: jax.tree_util.tree_map(lambda o, i: jax.lax.convert_element_type(o, jnp.asarray(i).dtype), body(c), c), (1, strong(p), strong(s)))
    ctx["suffix"] = jax.jit(go)
  return ctx["suffix"]


def solution(name, cfg, prob, p):
  t = T[name]
  if name in ("BoxCDQP",):
    Q, c, (lo, hi) = prob.meta["Q"], prob.meta["c"], prob.meta["hp"]
    import scipy.optimize
    res = scipy.optimize.minimize(lambda x: (0.5 * x @ Q @ x + c @ x, Q @ x + c), np.clip(np.zeros(len(c)), lo, hi), jac=True, bounds=list(zip(lo, hi)), method="L-BFGS-B",
                                  options=dict(ftol=1e-15, gtol=1e-12, maxiter=5000))
    return ("value", 0.5 * np.asarray(p) @ Q @ np.asarray(p) + c @ np.asarray(p), res.fun)
  if cfg.get("fam") == "barrier":
    l2, data = c09.data_of(name, prob)
    key = ("barrier", "gh")
    if key not in c09._VAL:
      c09._VAL[key] = jax.jit(jax.grad(lambda v, l2, d: P.FUNS["barrier"](v, l2, d)))
    g = np.asarray(c09._VAL[key](jnp.asarray(P.vec_np(p)), l2, data))
    return ("gradient", np.linalg.norm(g), 0.0)
  if name == "MirrorDescent":
    x = t.optimum(cfg, prob)
    return ("value", t.value(cfg, prob, p), t.value(cfg, prob, jnp.asarray(x)))
  return ("params", t.flat(p), t.optimum(cfg, prob))


def execute(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  t = T[name]
  if "pool" not in ctx:
    ctx["pool"] = common.Pool(t, cfg, jit=True, tol=-1.0)
  last = Last()
  hist.drive(t, cfg, ctx["pool"], run, sim, last)
  prob, p, s = last.at
  solver = ctx["pool"].get(1)
  if not all_finite(p):
    sim.probe("non_finite_end")
    return
  if name in c09.FISTA + c09.QUASI and cfg.get("fam") == "barrier" and not np.max(P.vec_np(p)) < 1.5:
    sim.probe("outside_domain")
    return
  if name in hist.WARM and not all_finite((p, s)):
    s = solver.init_state(p, *prob.args, **prob.kwargs)
  if name not in ("BoxOSQP",) and not all_finite(s._replace(error=0.0) if hasattr(s, "_replace") else s) and name not in ("Bisection", "BlockCoordinateDescent"):
    s = solver.init_state(p, *prob.args, **prob.kwargs)
  if name in c09.QUASI and any(o[0] == "other" or (o[0] == "nan" and o[3] == "keep") for o in run["ops"]):
    # A curvature pair that straddles two objectives can leave an inverse Hessian of condition number 1e14: the descent is restarted.
    s = solver.init_state(p, *prob.args, **prob.kwargs)
  if name == "MirrorDescent":
    # Multiplicative updates: from a coordinate of 1e-26 the way back is long, so the suffix starts inside.
    p = 0.8 * p + 0.2 / p.shape[0]
    s = solver.init_state(p, *prob.args, **prob.kwargs)
  if name == "Broyden":
    # A local method: the suffix starts near the root, with a fresh Jacobian or with the one the history left.
    r = Rng("C10near", run["data"]).np()
    x = t.optimum(cfg, prob)
    p = C.J(P.to_tree(x + 0.05 * r.randn(len(x)), cfg["pt"]))
    s = solver.init_state(p, *prob.args, **prob.kwargs)
  budget, tol, dist = BUDGET[name]
  k, p1, s1 = runner(ctx, solver, budget, tol)(p, s, prob.args, prob.kwargs)
  k = int(k)
  err = float(np.asarray(s1.error))
  sim.steps += k
  sim.log("suffix", k, repr(err))
  sim.probe("suffix_steps", k)
  sim.check(err <= tol, "no_progress", lambda: f"error {err:.3g} > {tol:.3g} after {k} fault-free steps (params {flat(p1)[:6]})")
  judge(name, cfg, prob, p1, s1, sim, dist)


def judge(name, cfg, prob, p1, s1, sim, dist):
  t = T[name]
  if name in ("LevenbergMarquardt", "GaussNewton"):
    x = np.asarray(p1)
    g = jax.grad(lambda v: 0.5 * jnp.sum(C.RES[cfg["res"]](v, *prob.args) ** 2))(jnp.asarray(x))
    sim.check(float(np.linalg.norm(g)) <= 1e-5, "wrong_solution", lambda: f"gradient {np.asarray(g)} at the point reported as converged")
    return
  if name == "BlockCoordinateDescent":
    f = c09.total(name, cfg, prob, p1)
    key = ("bcd-opt", id(prob.meta))
    best = bcd_reference(cfg, prob, p1)
    sim.check(f <= best + 1e-5 * (1 + abs(best)), "wrong_solution", lambda: f"objective {f!r} at the point reported as converged, {best!r} is reachable")
    return
  if name == "BoxOSQP":
    m = prob.meta
    c13.judge_solved(sim, (m["Q"], m["c"], m["A"], m["lo"], m["hi"]), *c13.parts(p1), 1e-5, "after the suffix")
    return
  kind, got, want = solution(name, cfg, prob, p1)
  if kind == "value":
    sim.check(got <= want + 1e-4 * (1 + abs(want)), "wrong_solution", lambda: f"objective {got!r} at the point reported as converged, minimum {want!r}")
  elif kind == "gradient":
    sim.check(got <= 1e-5, "wrong_solution", f"gradient norm {got} at the point reported as converged")
  elif want is not None:
    d = float(np.max(np.abs(np.asarray(got) - np.asarray(want))))
    sim.check(d <= dist * (1 + float(np.max(np.abs(want)))), "wrong_solution", lambda: f"converged to {got}, the solution is {want}")


def bcd_reference(cfg, prob, p):
  """Objective after polishing by an independent proximal gradient descent in NumPy/JAX."""
  key = ("bcd-vg", cfg["obj"])
  if key not in c09._VAL:
    o = T["BlockCoordinateDescent"].obj(cfg)
    c09._VAL[key] = jax.jit(jax.value_and_grad(lambda x, *a: o(x, *a)))
  vg = c09._VAL[key]
  x = np.array(p)
  hp = prob.meta["hp"]

  def pr(v, s):
    k = cfg["prox"]
    if k == "nnlasso":
      return np.maximum(v - s * hp, 0.0)
    if k == "ridge":
      return v / (1 + s * hp)
    if k == "group":
      n = np.linalg.norm(v, axis=1, keepdims=True)
      return v * np.maximum(1 - s * hp / np.maximum(n, 1e-300), 0)
    if k == "simplex":
      return np.stack([P.np_simplex(r) for r in v])
    return P.np_prox(k, v, hp, s)
  s = 1.0
  tot = lambda x: float(vg(jnp.asarray(x), *prob.args[1:])[0]) + c09.penalty("BlockCoordinateDescent", cfg, prob, x)
  for _ in range(60):
    f, g = vg(jnp.asarray(x), *prob.args[1:])
    f, g = float(f), np.asarray(g)
    for _ in range(40):
      y = pr(x - s * g, s)
      d = y - x
      if float(vg(jnp.asarray(y), *prob.args[1:])[0]) <= f + np.sum(g * d) + np.sum(d * d) / (2 * s) + 1e-14:
        break
      s *= 0.5
    x = y
    s *= 1.3
  return tot(x)
