"""C14: derivatives through a solve do not depend on how the solution was reached.

A run is a history of derivative requests to one solver object: for several problems, by reverse mode (eager, compiled, batched with failing neighbours,
through a second solve that is warm-started by the first), by forward mode (root_jvp), or through the unrolled iterations, with arguments passed by position
or by keyword, from cold, distant, warm, interrupted and already solved starts. Oracle: the derivative of the solution map from the optimality conditions
written down independently (dense Jacobians, NumPy solve) at a solution polished by Newton steps; the derivative with respect to the initial point is zero;
a request repeated later in the history gives the same bits.
"""
import functools

import jax
import jax.numpy as jnp
import numpy as np
import optax
import jaxopt
from jaxopt._src import base
from jaxopt import implicit_diff, linear_solve, objective, projection, prox

from dst import common
from dst import problems as P
from dst.core import Rng, digest_tree, np_tree

LEVEL = "exploration"
RULE = ("A case is a history of derivative requests (mode, start, argument passing, problem) to one solver configuration. A derivative is compared when the solve "
        "converged (error <= tol, point within 1e-5 of the reference) and the problem is not next to a kink (the Jacobian of the optimality conditions is stable "
        "around it). Non-trivial: at least one derivative compared after another operation. Distinct: by hash of the event log with digests of the derivatives.")
REAL = ["run of all solvers with implicit differentiation", "implicit_diff (custom_root, custom_fixed_point, root_vjp, root_jvp)", "linear_solve", "unrolled differentiation", "SciPy wrappers with the real SciPy"]
STUB = ["users' data", "reference optimality conditions (own proximal operators and projections, NumPy)"]
ASSUMPTIONS = ["x64", "solutions where the optimality conditions are differentiable (strict complementarity)", "derivatives of state are not promised",
               "iterative linear solvers are given a tolerance of 1e-12; with the default one (1e-5) derivatives are accurate to 2 per cent"]
J = lambda t: jax.tree_util.tree_map(jnp.asarray, t)


def tmap(f, *t):
  return jax.tree_util.tree_map(f, *t)


# -------------------------------------------------------------------------------------------------------- reference operators
def j_simplex(u, s):
  v = jnp.sort(u)[::-1]
  c = (jnp.cumsum(v) - s) / jnp.arange(1, u.shape[0] + 1)
  k = jnp.sum(v > c) - 1
  return jax.nn.relu(u - c[k])


JPROX = {
    "none": lambda u, hp: u,
    "lasso": lambda u, l: jnp.sign(u) * jax.nn.relu(jnp.abs(u) - l),
    "elastic": lambda u, h: jnp.sign(u) * jax.nn.relu(jnp.abs(u) - h[0]) / (1 + h[0] * h[1]),
    "ridge": lambda u, l: u / (1 + l),
    "nnlasso": lambda u, l: jax.nn.relu(u - l),
    "group": lambda u, l: u * jax.nn.relu(1 - l / jnp.linalg.norm(u)),
    "box": lambda u, h: jnp.clip(u, h[0], h[1]),
    "nonneg": lambda u, h: jax.nn.relu(u),
    "simplex": j_simplex,
    "l2ball": lambda u, r: jnp.where(jnp.sum(u * u) <= r * r, u, r * u / jnp.sqrt(jnp.sum(u * u))),
    "l1ball": lambda u, r: jnp.where(jnp.sum(jnp.abs(u)) <= r, u, jnp.sign(u) * j_simplex(jnp.abs(u), r)),
    "hyperplane": lambda u, h: u - (h[0] @ u - h[1]) / (h[0] @ h[0]) * h[0],
    "halfspace": lambda u, h: u - jax.nn.relu(h[0] @ u - h[1]) / (h[0] @ h[0]) * h[0],
    "affine": lambda u, h: u - h[0].T @ jnp.linalg.solve(h[0] @ h[0].T, h[0] @ u - h[1]),
}
REAL_PROX = {"none": prox.prox_none, "lasso": prox.prox_lasso, "elastic": prox.prox_elastic_net, "ridge": prox.prox_ridge, "nnlasso": prox.prox_non_negative_lasso,
             "group": prox.prox_group_lasso}
REAL_PROJ = {"box": projection.projection_box, "nonneg": projection.projection_non_negative, "simplex": projection.projection_simplex, "l2ball": projection.projection_l2_ball,
             "l1ball": projection.projection_l1_ball, "hyperplane": projection.projection_hyperplane, "halfspace": projection.projection_halfspace,
             "affine": projection.projection_affine_set}


def lin(kind, sym=False, spd=False):
  """Linear solver for the implicit differentiation."""
  if kind == "default":
    return None
  if kind == "cg":
    return functools.partial(linear_solve.solve_cg, tol=1e-12, maxiter=200)
  if kind == "gmres":
    return functools.partial(linear_solve.solve_gmres, tol=1e-12, maxiter=50)
  if kind == "bicgstab":
    return functools.partial(linear_solve.solve_bicgstab, tol=1e-12, maxiter=200)
  if kind == "lu":
    return linear_solve.solve_lu
  if kind == "inv":
    return linear_solve.solve_inv
  return functools.partial(linear_solve.solve_normal_cg, tol=1e-12, maxiter=400)


# ---------------------------------------------------------------------------------------------------------------------- cases
class Case:
  names = ("l2", "data")
  n = 4
  tol = 1e-9
  maxiter = 20000
  unrolled = 0          # iterations of the unrolled solve; 0: not offered
  unroll_opts = {}
  solves = ("normal", "normal", "default", "gmres", "bicgstab")
  scipy = False
  batch = True
  dist = 1e-5           # how far from the reference a point reported as converged may be to be compared
  acc = 2e-4
  part = True
  init_grad = True

  def cfg(self, rng):
    return {}

  def opts(self, implicit_diff=True, solve=None, jit=True, **k):
    return dict(dict(tol=self.tol, maxiter=self.maxiter, implicit_diff=implicit_diff, implicit_diff_solve=solve, jit=jit), **k)

  def init(self, cfg, x, vals):
    return J(P.to_tree(x, cfg.get("pt", "flat")))

  def vec(self, params):
    return P.vec(params)

  def call(self, solver, init, vals, split):
    a, k = vals[:split], dict(zip(self.names[split:], vals[split:]))
    return solver.run(init, *a, **k)

  def error(self, out):
    return out.state.error

  def x0(self, cfg, r, kind, meta):
    return {"cold": np.zeros(self.n), "rand": r.randn(self.n), "far": 30.0 * r.randn(self.n)}[kind]

  def same(self, g, vals):
    """Derivatives in a form where those that promise the same agree."""
    return g

  def tangent(self, t, vals):
    return t

  # reference: F(x, vals) = 0 or xstar(vals, hint)
  F = None
  xstar = None


def data_theta(r, rng, n, m=9):
  X, y = P.gen_data(rng, m=m, n=n, cond=rng.choice([2.0, 6.0]))
  return (X, y)


class Smooth(Case):
  def __init__(self, name):
    self.name = name
    self.unrolled = {"GradientDescent": 400, "OptaxSolver": 600, "GaussNewton": 8, "LevenbergMarquardt": 0, "NonlinearCG": 0}.get(name, 0)
    self.solves = ("normal", "default", "gmres", "bicgstab", "cg", "lu", "inv")
    if name == "OptaxSolver":
      self.maxiter, self.tol = 4000, 1e-8
    if name == "PolyakSGD":
      self.maxiter, self.tol = 4000, 1e-8
    if name in ("BFGS", "LBFGS", "NonlinearCG"):
      self.tol, self.maxiter = 1e-8, 3000

  def cfg(self, rng):
    c = {"fam": rng.choice(["lsq", "logistic", "logcosh"]), "pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.3), "vg": rng.chance(0.3)}
    if self.name in ("GaussNewton", "LevenbergMarquardt"):
      c.update(fam=rng.choice(["linear", "tanh"]), pt="flat", aux=rng.chance(0.3), vg=False, lm=rng.choice(["normal", "cg", "qr"]))
    if self.name in ("BFGS", "LBFGS", "NonlinearCG"):
      c["linesearch"] = rng.choice(["zoom", "backtracking", "zoom"])
    if self.name == "PolyakSGD":
      c["fam"] = "lsq"
    if self.name == "NonlinearCG":
      c["ncg"] = rng.choice(["polak-ribiere", "fletcher-reeves", "hestenes-stiefel"])
    c["momentum"] = rng.choice([0.0, 0.5])
    c["accel"] = rng.chance(0.5)
    return c

  def x0(self, cfg, r, kind, meta):
    far = 30.0 if self.name in ("GradientDescent", "LBFGS", "BFGS", "ScipyMinimize") and cfg["fam"] == "lsq" else 3.0
    if self.name in ("GaussNewton", "LevenbergMarquardt"):
      far = 1.0
    return {"cold": np.zeros(self.n), "rand": r.randn(self.n), "far": far * r.randn(self.n)}[kind]

  def theta(self, r, rng, cfg):
    if self.name == "PolyakSGD":  # interpolation: the minimum is 0
      X, _ = P.gen_data(rng, m=9, n=self.n, cond=2.0, noise=0.0)
      return (jnp.asarray(0.0), J((X, X @ r.randn(self.n))))
    return (jnp.asarray(r.uniform(0.3, 1.0)), J(data_theta(r, rng, self.n)))

  def residual(self, cfg):
    nl = jnp.tanh if cfg["fam"] == "tanh" else (lambda z: z)
    return lambda p, l2, data: jnp.concatenate([(nl(0.3 * (data[0] @ p)) / 0.3 - data[1]) / 3.0, jnp.sqrt(l2) * p])

  def F(self, cfg):
    if self.name in ("GaussNewton", "LevenbergMarquardt"):
      res = self.residual(cfg)
      return lambda x, vals: jax.grad(lambda v: 0.5 * jnp.sum(res(v, *vals) ** 2))(x)
    f = P.FUNS[cfg["fam"]]
    return lambda x, vals: jax.grad(lambda v: f(v, *vals))(x)

  def fun(self, cfg):
    base = P.FUNS[cfg["fam"]]

    def fun(p, l2, data):
      return base(p, l2, data)

    def fun_aux(p, l2, data):
      return base(p, l2, data), {"n": jnp.sum(data[0] ** 2) + l2}
    f = fun_aux if cfg["aux"] else fun
    return jax.value_and_grad(f, has_aux=cfg["aux"]) if cfg["vg"] else f

  def solver(self, cfg, **k):
    o = self.opts(**k)
    n = self.name
    if n in ("GaussNewton", "LevenbergMarquardt"):
      res = self.residual(cfg)
      if cfg["aux"]:
        f = lambda p, l2, data: (res(p, l2, data), l2)
      else:
        f = lambda p, l2, data: res(p, l2, data)
      o["maxiter"] = o["maxiter"] if not o["implicit_diff"] else 300
      if n == "LevenbergMarquardt":
        o.update(solver={"normal": "cholesky", "cg": functools.partial(linear_solve.solve_cg, tol=1e-10), "qr": "qr"}[cfg["lm"]], materialize_jac=cfg["lm"] != "cg")
      return getattr(jaxopt, n)(residual_fun=f, has_aux=cfg["aux"], **o)
    f = self.fun(cfg)
    c = dict(has_aux=cfg["aux"], value_and_grad=cfg["vg"])
    if n == "GradientDescent":
      return jaxopt.GradientDescent(f, acceleration=cfg["accel"], **c, **o)
    if n in ("BFGS", "LBFGS"):
      return getattr(jaxopt, n)(f, linesearch=cfg["linesearch"], **c, **o)
    if n == "NonlinearCG":
      return jaxopt.NonlinearCG(f, method=cfg["ncg"], linesearch=cfg["linesearch"], **c, **o)
    if n == "PolyakSGD":
      return jaxopt.PolyakSGD(f, max_stepsize=0.2, momentum=0.0, fun_min=0.0, **c, **o)
    if n == "ArmijoSGD":
      return jaxopt.ArmijoSGD(f, momentum=0.0, **c, **o)
    if n == "OptaxSolver":
      return jaxopt.OptaxSolver(f, optax.sgd(0.3, momentum=cfg["momentum"]), **c, **o)
    raise ValueError(n)


class Prox(Case):
  unrolled = 400

  def __init__(self, name, names, kinds):
    self.name, self.names, self.kinds = name, names, kinds
    if name == "MirrorDescent":
      self.unrolled = 0

  def cfg(self, rng):
    k = rng.choice(self.kinds)
    pt = rng.choice(["flat", "dict", "nest"]) if k in ("none", "lasso", "elastic", "ridge", "nnlasso", "nonneg", "box", "l2ball") else "flat"
    return {"fam": rng.choice(["lsq", "logistic", "logcosh"]), "kind": k, "pt": pt, "accel": rng.chance(0.7), "aux": rng.chance(0.3), "vg": rng.chance(0.3),
            "stepsize": rng.choice([0.0, 0.0, 0.2])}

  def hp(self, r, rng, cfg):
    k = cfg["kind"]
    if k in ("none", "nonneg"):
      return None
    if k in ("lasso", "ridge", "nnlasso", "group"):
      return jnp.asarray(r.uniform(0.05, 0.4))
    if k == "elastic":
      return (jnp.asarray(r.uniform(0.05, 0.3)), jnp.asarray(r.uniform(0.2, 1.0)))
    if k == "box":
      lo = r.uniform(-0.8, 0.1, self.n)
      return J((P.to_tree(lo, cfg["pt"]), P.to_tree(lo + r.uniform(0.3, 1.0, self.n), cfg["pt"])))
    if k in ("simplex", "l1ball"):
      return jnp.asarray(r.uniform(0.5, 1.5))
    if k == "l2ball":
      return jnp.asarray(r.uniform(0.3, 2.0))
    if k in ("hyperplane", "halfspace"):
      return (jnp.asarray(r.randn(self.n)), jnp.asarray(r.uniform(-1, 0.3)))
    if k == "affine":
      return (jnp.asarray(r.randn(2, self.n)), jnp.asarray(0.5 * r.randn(2)))

  def theta(self, r, rng, cfg):
    return (self.hp(r, rng, cfg), jnp.asarray(r.uniform(0.2, 0.8)), J(data_theta(r, rng, self.n)))

  def x0(self, cfg, r, kind, meta):
    return {"cold": np.zeros(self.n), "rand": r.randn(self.n), "far": 5.0 * r.randn(self.n)}[kind]

  def F(self, cfg):
    f, k = P.FUNS[cfg["fam"]], cfg["kind"]

    def F(x, vals):
      hp = vals[0]
      if k == "box":
        hp = (P.vec(hp[0]), P.vec(hp[1]))
      return JPROX[k](x - jax.grad(lambda v: f(v, *vals[1:]))(x), hp) - x
    return F

  def solver(self, cfg, **k):
    base = P.FUNS[cfg["fam"]]
    if cfg["aux"]:
      f = lambda p, l2, data: (base(p, l2, data), l2)
    else:
      f = lambda p, l2, data: base(p, l2, data)
    if cfg["vg"]:
      f = jax.value_and_grad(f, has_aux=cfg["aux"])
    c = dict(has_aux=cfg["aux"], value_and_grad=cfg["vg"], acceleration=cfg["accel"], stepsize=cfg["stepsize"])
    o = self.opts(**k)
    if self.name == "ProximalGradient":
      real = REAL_PROX[cfg["kind"]]
      if cfg["kind"] == "group":
        return jaxopt.ProximalGradient(f, real, **c, **o)
      return jaxopt.ProximalGradient(f, real, **c, **o)
    return jaxopt.ProjectedGradient(f, REAL_PROJ[cfg["kind"]], **c, **o)


class Mirror(Case):
  name = "MirrorDescent"
  names = ("hyperparams_proj", "l2", "c")
  tol = 1e-9
  part = True

  def cfg(self, rng):
    return {"form": "entropy", "stepsize": rng.choice([0.3, 0.6]), "aux": rng.chance(0.3)}

  def theta(self, r, rng, cfg):
    return (None, jnp.asarray(r.uniform(0.5, 1.0)), jnp.asarray(r.randn(self.n)))

  def x0(self, cfg, r, kind, meta):
    if kind == "cold":
      return np.full(self.n, 1.0 / self.n)
    return r.dirichlet(np.full(self.n, 0.5 if kind == "far" else 2.0)) * 0.98 + 0.02 / self.n

  def F(self, cfg):
    def F(x, vals):
      g = vals[2] + vals[1] * (jnp.log(x) + 1)
      return jax.nn.softmax(jnp.log(x) - g) - x
    return F

  def solver(self, cfg, **k):
    obj = lambda x, l2, c: jnp.vdot(c, x) + l2 * jnp.sum(x * jnp.log(x))
    f = (lambda x, l2, c: (obj(x, l2, c), c)) if cfg["aux"] else obj
    pg = jaxopt.MirrorDescent.make_projection_grad(projection.kl_projection_simplex if hasattr(projection, "kl_projection_simplex") else
                                                   (lambda y, hp: jax.nn.softmax(y)), jnp.log)
    return jaxopt.MirrorDescent(f, pg, stepsize=cfg["stepsize"], has_aux=cfg["aux"], **self.opts(**dict(k, maxiter=3000)))


class BCD(Case):
  name = "BlockCoordinateDescent"
  names = ("hyperparams_prox", "data")
  unrolled = 200
  unroll_opts = {"tol": -1.0}  # the point may converge before its derivative does

  def cfg(self, rng):
    return {"kind": rng.choice(["lasso", "ridge", "nnlasso", "elastic"])}

  def theta(self, r, rng, cfg):
    hp = Prox.hp(self, r, rng, cfg)
    return (hp, J(data_theta(r, rng, self.n)))

  def F(self, cfg):
    def F(x, vals):
      X, y = vals[1]
      return JPROX[cfg["kind"]](x - X.T @ (X @ x - y) / X.shape[0], vals[0]) - x
    return F

  def solver(self, cfg, **k):
    return jaxopt.BlockCoordinateDescent(objective.least_squares, REAL_PROX[cfg["kind"]], **self.opts(**k))


class Boxed(Case):
  """LBFGSB and the bounded SciPy minimisers."""
  names = ("bounds", "l2", "data")

  def __init__(self, name):
    self.name = name
    self.scipy = name.startswith("Scipy")
    self.batch = not self.scipy
    self.part = not self.scipy
    self.tol = 1e-8
    self.maxiter = 800
    if self.scipy:
      self.tol = 1e-13

  def cfg(self, rng):
    return {"fam": rng.choice(["lsq", "logistic", "logcosh"]), "kind": "box", "pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.3), "vg": rng.chance(0.3),
            "linesearch": rng.choice(["zoom", "backtracking"]), "method": rng.choice(["L-BFGS-B", "TNC", "SLSQP"])}

  def theta(self, r, rng, cfg):
    return (Prox.hp(self, r, rng, cfg), jnp.asarray(r.uniform(0.2, 0.8)), J(data_theta(r, rng, self.n)))

  def init(self, cfg, x, vals):
    lo, hi = P.vec_np(vals[0][0]), P.vec_np(vals[0][1])
    return J(P.to_tree(np.clip(np.asarray(x), lo, hi), cfg["pt"]))

  F = Prox.F

  def solver(self, cfg, **k):
    f = Smooth.fun(self, cfg)
    c = dict(has_aux=cfg["aux"], value_and_grad=cfg["vg"])
    if self.name == "LBFGSB":
      return jaxopt.LBFGSB(f, linesearch=cfg["linesearch"], **c, **self.opts(**k))
    return jaxopt.ScipyBoundedMinimize(fun=f, method=cfg["method"], tol=1e-13, maxiter=2000, implicit_diff_solve=k.get("solve"), **c)

  def error(self, out):
    return out.state.error if self.name == "LBFGSB" else jnp.asarray(0.0)


class SciMin(Smooth):
  scipy, batch, part = True, False, False

  def cfg(self, rng):
    return dict(super().cfg(rng), method=rng.choice(["BFGS", "L-BFGS-B", "CG", "SLSQP"]))

  def solver(self, cfg, **k):
    return jaxopt.ScipyMinimize(fun=self.fun(cfg), method=cfg["method"], tol=1e-12, maxiter=3000, has_aux=cfg["aux"], value_and_grad=cfg["vg"], implicit_diff_solve=k.get("solve"))

  def error(self, out):
    return jnp.asarray(0.0)


RHO = {"linear": lambda z: z, "soft_l1": lambda z: 2 * (jnp.sqrt(1 + z) - 1), "huber": lambda z: jnp.where(z <= 1, z, 2 * jnp.sqrt(jnp.where(z <= 1, 1.0, z)) - 1),
       "cauchy": lambda z: jnp.log1p(z), "arctan": lambda z: jnp.arctan(z)}


class SciLS(Case):
  scipy, batch, part = True, False, False
  names = ("l2", "data")

  def __init__(self, name):
    self.name = name
    if "Bounded" in name:
      self.names = ("bounds", "l2", "data")

  def cfg(self, rng):
    return {"loss": rng.choice(sorted(RHO)), "f_scale": rng.choice([1.0, 0.4, 2.0]), "pt": rng.choice(["flat", "dict"]), "aux": rng.chance(0.3), "jacrev": rng.chance(0.5), "kind": "box",
            "fam": "lsq"}

  def theta(self, r, rng, cfg):
    X, y = data_theta(r, rng, self.n)
    y = y + 2.0 * (r.rand(len(y)) < 0.3) * r.choice([-1.0, 1.0], len(y))
    t = (jnp.asarray(r.uniform(0.3, 1.0)), J((X, y)))
    return ((Prox.hp(self, r, rng, cfg),) if "Bounded" in self.name else ()) + t

  def init(self, cfg, x, vals):
    if "Bounded" in self.name:
      lo, hi = P.vec_np(vals[0][0]), P.vec_np(vals[0][1])
      x = np.clip(np.asarray(x), lo + 1e-3 * (hi - lo), hi - 1e-3 * (hi - lo))
    return J(P.to_tree(np.asarray(x), cfg["pt"]))

  def res(self, cfg):
    return lambda p, l2, data: (data[0] @ P.vec(p) - data[1], jnp.sqrt(l2) * P.vec(p))

  def F(self, cfg):
    C = cfg["f_scale"]
    res = self.res(cfg)

    def cost(x, l2, data):
      r = jnp.concatenate(res(x, l2, data))
      return 0.5 * C * C * jnp.sum(RHO[cfg["loss"]]((r / C) ** 2))
    if "Bounded" not in self.name:
      return lambda x, vals: jax.grad(cost)(x, *vals)
    return lambda x, vals: jnp.clip(x - 0.05 * jax.grad(cost)(x, *vals[1:]), P.vec(vals[0][0]), P.vec(vals[0][1])) - x

  def solver(self, cfg, **k):
    res = self.res(cfg)
    f = (lambda p, l2, data: (res(p, l2, data), l2)) if cfg["aux"] else res
    return getattr(jaxopt, self.name)(fun=f, method="trf", loss=cfg["loss"], options=dict(f_scale=cfg["f_scale"], ftol=1e-15, xtol=1e-15, gtol=1e-13, max_nfev=3000),
                                      has_aux=cfg["aux"], use_jacrev=cfg["jacrev"], implicit_diff_solve=k.get("solve"))

  def error(self, out):
    return jnp.asarray(0.0)


def T_map(p, A, b):
  return P.to_tree(0.5 * jnp.tanh(A @ P.vec(p)) + b, "flat")


class Fixed(Case):
  names = ("A", "b")

  def __init__(self, name):
    self.name = name
    self.scipy = name.startswith("Scipy")
    self.batch = self.part = not self.scipy
    self.maxiter = 500
    self.unrolled = {"FixedPointIteration": 120}.get(name, 0)
    if name == "AndersonWrapper":
      self.names, self.tol, self.maxiter = ("l2", "data"), 1e-8, 4000

  def cfg(self, rng):
    return {"pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.3), "method": rng.choice(["hybr", "lm"]), "m": rng.choice([2, 4]), "fam": "lsq",
            "jacrev": rng.chance(0.5)}

  def theta(self, r, rng, cfg):
    if self.name == "AndersonWrapper":
      return Smooth.theta(self, r, rng, cfg)
    A = r.randn(self.n, self.n)
    return J((A * (1.2 / np.linalg.norm(A, 2)), r.randn(self.n)))

  def x0(self, cfg, r, kind, meta):
    return {"cold": np.zeros(self.n), "rand": r.randn(self.n), "far": 3.0 * r.randn(self.n)}[kind]

  def F(self, cfg):
    if self.name == "AndersonWrapper":
      return Smooth.F(self, cfg)
    return lambda x, vals: 0.5 * jnp.tanh(vals[0] @ x) + vals[1] - x

  def solver(self, cfg, **k):
    pt = cfg["pt"]
    Tm = lambda p, A, b: P.to_tree(0.5 * jnp.tanh(A @ P.vec(p)) + b, pt)
    R = lambda p, A, b: tmap(lambda u, v: u - v, Tm(p, A, b), p)
    wa = lambda f: (lambda p, A, b: (f(p, A, b), A)) if cfg["aux"] else f
    o = self.opts(**k)
    if self.name == "FixedPointIteration":
      return jaxopt.FixedPointIteration(wa(Tm), has_aux=cfg["aux"], **o)
    if self.name == "AndersonAcceleration":
      return jaxopt.AndersonAcceleration(wa(Tm), history_size=cfg["m"], has_aux=cfg["aux"], ridge=1e-8, **o)
    if self.name == "Broyden":
      return jaxopt.Broyden(wa(R), has_aux=cfg["aux"], **o)
    if self.name == "AndersonWrapper":
      f = lambda p, l2, data: P.f_lsq(p, l2, data)
      inner = jaxopt.GradientDescent(f, stepsize=0.3, acceleration=False, maxiter=o["maxiter"], tol=o["tol"], implicit_diff=o["implicit_diff"],
                                     implicit_diff_solve=o["implicit_diff_solve"], jit=o["jit"])
      return jaxopt.AndersonWrapper(inner, history_size=cfg["m"], ridge=1e-8)
    return jaxopt.ScipyRootFinding(optimality_fun=wa(R), method=cfg["method"], tol=1e-13, has_aux=cfg["aux"], use_jacrev=cfg["jacrev"], implicit_diff_solve=k.get("solve"))

  def error(self, out):
    return jnp.asarray(0.0) if self.scipy else out.state.error


class Bisect(Case):
  name = "Bisection"
  names = ("a", "b")
  n = 1
  tol = 1e-11
  maxiter = 80
  part = False
  solves = ("normal", "default", "cg")

  def cfg(self, rng):
    return {"aux": rng.chance(0.3), "check": rng.chance(0.5)}

  def theta(self, r, rng, cfg):
    return J((r.uniform(0.5, 2.0), r.uniform(-2, 2)))

  def init(self, cfg, x, vals):
    return None if abs(float(np.sum(x))) < 1 else jnp.asarray(float(np.sum(x)))

  def vec(self, p):
    return jnp.reshape(p, (1,))

  def F(self, cfg):
    return lambda x, vals: x ** 3 + vals[0] * x - vals[1]

  def solver(self, cfg, **k):
    f = lambda x, a, b: x ** 3 + a * x - b
    o = self.opts(**dict(k, maxiter=80))
    o.pop("implicit_diff")
    return jaxopt.Bisection((lambda x, a, b: (f(x, a, b), a)) if cfg["aux"] else f, lower=-4.0, upper=3.0, has_aux=cfg["aux"], check_bracket=False, **o)


# ----------------------------------------------------------------------------------------------------------------- QPs, systems
def kkt(Q, c, E, e):
  k = E.shape[0]
  K = jnp.block([[Q, E.T], [E, jnp.zeros((k, k))]])
  return jnp.linalg.solve(K, jnp.concatenate([-c, e]))


def spd(r, n):
  B = r.randn(n, n)
  return B @ B.T / n + 0.5 * np.eye(n)


class QP(Case):
  acc = 2e-3
  dist = 1e-4
  part = False
  solves = ("normal", "normal", "default")

  def __init__(self, name):
    self.name = name
    self.names = {"BoxOSQP": ("params_obj", "params_eq", "params_ineq"), "OSQP": ("params_obj", "params_eq", "params_ineq"), "EqualityConstrainedQP": ("params_obj", "params_eq"),
                  "BoxCDQP": ("params_obj", "params_ineq")}[name]
    self.tol = 1e-9 if name == "BoxCDQP" else 1e-8
    self.maxiter = {"BoxCDQP": 3000}.get(name, 20000)
    if name == "BoxCDQP":
      self.dist, self.acc = 1e-5, 2e-4
      self.unrolled = 100
      self.unroll_opts = {"tol": -1.0}

  def cfg(self, rng):
    c = {"form": rng.choice(["mat", "mv", "fun"]), "lin": rng.choice(["cg", "lu"]), "shape": rng.choice(["both", "ineq", "both", "eq"]), "refine": rng.choice([0.0, 0.0, 1e-2])}
    if c["form"] != "mat":
      c["lin"] = "cg"
    return c

  def theta(self, r, rng, cfg):
    n = self.n
    Q, c = spd(r, n), r.randn(n)
    x = 0.5 * r.randn(n)
    if self.name == "BoxOSQP":
      A = r.randn(4, n)
      w = r.uniform(0.1, 0.8, (2, 4))
      lo, hi = A @ x - w[0], A @ x + w[1]
      if rng.chance(0.5):
        lo[0] = hi[0]
      if rng.chance(0.4):
        hi[1] = np.inf
      if rng.chance(0.3):
        lo[2] = -np.inf
      return J(((Q, c), A, (lo, hi)))
    if self.name == "OSQP":
      A, G = r.randn(1, n), r.randn(3, n)
      eq = J((A, A @ x)) if cfg["shape"] != "ineq" else None
      iq = J((G, G @ x + r.uniform(0.05, 0.5, 3))) if cfg["shape"] != "eq" else None
      return (J((Q, c)), eq, iq)
    if self.name == "EqualityConstrainedQP":
      A = r.randn(2, n)
      return J(((Q, c), (A, A @ x)))
    lo = r.uniform(-0.8, 0.0, n)
    return J(((Q, c), (lo, lo + r.uniform(0.2, 1.0, n))))

  def same(self, g, vals):
    # Q is symmetric: only the symmetric part of its derivative is defined.
    (Q, c), *rest = g
    if self.name == "BoxOSQP":  # where the bounds are equal they stand for one equality
      A, (lo, hi) = rest
      eq = np.asarray(vals[2][0]) == np.asarray(vals[2][1])
      rest = [A, (np.where(eq, 0.5 * (lo + hi), lo), np.where(eq, 0.5 * (lo + hi), hi))]
    return ((0.5 * (Q + np.swapaxes(Q, -1, -2)), c), *rest)

  tangent = same

  def init(self, cfg, x, vals):
    if self.name == "BoxCDQP":
      return jnp.asarray(np.clip(np.asarray(x), np.asarray(vals[1][0]), np.asarray(vals[1][1])))
    return {"kkt": jnp.asarray(x)}

  def constraints(self, vals):
    """Rows E and right-hand sides of everything that may be active: (row, rhs, always active)."""
    if self.name == "BoxOSQP":
      A, (lo, hi) = vals[1], vals[2]
      return [(A[i], lo[i], -1) for i in range(A.shape[0])] + [(A[i], hi[i], 1) for i in range(A.shape[0])]
    if self.name == "OSQP":
      out = [(vals[1][0][i], vals[1][1][i], 0) for i in range(vals[1][0].shape[0])] if vals[1] is not None else []
      return out + ([(vals[2][0][i], vals[2][1][i], 1) for i in range(vals[2][0].shape[0])] if vals[2] is not None else [])
    if self.name == "EqualityConstrainedQP":
      return [(vals[1][0][i], vals[1][1][i], 0) for i in range(vals[1][0].shape[0])]
    lo, hi = vals[1]
    I = jnp.eye(self.n)
    return [(I[i], lo[i], -1) for i in range(self.n)] + [(I[i], hi[i], 1) for i in range(self.n)]

  def active(self, vals, x):
    act, rows = [], set()
    for i, (row, rhs, side) in enumerate(self.constraints(vals)):
      row, rhs = np.asarray(row), float(rhs)
      if not np.isfinite(rhs):
        continue
      gap = abs(row @ x - rhs)
      key = row.tobytes()
      if side == 0 or gap < 1e-3:
        if key in rows:
          continue  # equality written as two bounds
        rows.add(key)
        act.append(i)
      elif gap < 5e-3:
        return None
    return act

  def xstar(self, cfg, vals, hint):
    act = self.active(vals, hint)
    if act is None or len(act) > self.n:
      return None
    def f(vals):
      cs = self.constraints(vals)
      Q, c = vals[0]
      if not act:
        return jnp.linalg.solve(Q, -c)
      return kkt(Q, c, jnp.stack([cs[i][0] for i in act]), jnp.stack([cs[i][1] for i in act]))
    full = np.asarray(f(vals))
    if not np.all(np.isfinite(full)):
      return None
    cs = self.constraints(vals)
    for j, i in enumerate(act):
      m = full[self.n + j]
      twin = sum(1 for c2 in cs if np.array_equal(np.asarray(c2[0]), np.asarray(cs[i][0])) and np.asarray(c2[1]) == np.asarray(cs[i][1])) > 1
      if cs[i][2] != 0 and (abs(m) if twin else m * cs[i][2]) < 5e-3:
        return None
    return lambda vals: f(vals)[:self.n]

  def vec(self, p):
    if self.name == "BoxCDQP":
      return p
    return p.primal[0] if self.name == "BoxOSQP" else p.primal

  def solver(self, cfg, **k):
    o = self.opts(**k)
    o.pop("implicit_diff")
    form = cfg["form"]
    mv = lambda M, x: M @ x
    quad = lambda x, po: 0.5 * x @ po[0] @ x + po[1] @ x
    kw = {"mat": {}, "mv": dict(matvec_Q=mv), "fun": dict(fun=quad)}[form]
    if self.name == "BoxOSQP":
      if form == "mv":
        kw["matvec_A"] = mv
      return jaxopt.BoxOSQP(eq_qp_solve=cfg["lin"], implicit_diff=k.get("implicit_diff", True), **kw, **o)
    if self.name == "OSQP":
      if form == "mv":
        kw.update({"matvec_A": mv} if cfg["shape"] != "ineq" else {}, **({"matvec_G": mv} if cfg["shape"] != "eq" else {}))
      return jaxopt.OSQP(eq_qp_solve=cfg["lin"], **kw, **o)
    if self.name == "EqualityConstrainedQP":
      if form == "mv":
        kw["matvec_A"] = mv
      return jaxopt.EqualityConstrainedQP(refine_regularization=cfg["refine"], refine_maxiter=30, implicit_diff_solve=o["implicit_diff_solve"], jit=o["jit"], tol=1e-12, **kw)
    return jaxopt.BoxCDQP(implicit_diff=k.get("implicit_diff", True), **o)

  def call(self, solver, init, vals, split):
    if isinstance(init, dict):
      x = init["kkt"]
      if self.name == "BoxOSQP":
        init = solver.init_params(x, *vals)
      elif self.name == "OSQP":
        k = base.KKTSolution
        init = k(primal=x, dual_eq=None if vals[1] is None else jnp.zeros(vals[1][1].shape), dual_ineq=None if vals[2] is None else jnp.zeros(vals[2][1].shape))
      else:
        init = base.KKTSolution(primal=x, dual_eq=jnp.zeros(vals[1][1].shape), dual_ineq=None)
    return super().call(solver, init, vals, split)

  def error(self, out):
    if self.name == "EqualityConstrainedQP":
      return jnp.asarray(0.0)
    return jnp.where(out.state.status == 1, out.state.error, jnp.inf) if self.name == "BoxOSQP" else out.state.error


class Refine(Case):
  name = "IterativeRefinement"
  names = ("A", "b")
  tol = 1e-11
  maxiter = 300

  def cfg(self, rng):
    return {"form": rng.choice(["mat", "mv"]), "inner": rng.choice([1e-2, 1e-3])}

  def theta(self, r, rng, cfg):
    return J((r.randn(self.n, self.n) + 3.0 * np.eye(self.n), r.randn(self.n)))

  def init(self, cfg, x, vals):
    return jnp.asarray(x)

  def vec(self, p):
    return p

  def F(self, cfg):
    return lambda x, vals: vals[0] @ x - vals[1]

  def solver(self, cfg, **k):
    o = self.opts(**k)
    o.pop("implicit_diff")
    s = functools.partial(linear_solve.solve_gmres, ridge=cfg["inner"])
    return jaxopt.IterativeRefinement(matvec_A=(lambda M, x: M @ x) if cfg["form"] == "mv" else None, solve=s, **o)


class LinSolve(Case):
  """The linear solvers themselves, as differentiable functions of the matrix and the right-hand side."""
  name = "linear_solve"
  names = ("A", "b")
  part = False
  init_grad = False

  def cfg(self, rng):
    return {"kind": rng.choice(["lu", "cholesky", "cg", "normal_cg", "gmres", "bicgstab", "inv"]), "ridge": rng.choice([0.0, 0.0, 0.3]), "init": rng.chance(0.5)}

  def theta(self, r, rng, cfg):
    A = spd(r, self.n)
    if cfg["kind"] in ("normal_cg", "gmres", "bicgstab", "lu"):
      A = r.randn(self.n, self.n) + 3.0 * np.eye(self.n)
    return J((A, r.randn(self.n)))

  def init(self, cfg, x, vals):
    return jnp.asarray(x)

  def vec(self, p):
    return p

  def F(self, cfg):
    rd = cfg["ridge"]
    if cfg["kind"] == "normal_cg":
      return lambda x, vals: vals[0].T @ (vals[0] @ x) + rd * x - vals[0].T @ vals[1]
    sym = cfg["kind"] in ("cholesky", "cg", "inv")
    def F(x, vals):
      M = 0.5 * (vals[0] + vals[0].T) if sym else vals[0]
      return M @ x + rd * x - vals[1]
    return F

  def solver(self, cfg, **k):
    if cfg["ridge"] and cfg["kind"] in ("lu", "cholesky", "inv"):
      cfg = dict(cfg)
    f = getattr(linear_solve, "solve_" + cfg["kind"])
    kw = {}
    if cfg["kind"] in ("cg", "normal_cg", "gmres", "bicgstab"):
      kw = dict(tol=1e-13, maxiter=400)
    if cfg["ridge"]:
      kw["ridge"] = cfg["ridge"]
    sym = cfg["kind"] in ("cholesky", "cg", "inv")

    class S:
      @staticmethod
      def run(init, A, b):
        M = 0.5 * (A + A.T) if sym else A
        k2 = dict(kw, init=init) if cfg["init"] and cfg["kind"] in ("cg", "normal_cg", "gmres", "bicgstab") else kw
        return jaxopt.OptStep(f(lambda x: M @ x, b, **k2), None)
    return S

  def error(self, out):
    return jnp.asarray(0.0)


class Custom(Case):
  """The decorators on users' own solvers, with defaults, keywords and auxiliary outputs."""
  name = "custom_root"
  names = ("l2", "data")
  part = False

  def cfg(self, rng):
    return {"kind": rng.choice(["root", "fixed_point"]), "aux": rng.chance(0.5), "fam": rng.choice(["lsq", "logistic"]), "default": rng.chance(0.5), "refsig": rng.chance(0.4)}

  def theta(self, r, rng, cfg):
    return (jnp.asarray(r.uniform(0.3, 1.0)), J(data_theta(r, rng, self.n)))

  def init(self, cfg, x, vals):
    return jnp.asarray(x)

  def vec(self, p):
    return p

  def F(self, cfg):
    f = P.FUNS[cfg["fam"]]
    return lambda x, vals: jax.grad(lambda v: f(v, *vals))(x)

  def solver(self, cfg, **k):
    f = P.FUNS[cfg["fam"]]
    g = lambda x, l2, data: jax.grad(f)(x, l2, data)
    if cfg["kind"] == "root":
      def cond(x, l2, data):
        return g(x, l2, data)
      dec = implicit_diff.custom_root
    else:
      def cond(x, l2, data):
        return x - 0.4 * g(x, l2, data)
      dec = implicit_diff.custom_fixed_point
    if cfg["refsig"]:
      plain = cond
      cond = lambda *a, **kw: plain(*a, **kw)

    def solve(init, l2, data, steps=40):
      def body(i, x):
        H = jax.hessian(f)(x, l2, data)
        return x - jnp.linalg.solve(H, g(x, l2, data))
      x = jax.lax.fori_loop(0, 40, body, 0.1 * init)
      return (x, {"steps": steps}) if cfg["aux"] else x
    if not cfg["default"]:
      base = solve
      solve = lambda init, l2, data: base(init, l2, data)
    else:
      base = solve
      def solve(init, l2, data):
        return base(init, l2, data)
    run = dec(cond, has_aux=cfg["aux"], solve=k.get("solve"), reference_signature=(lambda x, l2, data: None) if cfg["refsig"] else None)(solve)

    class S:
      @staticmethod
      def run(init, *a, **kw):
        out = run(init, *a, **kw)
        return jaxopt.OptStep(*out) if cfg["aux"] else jaxopt.OptStep(out, None)
      optimality_fun = staticmethod(cond) if cfg["kind"] == "root" else None
    return S

  def error(self, out):
    return jnp.asarray(0.0)


CASES = {}
for _c in ([Smooth(n) for n in ("GradientDescent", "BFGS", "LBFGS", "NonlinearCG", "PolyakSGD", "ArmijoSGD", "OptaxSolver", "GaussNewton", "LevenbergMarquardt")] +
           [Prox("ProximalGradient", ("hyperparams_prox", "l2", "data"), ["none", "lasso", "elastic", "ridge", "nnlasso", "group"]),
            Prox("ProjectedGradient", ("hyperparams_proj", "l2", "data"), sorted(set(REAL_PROJ) - {"affine"})), Mirror(), BCD(), Boxed("LBFGSB"), Boxed("ScipyBoundedMinimize"), SciMin("ScipyMinimize"),
            SciLS("ScipyLeastSquares"), SciLS("ScipyBoundedLeastSquares")] +
           [Fixed(n) for n in ("FixedPointIteration", "AndersonAcceleration", "AndersonWrapper", "Broyden", "ScipyRootFinding")] + [Bisect()] +
           [QP(n) for n in ("BoxOSQP", "OSQP", "EqualityConstrainedQP", "BoxCDQP")] + [Refine(), LinSolve(), Custom()]):
  CASES[_c.name] = _c


# ----------------------------------------------------------------------------------------------------------------------- plan
def gen_run(rr, case, job_rng):
  modes = [("grad", 2)]
  if not case.scipy:
    modes += [("jit", 4)]
  if case.batch:
    modes += [("vmap", 2), ("chain", 1)]
  if case.name not in ("linear_solve", "custom_root", "OSQP"):
    modes += [("jvp", 2)]
  if case.unrolled:
    modes += [("unrolled", 1), ("forward", 1)]
  splits = sorted(job_rng.sample(range(len(case.names) + 1), 2))
  keep = set(["jit"] + job_rng.sample([m for m, _ in modes if m not in ("jit", "grad")], 2)) if not case.scipy else set(m for m, _ in modes)
  modes = [(m, c) for m, c in modes if m in keep or (m == "grad" and job_rng.chance(0.3))]
  ops = []
  for _ in range(rr.randrange(2, 5)):
    ops.append({"mode": rr.weighted(modes), "theta": rr.getrandbits(30) % 1000003, "start": rr.choice(["cold", "rand", "far", "warm", "sol"] + (["part", "part"] if case.part else [])),
                "k": rr.randrange(1, 6), "w": rr.getrandbits(30), "split": rr.choice(splits), "lane": rr.choice(["ok", "nan", "far"])})
  if rr.chance(0.5):
    ops.append(dict(rr.choice(ops), again=True))
  return {"ops": ops}


def plan(seed, tier):
  q = tier == "quick"
  jobs = []
  for name, case in CASES.items():
    for ci in range((2 if name not in ("ProjectedGradient", "ProximalGradient") else 5) * (1 if q else 10)):
      rng = Rng("C14", seed, name, ci)
      cfg = case.cfg(rng)
      cfg["solve"] = rng.choice(case.solves) if name != "linear_solve" else "normal"
      if name == "custom_root" and cfg["kind"] == "fixed_point" and cfg["solve"] == "cg":
        cfg["solve"] = "gmres"
      if "kind" in cfg and name in ("ProximalGradient", "ProjectedGradient"):
        cfg["kind"] = case.kinds[(ci + seed) % len(case.kinds)]
        if cfg["kind"] not in ("none", "lasso", "elastic", "ridge", "nnlasso", "nonneg", "box", "l2ball"):
          cfg["pt"] = "flat"
      jobs.append({"template": name, "cfg": cfg, "x64": True, "cost": 12, "runs": [gen_run(Rng("C14r", seed, name, ci, r), case, Rng("C14m", seed, name, ci)) for r in range(7 if q else 30)]})
  return jobs


def shrink(job, run):
  for ops in common.ddmin_ops(run["ops"]):
    yield dict(run, ops=ops)
  for i, o in enumerate(run["ops"]):
    for key, simple in (("start", "cold"), ("mode", "grad"), ("lane", "ok")):
      if o[key] != simple:
        yield dict(run, ops=run["ops"][:i] + [dict(o, **{key: simple})] + run["ops"][i + 1:])


def nontrivial(r):
  return r["probes"].get("compared", 0) >= 1 and (sum(r["faults"].values()) >= 1 or r["steps"] >= 2)


# ------------------------------------------------------------------------------------------------------------------- reference
def reference(case, cfg, vals, x, ctx):
  """(polished x, function w -> gradients with respect to vals, jvp) or None next to a kink."""
  x = np.asarray(x, np.float64)
  if case.F is not None:
    F, jac, vjp = get(ctx, "reference", lambda: (lambda F: (jax.jit(F), jax.jit(jax.jacobian(F)), jax.jit(lambda x, v, u: jax.vjp(lambda t: F(x, t), v)[1](u)[0])))(case.F(cfg)))
    x_ref = x
    for _ in range(4):
      A = np.asarray(jac(jnp.asarray(x_ref), vals))
      b = np.asarray(F(jnp.asarray(x_ref), vals))
      if not np.all(np.isfinite(A)) or np.linalg.cond(A) > 1e5:
        return None
      x_ref = x_ref - np.linalg.solve(A, b)
    A = np.asarray(jac(jnp.asarray(x_ref), vals))
    cond = np.linalg.cond(A)
    if not np.all(np.isfinite(x_ref)) or np.linalg.norm(np.asarray(F(jnp.asarray(x_ref), vals))) > 1e-9 or cond > 1e4:
      return None
    for j in range(4):  # a kink nearby
      d = Rng("kink", j).np().randn(len(x_ref)) * 2e-4
      t = tmap(lambda v: v * (1 + 2e-4 * (-1) ** j) + 1e-4 * (-1) ** (j // 2), vals)
      B = np.asarray(jac(jnp.asarray(x_ref + d), t))
      if np.max(np.abs(B - A)) > 0.02 * (1 + np.max(np.abs(A))):
        return None

    def grads(w):
      u = np.linalg.solve(A.T, -np.asarray(w))
      return vjp(jnp.asarray(x_ref), vals, jnp.asarray(u))
    return x_ref, grads
  f = case.xstar(cfg, vals, x)
  if f is None:
    return None
  x_ref = np.asarray(f(vals))
  return x_ref, lambda w: jax.vjp(f, vals)[1](jnp.asarray(w))[0]


def solve_of(cfg):
  if cfg["solve"] in ("lu", "inv") and cfg.get("pt", "flat") != "flat":
    return lin("cg")  # the dense solvers take arrays only
  return lin(cfg["solve"])


def get(ctx, key, make):
  if key not in ctx:
    ctx[key] = make()
  return ctx[key]


def isnone(x):
  return x is None


def finite_only(t):
  """Derivatives with respect to infinite bounds are not defined."""
  return t


def compare(sim, what, got, want, vals, acc, case):
  got, want = case.same(got, vals), case.same(want, vals)
  gl, wl, vl = (jax.tree_util.tree_leaves(t) for t in (got, want, vals))
  scale = 1.0 + max([float(np.max(np.abs(np.where(np.isfinite(np.asarray(v)), np.asarray(w), 0.0)), initial=0.0)) for w, v in zip(wl, vl)] + [0.0])
  sim.check(len(gl) == len(wl), "wrong-derivative", f"{what}: {len(gl)} derivatives for {len(wl)} arguments")
  for g, w, v in zip(gl, wl, vl):
    g, w, v = np.asarray(g), np.asarray(w), np.asarray(v)
    ok = np.isfinite(v)
    sim.check(g.shape == w.shape, "wrong-derivative", f"{what}: shape {g.shape} instead of {w.shape}")
    d = np.where(ok, np.abs(g - w), 0.0)
    sim.check(bool(np.all(d <= acc * scale)), "wrong-derivative", lambda: f"{what}: derivative {g.ravel()[:6]}, the solution map has {w.ravel()[:6]} (difference {np.max(d):.3g}, scale {scale:.3g})")


def execute(job, run, ctx, sim):
  case, cfg = CASES[job["template"]], job["cfg"]
  K = len(case.names)
  solver = get(ctx, "solver", lambda: case.solver(cfg, solve=solve_of(cfg)))
  positional = case.name in ("linear_solve",)
  acc = (0.3 if isinstance(case, QP) else 2e-2) if cfg["solve"] == "default" else case.acc
  prev = None
  seen = {}
  done = 0
  solve = get(ctx, "run", lambda: (lambda i, v: case.call(solver, i, v, K)) if case.scipy else jax.jit(lambda i, v: case.call(solver, i, v, K)))

  def value(init, vals):
    out = solve(init, vals)
    return np.asarray(case.vec(out.params)), float(np.asarray(case.error(out)))

  for k, op in enumerate(run["ops"]):
    r = Rng("theta", op["theta"])
    vals = case.theta(r.np(), r, cfg)
    rw = Rng("w", op["w"]).np()
    w = jnp.asarray(rw.randn(case.n))
    split = K if positional else op["split"]
    start = op["start"]
    if op["mode"] in ("unrolled", "forward") and start not in ("cold", "rand", "far"):
      start = "rand"  # unrolled iterations are differentiated only when they converge from elsewhere
    if start == "warm" and prev is None:
      start = "rand"
    rs = Rng("start", op["theta"], op["w"]).np()
    if start in ("cold", "rand", "far"):
      x0 = case.x0(cfg, rs, start, None)
    elif start == "warm":
      x0 = prev
      sim.fault("warm_start")
    else:
      x0 = case.x0(cfg, rs, "rand", None)
    init = case.init(cfg, x0, vals)
    if start == "sol":
      x0, _ = value(init, vals)
      init = case.init(cfg, x0, vals)
      sim.fault("start_at_solution")
    if start == "part":
      st = solver.init_state(init, *vals)
      p = init
      for _ in range(op["k"]):
        p, st = solver.update(p, st, *vals)
      if np.all(np.isfinite(np.asarray(case.vec(p)))):
        init = p
      sim.fault("interrupted_solve")
    x, err = value(init, vals)
    if not (np.all(np.isfinite(x)) and err <= max(case.tol, 1e-30) * 1.0000001):
      sim.probe("not_converged")
      continue
    prev = x
    ref = reference(case, cfg, vals, x, ctx)
    if ref is None:
      sim.probe("kink_or_ill_conditioned")
      continue
    x_ref, grads = ref
    if np.max(np.abs(x - x_ref)) > case.dist * (1 + np.max(np.abs(x_ref))):
      sim.probe("far_from_reference")
      continue
    want = np_tree(grads(w))
    mode = op["mode"]
    sim.probe("mode_" + mode)
    sim.probe("start_" + start)
    what = f"operation {k} ({mode}, start {start}, {split} of {K} arguments by position)"

    def L(s):
      def loss(w, init, vals):
        return jnp.vdot(w, case.vec(case.call(s, init, vals, split).params))
      return loss
    arg_init = (1,) if init is not None and case.init_grad else ()
    which = arg_init + (2,)

    def checked(s, tag, jit, a):
      f = get(ctx, ("g", tag, split, which, jit), lambda: jax.jit(jax.grad(L(s), which)) if jit else jax.grad(L(s), which))
      return f(*a)

    want = np_tree(case.same(want, vals))
    if mode in ("grad", "jit"):
      g = checked(solver, "implicit", mode == "jit", (w, init, vals))
      compare(sim, what, g[-1], want, vals, acc, case)
      if arg_init:
        zero = all(not np.any(np.asarray(l)) for l in jax.tree_util.tree_leaves(g[0]))
        sim.check(zero, "derivative-of-the-start", lambda: f"{what}: derivative with respect to the initial point {g[0]}")
    elif mode == "vmap":
      f = get(ctx, ("v", split, which), lambda: jax.jit(jax.vmap(jax.grad(L(solver), which))))
      r2 = Rng("theta", op["theta"] + 1)
      other = case.theta(r2.np(), r2, dict(cfg))
      if op["lane"] == "nan":
        other = tmap(lambda v: v * jnp.nan, other)
        sim.fault("nan_lane")
      if jax.tree_util.tree_structure(other) != jax.tree_util.tree_structure(vals):
        other = vals
      oi = init
      if op["lane"] == "far":
        oi = tmap(lambda v: v * 3.0 + 0.1, init) if case.name not in ("Bisection", "MirrorDescent", "LBFGSB", "BoxCDQP") else init
        sim.fault("far_lane")
      a = tmap(lambda *t: jnp.stack(t), (w, init, vals), (w, oi, other))
      g = tmap(lambda t: t[0], f(*a))
      compare(sim, what, g[-1], want, vals, acc, case)
    elif mode == "chain":
      # a second solve, of another problem, warm-started (traced) by the first: nothing flows through the warm start
      r2 = Rng("theta", op["theta"] + 7)
      first = case.theta(r2.np(), r2, cfg)
      if isinstance(case, QP) or case.name in ("Bisection", "LBFGSB", "BoxCDQP", "linear_solve") or jax.tree_util.tree_structure(first) != jax.tree_util.tree_structure(vals):
        continue
      def both(first, vals, w, init):
        p = case.call(solver, init, first, split).params
        return jnp.vdot(w, case.vec(case.call(solver, p, vals, split).params))
      f = get(ctx, ("c", split), lambda: jax.jit(jax.value_and_grad(both, (0, 1))))
      v, (g1, g2) = g = f(first, vals, w, init)
      sim.fault("traced_warm_start")
      sim.check(all(not np.any(np.asarray(l)) for l in jax.tree_util.tree_leaves(g1)), "derivative-of-the-start", lambda: f"{what}: derivative {g1} with respect to the problem that produced the warm start")
      if abs(float(v) - float(jnp.vdot(w, x_ref))) <= 1e-4 * (1 + abs(float(v))):
        compare(sim, what, g2, want, vals, acc, case)
    elif mode == "jvp":
      tang = case.tangent(tmap(lambda v: jnp.where(jnp.isfinite(v), jnp.asarray(Rng("t", op["w"], str(np.shape(v))).np().randn(*np.shape(v))), 0.0), vals), vals)
      s = solver
      lk = solve_of(cfg) or linear_solve.solve_normal_cg
      sol = case.call(s, init, vals, K).params
      f = get(ctx, "jvp", lambda: (lambda sol, vals, tang: implicit_diff.root_jvp(s.optimality_fun, sol, tuple(vals), tuple(tang), solve=lk)))
      dx = case.vec(f(sol, vals, tang))
      got = float(jnp.vdot(w, dx))
      dot = sum(float(np.sum(np.where(np.isfinite(np.asarray(v)), np.asarray(a) * np.asarray(b), 0.0))) for a, b, v in zip(*(jax.tree_util.tree_leaves(t) for t in (want, tang, vals))))
      mag = sum(float(np.sum(np.where(np.isfinite(np.asarray(v)), np.abs(np.asarray(a) * np.asarray(b)), 0.0))) for a, b, v in zip(*(jax.tree_util.tree_leaves(t) for t in (want, tang, vals))))
      sim.check(abs(got - dot) <= acc * (1 + mag), "wrong-derivative", f"{what}: forward derivative {got}, the solution map has {dot}")
      g = got
    else:
      un = get(ctx, "unrolled", lambda: case.solver(cfg, implicit_diff=False, maxiter=case.unrolled, unroll=True, **case.unroll_opts))
      xu = np.asarray(case.vec(get(ctx, "urun", lambda: jax.jit(lambda i, v: case.call(un, i, v, K)))(init, vals).params))
      if not np.max(np.abs(xu - x_ref)) <= 1e-6 * (1 + np.max(np.abs(x_ref))):
        sim.probe("unrolled_not_converged")
        continue
      if mode == "unrolled":
        f = get(ctx, ("u", split), lambda: jax.jit(jax.grad(L(un), (2,))))
        g = f(w, init, vals)
        compare(sim, what, g[-1], want, vals, 5e-3, case)
      else:
        tang = case.tangent(tmap(lambda v: jnp.asarray(Rng("t", op["w"], str(np.shape(v))).np().randn(*np.shape(v))), vals), vals)
        fw = get(ctx, "fwd", lambda: case.solver(cfg, implicit_diff=False, maxiter=case.unrolled, unroll=False, **case.unroll_opts))
        f = get(ctx, ("fw", split), lambda: jax.jit(lambda w, i, v, t: jax.jvp(lambda v: L(fw)(w, i, v), (v,), (t,))[1]))
        g = got = float(f(w, init, vals, tang))
        dot = sum(float(np.sum(np.asarray(a) * np.asarray(b))) for a, b in zip(*(jax.tree_util.tree_leaves(t) for t in (want, tang))))
        mag = sum(float(np.sum(np.abs(np.asarray(a) * np.asarray(b)))) for a, b in zip(*(jax.tree_util.tree_leaves(t) for t in (want, tang))))
        sim.check(abs(got - dot) <= 5e-3 * (1 + mag), "wrong-derivative", f"{what}: forward derivative {got}, the solution map has {dot}")
    done += 1
    sim.probe("compared")
    sim.steps += 1
    dg = digest_tree(g)
    sim.log(k, mode, start, split, dg)
    key = (mode, op["theta"], op["w"], split, op["lane"], digest_tree(init))
    if key in seen:
      sim.check(seen[key] == dg, "derivative-changes", lambda: f"{what}: the same request earlier in the history gave other bits")
      sim.probe("repeated")
    seen[key] = dg
