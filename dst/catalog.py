"""Catalogue of real solvers under simulation: configuration space, problems, construction.

A template knows how to draw a configuration (JSON), to build a solver from it, and to draw a problem. Data always travels
through the *args/**kwargs of init_state/update/run so that one compiled solver serves many simulated runs.
"""
import collections
import functools

import numpy as np
import jax
import jax.numpy as jnp
import optax

import jaxopt
from jaxopt import objective, projection, prox

from dst import problems as P
from dst.core import Rng

Prob = collections.namedtuple("Prob", "init args kwargs meta")
REG = {}


def register(cls):
  t = cls()
  REG[t.name] = t
  return cls


def J(tree):
  """numpy pytree -> jax arrays."""
  return jax.tree_util.tree_map(jnp.asarray, tree)


def stepsize_schedule(kind):
  """Step-size option: number, or a callable of the iteration number."""
  if isinstance(kind, str):
    a = float(kind.split(":")[1])
    if kind.startswith("sqrt"):
      return lambda it: a / jnp.sqrt(it + 1.0)
    return lambda it: a / (1.0 + 0.3 * it)
  return kind


def wrap_fun(fun, cfg):
  """Objective in the calling convention selected by cfg (aux, value_and_grad); returns (fun, solver kwargs)."""
  vg = cfg.get("vg", "no")
  aux = cfg.get("aux", False)
  f = P.with_aux(fun) if aux else fun
  if vg == "no":
    return f, dict(has_aux=aux, value_and_grad=False)
  return jax.value_and_grad(f, has_aux=aux), dict(has_aux=aux, value_and_grad=True)


class Template:
  name = None
  group = None
  data_each_step = True      # update accepts other data without a new init_state
  has_modes = True           # jit/unroll/implicit_diff accepted
  scannable = True           # unroll=True with jit is meaningful
  feasible_kind = None
  n = 5
  default_maxiter = 12
  tols = (1e-2, 1e-3, 1e-5)

  def cfg(self, rng):
    return {}

  def make(self, cfg, jit=True, unroll="auto", implicit_diff=True, maxiter=None, tol=1e-12, **kw):
    k = dict(jit=jit, unroll=unroll, maxiter=maxiter or self.default_maxiter if maxiter is None else maxiter, tol=tol)
    if implicit_diff is not None and self.has_implicit:
      k["implicit_diff"] = implicit_diff
    k.update(kw)
    return self.build(cfg, k)

  has_implicit = True

  def stopped(self, cfg, params, state, tol):
    """The documented stop rule, applied to the result of an update."""
    return not float(np.asarray(state.error)) > tol

  # -- access to the objective for oracles
  def fun(self, cfg):
    return None

  def flat(self, params):
    return P.vec_np(params)

  def start(self, solver, prob):
    """(params, state) at the beginning of a stepping history."""
    return prob.init, solver.init_state(prob.init, *prob.args, **prob.kwargs)


def smooth_cfg(rng, fams=("lsq", "logistic", "logcosh"), pts=("flat", "dict", "nest"), aux=True, vg=True):
  return {"fam": rng.choice(fams), "pt": rng.choice(pts), "aux": aux and rng.chance(0.4),
          "vg": rng.choice(["no", "no", "yes"]) if vg else "no"}


def smooth_problem(rng, cfg, n, m=10, dtype=np.float64, far=1.0):
  X, y = P.gen_data(rng, m=m, n=n, cond=rng.choice([2.0, 10.0, 60.0]), noise=rng.choice([0.1, 0.5]), dtype=dtype)
  l2 = dtype(rng.choice([0.02, 0.1, 0.5]))
  v = (far * rng.np().randn(n)).astype(dtype)
  return P.to_tree(v, cfg["pt"]), l2, (X, y)


class Smooth(Template):
  """Unconstrained solvers on fun(params, l2, data)."""
  fams = ("lsq", "logistic", "logcosh")
  pts = ("flat", "dict", "nest")
  kwstyle = True

  def fun(self, cfg):
    return P.FUNS[cfg["fam"]]

  def problem(self, rng, cfg):
    dtype = np.float32 if cfg.get("f32") else np.float64
    init, l2, data = smooth_problem(rng, cfg, self.n, dtype=dtype)
    return self.assemble(cfg, init, l2, data)

  def assemble(self, cfg, init, l2, data):
    if cfg.get("kw"):
      return Prob(J(init), (), dict(l2=jnp.asarray(l2), data=J(data)), dict(l2=l2, data=data))
    return Prob(J(init), (jnp.asarray(l2), J(data)), {}, dict(l2=l2, data=data))

  def reparam(self, cfg, prob, rng):
    """Same problem, other starting point."""
    v = rng.np().randn(self.n)
    return prob._replace(init=J(P.to_tree(v, cfg["pt"])))

  def optimum(self, cfg, prob):
    if cfg["fam"] not in P.CONVEX:
      return None
    return P.optimum(cfg["fam"], prob.meta["l2"], prob.meta["data"], self.n)

  def value(self, cfg, prob, params):
    return float(P.FUNS[cfg["fam"]](params, prob.meta["l2"], J(prob.meta["data"])))

  def data_args(self, prob):
    return prob.meta["l2"], prob.meta["data"]


@register
class GD(Smooth):
  name = "GradientDescent"
  group = "pg"

  def cfg(self, rng):
    c = smooth_cfg(rng)
    c["stepsize"] = rng.weighted([(0.0, 5), (0.3, 2), ("sqrt:0.4", 1), ("inv:0.5", 1)])
    c["acceleration"] = rng.chance(0.5)
    c["maxls"] = rng.choice([15, 15, 4, 1])
    c["decrease_factor"] = rng.choice([0.5, 0.8, 0.3])
    c["kw"] = rng.chance(0.3)
    return c

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.GradientDescent(f, stepsize=stepsize_schedule(cfg["stepsize"]), acceleration=cfg["acceleration"],
                                  maxls=cfg["maxls"], decrease_factor=cfg["decrease_factor"], **o, **k)


PROXES = {"lasso": prox.prox_lasso, "elastic": prox.prox_elastic_net,
          "nonneg": prox.make_prox_from_projection(projection.projection_non_negative)}


def tree_prox(kind, pt):
  base = PROXES[kind]

  def apply(x, hp, scaling=1.0):
    return base(x, hp, scaling)
  return apply


@register
class PG(Smooth):
  name = "ProximalGradient"
  group = "pg"

  def cfg(self, rng):
    c = smooth_cfg(rng)
    c["prox"] = rng.choice(["lasso", "elastic", "nonneg"])
    c["stepsize"] = rng.weighted([(0.0, 5), (0.3, 2), ("sqrt:0.4", 1)])
    c["acceleration"] = rng.chance(0.5)
    c["maxls"] = rng.choice([15, 15, 3])
    c["decrease_factor"] = rng.choice([0.5, 0.8])
    return c

  def hyper(self, rng, cfg):
    if cfg["prox"] == "lasso":
      return np.float64(rng.choice([0.02, 0.1, 0.4]))
    if cfg["prox"] == "elastic":
      return (np.float64(rng.choice([0.02, 0.2])), np.float64(rng.choice([0.1, 1.0])))
    return None

  def problem(self, rng, cfg):
    init, l2, data = smooth_problem(rng, cfg, self.n)
    hp = hpt = self.hyper(rng, cfg)
    if cfg["prox"] == "elastic":  # pytrees of the structure of params (traced floats are not broadcast by prox_elastic_net)
      hpt = tuple(P.to_tree(np.full(self.n, h), cfg["pt"]) for h in hp)
    return Prob(J(init), (J(hpt), jnp.asarray(l2), J(data)), {}, dict(l2=l2, data=data, hp=hp))

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.ProximalGradient(f, prox=tree_prox(cfg["prox"], cfg["pt"]), stepsize=stepsize_schedule(cfg["stepsize"]),
                                   acceleration=cfg["acceleration"], maxls=cfg["maxls"],
                                   decrease_factor=cfg["decrease_factor"], **o, **k)

  def optimum(self, cfg, prob):
    return P.lasso_like(cfg["fam"], prob.meta["l2"], prob.meta["data"], self.n, cfg["prox"], prob.meta["hp"])

  def feasibility(self, cfg, prob, params):
    if cfg["prox"] != "nonneg":
      return None
    return P.infeasibility("nonneg", P.vec_np(params), None)


PROJ = {"box": projection.projection_box, "simplex": projection.projection_simplex, "l2ball": projection.projection_l2_ball,
        "l1ball": projection.projection_l1_ball, "nonneg": projection.projection_non_negative}


def box_hyper(rng, n, pt):
  r = rng.np()
  lo = -np.abs(r.randn(n)) * rng.choice([0.2, 1.0])
  hi = np.abs(r.randn(n)) * rng.choice([0.2, 1.0])
  kind = rng.choice(["both", "both", "lo", "hi", "shift", "degenerate"])
  if kind == "lo":
    hi[rng.randrange(n)] = np.inf
  if kind == "hi":
    lo[rng.randrange(n)] = -np.inf
  if kind == "shift":
    lo, hi = lo + 1.3, hi + 1.3
  if kind == "degenerate":
    i = rng.randrange(n)
    hi[i] = lo[i]
  return lo, hi


@register
class ProjG(Smooth):
  name = "ProjectedGradient"
  group = "pg"

  def cfg(self, rng):
    pj = rng.choice(["box", "box", "simplex", "l2ball", "l1ball", "nonneg"])
    c = smooth_cfg(rng, pts=("flat",) if pj in ("simplex", "l1ball") else ("flat", "dict", "nest"))
    c["proj"] = pj
    c["stepsize"] = rng.weighted([(0.0, 5), (0.3, 2), ("sqrt:0.4", 1)])
    c["acceleration"] = rng.chance(0.5)
    c["maxls"] = rng.choice([15, 15, 3])
    c["decrease_factor"] = rng.choice([0.5, 0.8])
    return c

  def problem(self, rng, cfg):
    init, l2, data = smooth_problem(rng, cfg, self.n)
    if cfg["proj"] == "box":
      lo, hi = box_hyper(rng, self.n, cfg["pt"])
      hp = (lo, hi)
      hpt = (P.to_tree(lo, cfg["pt"]), P.to_tree(hi, cfg["pt"]))
    elif cfg["proj"] == "nonneg":
      hp = hpt = None
    else:
      hp = hpt = np.float64(rng.choice([0.5, 1.0, 3.0]))
    return Prob(J(init), (J(hpt), jnp.asarray(l2), J(data)), {}, dict(l2=l2, data=data, hp=hp))

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.ProjectedGradient(f, projection=PROJ[cfg["proj"]], stepsize=stepsize_schedule(cfg["stepsize"]),
                                    acceleration=cfg["acceleration"], maxls=cfg["maxls"],
                                    decrease_factor=cfg["decrease_factor"], **o, **k)

  def optimum(self, cfg, prob):
    return P.lasso_like(cfg["fam"], prob.meta["l2"], prob.meta["data"], self.n, cfg["proj"], prob.meta["hp"])

  def feasibility(self, cfg, prob, params):
    return P.infeasibility(cfg["proj"], P.vec_np(params), prob.meta["hp"])


@register
class MD(Smooth):
  name = "MirrorDescent"
  group = "md"

  def cfg(self, rng):
    c = smooth_cfg(rng, pts=("flat",), vg=False)
    c["stepsize"] = rng.choice([0.5, 0.2, "sqrt:0.7"])
    return c

  def problem(self, rng, cfg):
    init, l2, data = smooth_problem(rng, cfg, self.n)
    v = np.abs(np.asarray(init)) + 0.05
    v = v / v.sum()
    return Prob(J(v), (None, jnp.asarray(l2), J(data)), {}, dict(l2=l2, data=data, hp=None))

  def build(self, cfg, k):
    f = P.with_aux(self.fun(cfg)) if cfg["aux"] else self.fun(cfg)
    pg = jaxopt.MirrorDescent.make_projection_grad(lambda x, hp: jax.nn.softmax(x), jnp.log)
    return jaxopt.MirrorDescent(f, pg, stepsize=stepsize_schedule(cfg["stepsize"]), has_aux=cfg["aux"], **k)

  def reparam(self, cfg, prob, rng):
    v = np.abs(rng.np().randn(self.n)) + 0.05
    return prob._replace(init=J(v / v.sum()))

  def optimum(self, cfg, prob):
    return P.lasso_like(cfg["fam"], prob.meta["l2"], prob.meta["data"], self.n, "simplex", 1.0)

  def feasibility(self, cfg, prob, params):
    return P.infeasibility("simplex", P.vec_np(params), 1.0)


class QN(Smooth):
  group = "qn"
  fams = ("lsq", "logistic", "logcosh", "rosen")

  def ls_cfg(self, rng, c, hz=True, fixed=True):
    c["linesearch"] = rng.weighted([("zoom", 4), ("backtracking", 3)] + ([("hager-zhang", 2)] if hz else []))
    c["linesearch_init"] = rng.choice(["increase", "increase", "max", "current"])
    c["maxls"] = rng.choice([30, 30, 15, 5])
    c["max_stepsize"] = rng.choice([1.0, 1.0, 0.5, 4.0])
    c["increase_factor"] = rng.choice([1.5, 1.2, 3.0])
    if fixed:
      c["stepsize"] = rng.weighted([(0.0, 8), (0.15, 1), ("inv:0.3", 1)])
    c["kw"] = rng.chance(0.25)

  def ls_kw(self, cfg):
    k = dict(linesearch=cfg["linesearch"], linesearch_init=cfg["linesearch_init"], maxls=cfg["maxls"],
             max_stepsize=cfg["max_stepsize"], increase_factor=cfg["increase_factor"])
    if "stepsize" in cfg:
      k["stepsize"] = stepsize_schedule(cfg["stepsize"])
    return k


@register
class BFGS(QN):
  name = "BFGS"

  def cfg(self, rng):
    c = smooth_cfg(rng, fams=self.fams)
    self.ls_cfg(rng, c)
    return c

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.BFGS(f, **self.ls_kw(cfg), **o, **k)


@register
class LBFGS(QN):
  name = "LBFGS"

  def cfg(self, rng):
    c = smooth_cfg(rng, fams=self.fams)
    self.ls_cfg(rng, c)
    c["history_size"] = rng.choice([1, 2, 3, 5, 10])
    c["use_gamma"] = rng.chance(0.7)
    return c

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.LBFGS(f, history_size=cfg["history_size"], use_gamma=cfg["use_gamma"], **self.ls_kw(cfg), **o, **k)


@register
class NCG(QN):
  name = "NonlinearCG"

  def cfg(self, rng):
    c = smooth_cfg(rng, fams=self.fams)
    self.ls_cfg(rng, c, fixed=False)
    c["method"] = rng.choice(["polak-ribiere", "fletcher-reeves", "hestenes-stiefel"])
    return c

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.NonlinearCG(f, method=cfg["method"], **self.ls_kw(cfg), **o, **k)


@register
class LBFGSB(QN):
  name = "LBFGSB"

  def cfg(self, rng):
    c = smooth_cfg(rng, fams=self.fams)
    self.ls_cfg(rng, c, hz=False)
    c["kw"] = False
    c["linesearch"] = rng.choice(["zoom", "zoom", "backtracking"])
    c["history_size"] = rng.choice([1, 2, 3, 5, 10])
    c["use_gamma"] = rng.chance(0.7)
    return c

  def problem(self, rng, cfg):
    init, l2, data = smooth_problem(rng, cfg, self.n)
    lo, hi = box_hyper(rng, self.n, cfg["pt"])
    v = np.clip(P.vec_np(init), lo, hi)
    init = P.to_tree(v, cfg["pt"])
    b = (P.to_tree(lo, cfg["pt"]), P.to_tree(hi, cfg["pt"]))
    return Prob(J(init), (J(b), jnp.asarray(l2), J(data)), {}, dict(l2=l2, data=data, hp=(lo, hi)))

  def reparam(self, cfg, prob, rng):
    v = np.clip(rng.np().randn(self.n), *prob.meta["hp"])
    return prob._replace(init=J(P.to_tree(v, cfg["pt"])))

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.LBFGSB(f, history_size=cfg["history_size"], use_gamma=cfg["use_gamma"], **self.ls_kw(cfg), **o, **k)

  def optimum(self, cfg, prob):
    if cfg["fam"] not in P.CONVEX:
      return None
    return P.lasso_like(cfg["fam"], prob.meta["l2"], prob.meta["data"], self.n, "box", prob.meta["hp"])

  def feasibility(self, cfg, prob, params):
    return P.infeasibility("box", P.vec_np(params), prob.meta["hp"])


class Stoch(Smooth):
  """Stochastic solvers: fun(params, l2, data), data per step as keyword."""
  group = "stoch"
  stochastic = True
  scannable = True

  def problem(self, rng, cfg):
    init, l2, data = smooth_problem(rng, cfg, self.n)
    return Prob(J(init), (jnp.asarray(l2),), dict(data=J(data)), dict(l2=l2, data=data))


@register
class Polyak(Stoch):
  name = "PolyakSGD"

  def cfg(self, rng):
    c = smooth_cfg(rng)
    c["variant"] = rng.choice(["SPS_max", "SPS+"])
    c["momentum"] = rng.choice([0.0, 0.5, 0.9])
    c["max_stepsize"] = rng.choice([1.0, 0.3])
    c["delta"] = rng.choice([0.0, 0.1])
    c["fun_min"] = rng.choice([0.0, -0.1])
    return c

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.PolyakSGD(f, variant=cfg["variant"], momentum=cfg["momentum"], max_stepsize=cfg["max_stepsize"],
                            delta=cfg["delta"], fun_min=cfg["fun_min"], **o, **k)


@register
class Armijo(Stoch):
  name = "ArmijoSGD"

  def cfg(self, rng):
    c = smooth_cfg(rng)
    c["reset_option"] = rng.choice(["increase", "goldstein", "conservative"])
    c["momentum"] = rng.choice([0.0, 0.0, 0.5])
    c["max_stepsize"] = rng.choice([1.0, 0.3, 4.0])
    c["aggressiveness"] = rng.choice([0.9, 0.5, 0.2])
    c["decrease_factor"] = rng.choice([0.8, 0.5])
    c["increase_factor"] = rng.choice([1.5, 2.0])
    c["maxls"] = rng.choice([15, 5])
    return c

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.ArmijoSGD(f, **{a: cfg[a] for a in ("reset_option", "momentum", "max_stepsize", "aggressiveness",
                                                     "decrease_factor", "increase_factor", "maxls")}, **o, **k)


OPTS = {"sgd": lambda: optax.sgd(0.2), "mom": lambda: optax.sgd(0.1, momentum=0.9), "nesterov": lambda: optax.sgd(0.1, momentum=0.8, nesterov=True),
        "adam": lambda: optax.adam(0.05), "adamw": lambda: optax.adamw(0.05, weight_decay=0.01),
        "sched": lambda: optax.sgd(optax.exponential_decay(0.3, 3, 0.7)), "rms": lambda: optax.rmsprop(0.02),
        "chain": lambda: optax.chain(optax.clip_by_global_norm(0.5), optax.adam(0.05))}


@register
class Optax(Stoch):
  name = "OptaxSolver"

  def cfg(self, rng):
    c = smooth_cfg(rng)
    c["opt"] = rng.choice(sorted(OPTS))
    return c

  def build(self, cfg, k):
    f, o = wrap_fun(self.fun(cfg), cfg)
    return jaxopt.OptaxSolver(f, opt=OPTS[cfg["opt"]](), **o, **k)


# --------------------------------------------------------------------------------------------------- least squares
@P.tapped
def r_linear(x, data):
  X, y = data
  return X @ x - y


@P.tapped
def r_curve(x, data):
  X, y = data
  t = jnp.linspace(0.0, 2.0, y.shape[0])
  return x[0] * jnp.exp(-x[1] * t) + x[2] * jnp.cos(t * x[3]) - y


@P.tapped
def r_tanh(x, data):
  X, y = data
  return jnp.tanh(X @ x) + 0.3 * (X @ x) - y


@P.tapped
def r_rosen(x, data):
  X, y = data
  return jnp.concatenate([3.0 * (x[1:] - x[:-1] ** 2), 1.0 - x, 0.05 * y])


RES = {"linear": r_linear, "curve": r_curve, "tanh": r_tanh, "rosen": r_rosen}


class NLS(Template):
  group = "nls"
  data_each_step = False
  n = 4

  def fun(self, cfg):
    return RES[cfg["res"]]

  def res(self, cfg):
    f = self.fun(cfg)
    if cfg.get("aux"):
      return lambda x, data: (f(x, data), {"s": jnp.sum(x), "v": 2.0 * x})
    return f

  def problem(self, rng, cfg):
    X, y = P.gen_data(rng, m=9, n=self.n, cond=rng.choice([2.0, 10.0]), noise=0.2)
    if cfg["res"] == "curve":
      t = np.linspace(0, 2, 9)
      w = [rng.uniform(1, 3), rng.uniform(0.3, 1.5), rng.uniform(-1, 1), rng.uniform(0.5, 2)]
      y = w[0] * np.exp(-w[1] * t) + w[2] * np.cos(t * w[3]) + 0.01 * rng.np().randn(9)
      x0 = np.array(w) + 0.4 * rng.np().randn(4)
    else:
      x0 = rng.np().randn(self.n) * rng.choice([0.5, 1.5])
    return Prob(J(x0), (J((X, y)),), {}, dict(data=(X, y)))

  def reparam(self, cfg, prob, rng):
    return prob._replace(init=J(np.asarray(prob.init) + 0.3 * rng.np().randn(self.n)))

  def flat(self, params):
    return np.asarray(params)


@register
class GN(NLS):
  name = "GaussNewton"

  def cfg(self, rng):
    return {"res": rng.choice(["linear", "curve", "tanh"]), "aux": rng.chance(0.4)}

  def build(self, cfg, k):
    return jaxopt.GaussNewton(self.res(cfg), has_aux=cfg["aux"], **k)


@register
class LM(NLS):
  name = "LevenbergMarquardt"

  def cfg(self, rng):
    c = {"res": rng.choice(["linear", "curve", "tanh", "rosen"]), "aux": rng.chance(0.3), "geodesic": rng.chance(0.3),
         "materialize_jac": rng.chance(0.5), "damping": rng.choice([1e-6, 1e-3, 1.0])}
    c["solver"] = rng.choice(["cholesky", "lu", "qr", "inv"]) if c["materialize_jac"] else rng.choice(["cg", "cg", "lu", "cholesky", "inv"])
    c["stop"] = rng.choice(["grad-l2-norm", "grad-l2-norm", "madsen-nielsen"])
    return c

  def stopped(self, cfg, params, state, tol):
    if cfg["stop"] != "madsen-nielsen":
      return super().stopped(cfg, params, state, tol)
    g = float(np.max(np.abs(np.asarray(state.gradient))))
    d = float(np.linalg.norm(np.asarray(state.delta)))
    return not (g > tol and d > tol * (float(np.linalg.norm(np.asarray(params))) + tol))

  def build(self, cfg, k):
    s = jaxopt.linear_solve.solve_cg if cfg["solver"] == "cg" else cfg["solver"]
    k = dict(k)
    if cfg["stop"] == "madsen-nielsen":
      k.update(xtol=k["tol"], gtol=k["tol"])
    return jaxopt.LevenbergMarquardt(self.res(cfg), has_aux=cfg["aux"], geodesic=cfg["geodesic"], stop_criterion=cfg["stop"],
                                     materialize_jac=cfg["materialize_jac"], damping_parameter=cfg["damping"], solver=s, **k)


# --------------------------------------------------------------------------------------------- fixed points and roots
@P.tapped
def fp_map(p, M, c):
  v = P.vec(p)
  out = 0.5 * jnp.tanh(M @ v) + 0.3 * (M @ v) + c
  return P.to_tree(out, _pt_of(p))


def _pt_of(p):
  return "dict" if isinstance(p, dict) else ("nest" if isinstance(p, tuple) else "flat")


class FP(Template):
  group = "fp"
  data_each_step = True

  def problem(self, rng, cfg):
    r = rng.np()
    M = r.randn(self.n, self.n)
    M = M / np.linalg.norm(M, 2)
    c = r.randn(self.n)
    x0 = r.randn(self.n)
    return Prob(J(P.to_tree(x0, cfg["pt"])), (J(M), J(c)), {}, dict(M=M, c=c))

  def reparam(self, cfg, prob, rng):
    return prob._replace(init=J(P.to_tree(rng.np().randn(self.n), cfg["pt"])))

  def fpf(self, cfg):
    if cfg.get("aux"):
      return lambda p, M, c: (fp_map(p, M, c), {"s": jnp.sum(P.vec(p))})
    return fp_map

  def optimum(self, cfg, prob):
    M, c = prob.meta["M"], prob.meta["c"]
    v = np.zeros(self.n)
    for _ in range(2000):
      v = 0.5 * np.tanh(M @ v) + 0.3 * (M @ v) + c
    return v


@register
class FPI(FP):
  name = "FixedPointIteration"

  def cfg(self, rng):
    return {"pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.4)}

  def build(self, cfg, k):
    return jaxopt.FixedPointIteration(self.fpf(cfg), has_aux=cfg["aux"], **k)


@register
class Anderson(FP):
  name = "AndersonAcceleration"

  def cfg(self, rng):
    return {"pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.3), "history_size": rng.choice([2, 3, 5]),
            "mixing_frequency": rng.choice([1, 1, 2, 3]), "beta": rng.choice([1.0, 0.7]), "ridge": rng.choice([1e-5, 1e-3])}

  def build(self, cfg, k):
    return jaxopt.AndersonAcceleration(self.fpf(cfg), history_size=cfg["history_size"], mixing_frequency=cfg["mixing_frequency"],
                                       beta=cfg["beta"], ridge=cfg["ridge"], has_aux=cfg["aux"], **k)


@register
class AndersonW(Smooth):
  name = "AndersonWrapper"
  group = "aw"
  inner_modes = True

  def cfg(self, rng):
    c = smooth_cfg(rng, aux=False)
    c["inner"] = rng.choice(["gd", "gd", "pg"])
    c["inner_accel"] = rng.chance(0.3)
    c["history_size"] = rng.choice([2, 3, 5])
    c["mixing_frequency"] = rng.choice([None, 1, 2])
    c["beta"] = rng.choice([1.0, 0.7])
    return c

  def problem(self, rng, cfg):
    prob = super().problem(rng, cfg)
    hp = np.float64(0.05) if cfg["inner"] == "pg" else None
    if cfg["inner"] == "pg":
      return prob._replace(args=(jnp.asarray(hp),) + prob.args, meta=dict(prob.meta, hp=hp))
    return prob

  def build(self, cfg, k):
    k = dict(k)
    f, o = wrap_fun(self.fun(cfg), cfg)
    ik = dict(k, stepsize=0.3, acceleration=cfg["inner_accel"], **o)
    if cfg["inner"] == "gd":
      inner = jaxopt.GradientDescent(f, **ik)
    else:
      inner = jaxopt.ProximalGradient(f, prox=prox.prox_lasso, **ik)
    k.pop("maxiter")
    k.pop("tol")
    return jaxopt.AndersonWrapper(inner, history_size=cfg["history_size"], mixing_frequency=cfg["mixing_frequency"],
                                  beta=cfg["beta"], **k)

  def optimum(self, cfg, prob):
    if cfg["inner"] == "gd":
      return super().optimum(cfg, prob)
    return P.lasso_like(cfg["fam"], prob.meta["l2"], prob.meta["data"], self.n, "lasso", prob.meta["hp"])


@P.tapped
def root_map(p, A, b):
  v = P.vec(p)
  return P.to_tree(A @ v + 0.3 * jnp.tanh(v) - b, _pt_of(p))


class RootT(Template):
  group = "root"

  def problem(self, rng, cfg):
    r = rng.np()
    A = np.eye(self.n) + 0.3 * r.randn(self.n, self.n) / np.sqrt(self.n)
    b = r.randn(self.n)
    return Prob(J(P.to_tree(r.randn(self.n), cfg["pt"])), (J(A), J(b)), {}, dict(A=A, b=b))

  def reparam(self, cfg, prob, rng):
    return prob._replace(init=J(P.to_tree(rng.np().randn(self.n), cfg["pt"])))

  def rootf(self, cfg):
    if cfg.get("aux"):
      return lambda p, A, b: (root_map(p, A, b), {"s": jnp.sum(P.vec(p))})
    return root_map

  def optimum(self, cfg, prob):
    A, b = prob.meta["A"], prob.meta["b"]
    v = np.zeros(self.n)
    for _ in range(100):
      F = A @ v + 0.3 * np.tanh(v) - b
      v = v - np.linalg.solve(A + np.diag(0.3 / np.cosh(v) ** 2), F)
    return v


@register
class Broyden(RootT):
  name = "Broyden"

  def cfg(self, rng):
    c = {"pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.3), "history_size": rng.choice([None, 2, 3, 5]),
         "stepsize": rng.weighted([(0.0, 3), (1.0, 1), (0.7, 1)]), "maxls": rng.choice([15, 5]),
         "condition": rng.choice(["wolfe", "armijo", "strong-wolfe"]), "gamma": rng.choice([1.0, 0.8])}
    return c

  def build(self, cfg, k):
    k = dict(k)
    # history_size=None means maxiter: keep the memory independent of the loop budget of a particular incarnation
    h = cfg["history_size"] or 12
    return jaxopt.Broyden(self.rootf(cfg), has_aux=cfg["aux"], history_size=h, stepsize=stepsize_schedule(cfg["stepsize"]), maxls=cfg["maxls"],
                          condition=cfg["condition"], gamma=cfg["gamma"], **k)


@P.tapped
def bis_fun(x, a, s):
  return s * (x ** 3 + 0.5 * x - a)


@register
class Bisec(Template):
  name = "Bisection"
  group = "bisect"
  has_implicit = False
  data_each_step = False
  scannable = True

  def cfg(self, rng):
    return {"lower": rng.choice([-3.0, -2.0]), "upper": rng.choice([2.5, 4.0]), "aux": rng.chance(0.3), "check": rng.chance(0.5)}

  def problem(self, rng, cfg):
    a = rng.uniform(-6, 10)
    s = rng.choice([1.0, -1.0])
    return Prob(None, (jnp.asarray(a), jnp.asarray(s)), {}, dict(a=a, s=s, lower=cfg["lower"], upper=cfg["upper"]))

  def reparam(self, cfg, prob, rng):
    return prob

  def build(self, cfg, k):
    f = (lambda x, a, s: (bis_fun(x, a, s), {"x": 2 * x})) if cfg["aux"] else bis_fun
    return jaxopt.Bisection(f, lower=cfg["lower"], upper=cfg["upper"], has_aux=cfg["aux"], check_bracket=cfg["check"], **k)

  def flat(self, params):
    return np.atleast_1d(np.asarray(params, float))

  def optimum(self, cfg, prob):
    import scipy.optimize
    return np.array([scipy.optimize.brentq(lambda x: x ** 3 + 0.5 * x - prob.meta["a"], -10, 10, xtol=1e-14)])


@register
class IterRef(Template):
  name = "IterativeRefinement"
  group = "ir"
  has_implicit = False
  data_each_step = False

  def cfg(self, rng):
    return {"bar": rng.choice(["none", "bar", "bar"]), "solve": rng.choice(["gmres", "cg", "lu"])}

  def problem(self, rng, cfg):
    r = rng.np()
    B = r.randn(self.n, self.n)
    A = B @ B.T / self.n + 0.5 * np.eye(self.n)
    b = r.randn(self.n)
    if cfg["bar"] == "bar":
      bar = A + 0.15 * np.diag(np.abs(r.randn(self.n)))
      return Prob(J(np.zeros(self.n)), (J(A), J(b), J(bar)), {}, dict(A=A, b=b, bar=bar))
    return Prob(J(np.zeros(self.n)), (J(A), J(b)), {}, dict(A=A, b=b, bar=A))

  def reparam(self, cfg, prob, rng):
    return prob._replace(init=J(rng.np().randn(self.n)))

  def build(self, cfg, k):
    ls = jaxopt.linear_solve
    s = {"gmres": functools.partial(ls.solve_gmres, ridge=1e-3), "cg": functools.partial(ls.solve_cg, ridge=1e-2),
         "lu": lambda mv, b, init=None: ls.solve_lu(mv, b)}[cfg["solve"]]
    bar = None if cfg["bar"] == "none" else (lambda A, x: A @ x)
    return jaxopt.IterativeRefinement(matvec_A=None, matvec_A_bar=bar, solve=s, **k)

  def flat(self, params):
    return np.asarray(params)

  def optimum(self, cfg, prob):
    return np.linalg.solve(prob.meta["A"], prob.meta["b"])


# ------------------------------------------------------------------------------------------------- coordinate descent
BCD_PROX = {"lasso": prox.prox_lasso, "nnlasso": prox.prox_non_negative_lasso, "elastic": prox.prox_elastic_net, "ridge": prox.prox_ridge,
            "nonneg": prox.make_prox_from_projection(projection.projection_non_negative), "none": prox.prox_none,
            "group": prox.prox_group_lasso, "simplex": prox.make_prox_from_projection(projection.projection_simplex)}


@register
class BCD(Template):
  name = "BlockCoordinateDescent"
  group = "bcd"
  data_each_step = False

  def cfg(self, rng):
    o = rng.choice(["lsq", "lsq", "logreg", "mlogreg", "svm"])
    if o == "svm":
      return {"obj": o, "prox": "simplex"}
    if o == "mlogreg":
      return {"obj": o, "prox": rng.choice(["group", "lasso", "none"])}
    return {"obj": o, "prox": rng.choice(["lasso", "nnlasso", "elastic", "ridge", "nonneg", "none"])}

  def hyper(self, rng, cfg):
    if cfg["prox"] in ("nonneg", "none", "simplex"):
      return None
    if cfg["prox"] == "elastic":
      return (np.float64(0.1), np.float64(0.5))
    return np.float64(rng.choice([0.05, 0.3, 1.0]))

  def obj(self, cfg):
    return {"lsq": objective.least_squares, "logreg": objective.binary_logreg, "mlogreg": objective.multiclass_logreg,
            "svm": objective.multiclass_linear_svm_dual}[cfg["obj"]]

  def problem(self, rng, cfg):
    X, y = P.gen_data(rng, m=10, n=self.n, cond=rng.choice([2.0, 20.0]), noise=0.3)
    hp = self.hyper(rng, cfg)
    if cfg["obj"] == "svm":
      Y = np.eye(3)[rng.np().randint(0, 3, size=10)]
      l2 = np.float64(rng.choice([0.05, 0.3, 1.0, 10.0]))
      return Prob(J(self.simplices(rng)), (None, jnp.asarray(l2), J((X, Y))), {}, dict(data=(X, Y), hp=None, l2=l2))
    if cfg["obj"] == "mlogreg":
      y = rng.np().randint(0, 3, size=10)
      x0 = 0.3 * rng.np().randn(self.n, 3)
    else:
      if cfg["obj"] == "logreg":
        y = (y > 0).astype(int)
      x0 = 0.5 * rng.np().randn(self.n)
    if cfg["prox"] in ("nnlasso", "nonneg"):
      x0 = np.abs(x0)
    return Prob(J(x0), (J(hp), J((X, y))), {}, dict(data=(X, y), hp=hp))

  def simplices(self, rng):
    return rng.np().dirichlet(np.ones(3), size=10)

  def reparam(self, cfg, prob, rng):
    if cfg["obj"] == "svm":
      return prob._replace(init=J(self.simplices(rng)))
    x0 = 0.5 * rng.np().randn(*np.asarray(prob.init).shape)
    return prob._replace(init=J(np.abs(x0) if cfg["prox"] in ("nnlasso", "nonneg") else x0))

  def build(self, cfg, k):
    return jaxopt.BlockCoordinateDescent(self.obj(cfg), block_prox=BCD_PROX[cfg["prox"]], **k)

  def flat(self, params):
    return np.asarray(params).ravel()

  def feasibility(self, cfg, prob, params):
    if cfg["prox"] in ("nnlasso", "nonneg"):
      return P.infeasibility("nonneg", np.ravel(params), None)
    if cfg["prox"] == "simplex":
      return max(P.infeasibility("simplex", row, 1.0) for row in np.asarray(params))
    return None


@register
class CDQP(Template):
  name = "BoxCDQP"
  group = "cdqp"
  data_each_step = True

  def cfg(self, rng):
    return {"rank": rng.choice(["full", "full", "low"])}

  def problem(self, rng, cfg):
    r = rng.np()
    k = self.n if cfg["rank"] == "full" else self.n - 2
    B = r.randn(self.n, k)
    Q = B @ B.T / self.n + (0.1 * np.eye(self.n) if cfg["rank"] == "full" else 0)
    c = r.randn(self.n)
    lo, hi = box_hyper(rng, self.n, "flat")
    x0 = np.clip(r.randn(self.n), lo, hi)
    return Prob(J(x0), (J((Q, c)), J((lo, hi))), {}, dict(Q=Q, c=c, hp=(lo, hi)))

  def reparam(self, cfg, prob, rng):
    return prob._replace(init=J(np.clip(rng.np().randn(self.n), *prob.meta["hp"])))

  def build(self, cfg, k):
    return jaxopt.BoxCDQP(**k)

  def flat(self, params):
    return np.asarray(params)

  def feasibility(self, cfg, prob, params):
    return P.infeasibility("box", np.asarray(params), prob.meta["hp"])


@register
class BoxOSQP(Template):
  name = "BoxOSQP"
  group = "osqp"
  data_each_step = True
  n = 4
  default_maxiter = 60

  def cfg(self, rng):
    return {"eq_qp_solve": rng.choice(["cg", "lu", "cg+jacobi"]), "momentum": rng.choice([1.6, 1.0]),
            "ssf": rng.choice([10, 3, 7]), "tcf": rng.choice([5, 1, 4]), "rho": rng.choice([0.1, 1.0])}

  def problem(self, rng, cfg):
    r = rng.np()
    n, m = self.n, 5
    B = r.randn(n, n)
    Q = B @ B.T / n + 0.2 * np.eye(n)
    c = r.randn(n)
    A = r.randn(m, n)
    x = 0.3 * r.randn(n)
    lo = A @ x - np.abs(r.randn(m)) * 0.5
    hi = A @ x + np.abs(r.randn(m)) * 0.5
    lo[0] = hi[0] = (A @ x)[0]
    if rng.chance(0.5):
      hi[1] = np.inf
    if rng.chance(0.3):
      lo[2] = -np.inf
    return Prob(None, (J((Q, c)), J(A), J((lo, hi))), {}, dict(Q=Q, c=c, A=A, lo=lo, hi=hi))

  def reparam(self, cfg, prob, rng):
    return prob

  def build(self, cfg, k):
    return jaxopt.BoxOSQP(eq_qp_solve=cfg["eq_qp_solve"], momentum=cfg["momentum"], stepsize_updates_frequency=cfg["ssf"],
                          termination_check_frequency=cfg["tcf"], rho_start=cfg["rho"], check_primal_dual_infeasability=False, **k)

  def start(self, solver, prob):
    p0 = prob.init if prob.init is not None else solver.init_params(None, *prob.args)
    return p0, solver.init_state(p0, *prob.args)

  def flat(self, params):
    return np.asarray(params.primal[0])


def draw(name, seed_parts):
  """(cfg) of a template drawn from seed parts."""
  return REG[name].cfg(Rng("cfg", name, *seed_parts))


def problem(name, cfg, *seed_parts):
  return REG[name].problem(Rng("problem", name, *seed_parts), cfg)
