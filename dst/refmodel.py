"""Executable reference models of every solver: what the state must say (truth) and what the next step must be (prediction).

The models are independent of the code under test: NumPy on flattened parameters, with the user's objective evaluated through JAX directly.
A model keeps its own memory of the history that really happened (pairs, iterates, momentum), so the prediction of a step never reads the solver's
caches. A check is (name, got, want, absolute scale); ambiguous decisions (near-ties of a test in the step) give no check.
"""
import copy

import numpy as np
import jax
import jax.numpy as jnp

from dst import catalog as C
from dst import problems as P
from dst.core import flat

MODELS = {}


def F(x):
  return np.asarray(x, dtype=np.float64)


def model(*names):
  def deco(cls):
    for n in names:
      MODELS[n] = cls
    return cls
  return deco


def sched(kind, it):
  if isinstance(kind, str):
    a = float(kind.split(":")[1])
    return a / np.sqrt(it + 1.0) if kind.startswith("sqrt") else a / (1.0 + 0.3 * it)
  return kind


class Tie(Exception):
  """A decision of the step is within rounding of flipping: the prediction is void."""


def less(a, b, slack):
  """a <= b, with Tie when the two are within slack."""
  if np.isfinite(a) and np.isfinite(b) and abs(a - b) <= slack:
    raise Tie()
  return a <= b


class Model:
  HP = False        # args[0] is the hyper-parameter of a prox / projection / bounds
  rtol = 1e-7
  state_names = ()

  def __init__(self, t, cfg):
    self.t, self.cfg = t, cfg
    self._jit = {}

  # ---- objective through JAX, not through the solver
  def oargs(self, prob):
    return prob.args[1:] if self.HP else prob.args

  def ev(self, prob, p):
    """(value, flat gradient, aux) of the user's objective at the pytree p."""
    if "ev" not in self._jit:
      f = self.t.fun(self.cfg)

      def g(p, args, kwargs):
        v, gr = jax.value_and_grad(f)(p, *args, **kwargs)
        l2, data = (args + (kwargs.get("l2"), kwargs.get("data")))[:2] if len(args) == 2 else (args[0] if args else kwargs["l2"], kwargs["data"])
        return v, gr, P.residual_aux(p, l2, data)
      self._jit["ev"] = jax.jit(g)
    v, g, a = self._jit["ev"](p, tuple(self.oargs(prob)), dict(prob.kwargs))
    return float(v), flat(g), a

  def at(self, prob, tmpl, v):
    return self.ev(prob, self.unflat(tmpl, v))

  def unflat(self, tmpl, v):
    ls, td = jax.tree_util.tree_flatten(tmpl)
    out, i = [], 0
    for l in ls:
      n = int(np.prod(np.shape(l), dtype=int))
      out.append(jnp.asarray(np.asarray(v[i:i + n]).reshape(np.shape(l)), dtype=jnp.asarray(l).dtype))
      i += n
    return jax.tree_util.tree_unflatten(td, out)

  def aux_check(self, prob, s1, p, where):
    if not self.cfg.get("aux"):
      return []
    a = self.ev(prob, p)[2]
    if jax.tree_util.tree_structure(s1.aux) != jax.tree_util.tree_structure(a):
      return [("aux structure", 0.0, 1.0, 0.0)]
    return [(f"aux (at {where})", flat(s1.aux), flat(a), 1e-10 * (1 + np.max(np.abs(flat(a)))))]

  # ---- interface
  def init_truth(self, prob, p, s):
    return []

  def start(self, prob, p, s):
    return {}

  def truth(self, prob, p0, s0, p1, s1):
    return []

  def predict(self, mem, prob, p0, s0, p1, s1):
    """(checks, new memory)."""
    return [], mem

  def warm(self, mem, prob, p, s):
    """Memory after init_state(OptStep(p, s))."""
    return mem

  def recover(self, mem, prob, p0, s0, p1, s1):
    """Memory after a step that could not be predicted (None: nothing is predicted until the next init_state)."""
    return None


def grad_scale(g):
  return 1e-10 * (1 + np.max(np.abs(g))) if np.all(np.isfinite(g)) else 0.0


# ------------------------------------------------------------------------------------------------ proximal gradient family
@model("GradientDescent", "ProximalGradient", "ProjectedGradient")
class PGModel(Model):
  def __init__(self, t, cfg):
    super().__init__(t, cfg)
    self.HP = t.name != "GradientDescent"
    self.kind = {"GradientDescent": "none"}.get(t.name) or cfg.get("prox") or cfg.get("proj")

  def prox(self, prob, tmpl, v, s):
    if not self.HP:
      return v
    hp = prob.args[0]
    if self.kind == "box":
      hp = (flat(hp[0]), flat(hp[1]))
    elif self.kind == "elastic":
      hp = (flat(hp[0])[0], flat(hp[1])[0])
    return P.np_prox(self.kind, v, hp, s)

  def start(self, prob, p, s):
    return {"x": flat(p), "y": flat(p), "t": 1.0, "it": 0, "s": 1.0}

  def is_ls(self):
    return not isinstance(self.cfg["stepsize"], str) and self.cfg["stepsize"] <= 0

  def iterate(self, prob, tmpl, y, it, s):
    """One prox-gradient step from y: (x_next, stepsize reported)."""
    v, g, _ = self.at(prob, tmpl, y)
    if not self.is_ls():
      s = sched(self.cfg["stepsize"], it)
      return self.prox(prob, tmpl, y - s * g, s), s
    eps = np.finfo(np.float64).eps
    x = self.prox(prob, tmpl, y - s * g, s)
    for _ in range(self.cfg["maxls"]):
      d = x - y
      lhs = s * (self.at(prob, tmpl, x)[0] - v)
      rhs = s * (d @ g) + 0.5 * d @ d
      if less(lhs, rhs + eps, 1e-11 * max(abs(v) * s, abs(lhs), abs(rhs), 1e-300) if np.isfinite(lhs) else 0.0):
        break
      s = s * self.cfg["decrease_factor"]
      x = self.prox(prob, tmpl, y - s * g, s)
    return x, (1.0 if s <= 1e-6 else s / self.cfg["decrease_factor"])

  def truth(self, prob, p0, s0, p1, s1):
    x0, x1 = flat(p0), flat(p1)
    st = float(s1.stepsize)
    base = s0.velocity if self.cfg["acceleration"] else p0
    out = [("error", float(s1.error), np.linalg.norm(x1 - x0) / st, 1e-13 * (1 + np.max(np.abs(x1))) / st)]
    return out + self.aux_check(prob, s1, base, "the point where the gradient was taken")

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    x1, st = self.iterate(prob, p0, mem["y"], mem["it"], mem["s"])
    sc = 1 + np.max(np.abs(x1)) if np.all(np.isfinite(x1)) else 1
    out = [("stepsize", float(s1.stepsize), st, 1e-12), ("params", flat(p1), x1, 1e-8 * sc)]
    x1 = flat(p1)
    t1 = 0.5 * (1 + np.sqrt(1 + 4 * mem["t"] ** 2))
    new = {"x": x1, "it": mem["it"] + 1, "s": float(s1.stepsize)}
    if c["acceleration"]:
      y1 = x1 + (mem["t"] - 1) / t1 * (x1 - mem["x"])
      out += [("velocity", flat(s1.velocity), y1, 1e-9 * sc), ("t", float(s1.t), t1, 0.0)]
      new.update(y=y1, t=t1)
    else:
      new.update(y=x1, t=1.0)
    return out, new


@model("MirrorDescent")
class MDModel(Model):
  HP = True

  def start(self, prob, p, s):
    return {"it": 0}

  def truth(self, prob, p0, s0, p1, s1):
    st = sched(self.cfg["stepsize"], int(s0.iter_num))
    return [("error", float(s1.error), np.linalg.norm(flat(p1) - flat(p0)) / st, 1e-12)] + self.aux_check(prob, s1, p0, "the previous params")

  def predict(self, mem, prob, p0, s0, p1, s1):
    st = sched(self.cfg["stepsize"], mem["it"])
    x = flat(p0)
    with np.errstate(all="ignore"):
      z = np.log(x) - st * self.ev(prob, p0)[1]
      e = np.exp(z - np.max(z))
    return [("params", flat(p1), e / e.sum(), 1e-10)], {"it": mem["it"] + 1}


# ------------------------------------------------------------------------------------------------ quasi-Newton family
def init_stepsize(cfg, prev):
  m = cfg.get("linesearch_init", "increase")
  if m == "max":
    return cfg["max_stepsize"]
  if m == "current":
    return prev
  return cfg["max_stepsize"] if prev <= 1e-6 else prev * cfg["increase_factor"]


def backtracking(f, x, d, v0, g0, s, maxls, max_stepsize, condition="strong-wolfe", c1=1e-4, c2=0.9, df=0.8, tol=0.0):
  """Reference line search: the step size it returns, f(x) = (value, gradient)."""
  slope = g0 @ d
  for i in range(maxls):
    s = min(s, max_stepsize)
    v, g = f(x + s * d)
    sl = g @ d
    a = v - (v0 + c1 * s * slope)
    b = {"armijo": 0.0, "strong-wolfe": abs(sl) - c2 * abs(slope), "wolfe": c2 * slope - sl}[condition]
    sc = 1e-12 * max(abs(v0), abs(slope), 1e-300) + 1e-15
    ok = (not np.isnan(a)) and less(a, tol, sc) and (not np.isnan(b)) and (condition == "armijo" or less(b, tol, sc))
    if ok or i == maxls - 1:
      return s
    s = s * df
  return s


class QNModel(Model):
  cap = np.inf

  def f(self, prob, tmpl):
    def g(v):
      val, gr, _ = self.at(prob, tmpl, v)
      return val, gr
    return g

  def common_truth(self, prob, p1, s1):
    v, g, _ = self.ev(prob, p1)
    out = [("value", float(s1.value), v, 1e-11 * (1 + abs(v))), ("grad", flat(s1.grad), g, grad_scale(g))]
    return out + self.aux_check(prob, s1, p1, "the returned params"), g

  def init_truth(self, prob, p, s):
    return self.common_truth(prob, p, s)[0]

  def truth(self, prob, p0, s0, p1, s1):
    out, g = self.common_truth(prob, p1, s1)
    return out + [("error", float(s1.error), np.linalg.norm(g), grad_scale(g))]

  def step(self, prob, p0, s0, p1, s1, d, ls_d=None):
    """Checks of the accepted step along the direction d."""
    c = self.cfg
    x0, x1 = flat(p0), flat(p1)
    st = float(s1.stepsize)
    out = []
    kind = c.get("stepsize", 0.0)
    if isinstance(kind, str) or kind > 0:
      want = sched(kind, int(s0.iter_num))
      out.append(("stepsize", st, want, 1e-13))
    elif c["linesearch"] == "backtracking":
      try:
        want = backtracking(self.f(prob, p0), x0, d, float(s0.value), flat(s0.grad), init_stepsize(c, float(s0.stepsize)), c["maxls"],
                            min(c["max_stepsize"], self.cap))
        out.append(("stepsize", st, want, 1e-13))
      except Tie:
        pass
    sd = np.linalg.norm(d) * abs(st)
    out.append(("params", x1, x0 + st * d, 1e-6 * sd + 1e-13 * (1 + np.max(np.abs(x0)))))
    return out


@model("BFGS")
class BFGSModel(QNModel):
  def start(self, prob, p, s):
    return {"H": np.eye(flat(p).size)}

  def predict(self, mem, prob, p0, s0, p1, s1):
    H = mem["H"]
    out = self.step(prob, p0, s0, p1, s1, -H @ flat(s0.grad))
    s, y = flat(p1) - flat(p0), flat(s1.grad) - flat(s0.grad)
    sy = s @ y
    with np.errstate(all="ignore"):
      rho = 1.0 / sy if sy != 0 else np.inf
    if np.isfinite(rho):
      W = np.eye(s.size) - rho * np.outer(s, y)
      H1 = W @ H @ W.T + rho * np.outer(s, s)
      # the inverse Hessian must satisfy the secant equation and agree with the recursion
      out.append(("H", F(s1.H), H1, 1e-6 * np.max(np.abs(H1))))
    else:
      H1 = H
    return out, {"H": F(s1.H)}


@model("LBFGS")
class LBFGSModel(QNModel):
  def start(self, prob, p, s):
    return {"pairs": []}

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    g = flat(s0.grad)
    q = -g
    al = []
    pairs = mem["pairs"][-c["history_size"]:]
    with np.errstate(all="ignore"):
      for s, y in reversed(pairs):
        sy = s @ y
        r = 0.0 if sy == 0 else 1.0 / sy
        a = r * (s @ q)
        al.append((a, r))
        q = q - a * y
      gam = 1.0
      if pairs and c["use_gamma"]:
        s, y = pairs[-1]
        gam = (s @ y) / (y @ y) if y @ y > 0 else 1.0
      q = gam * q
      for (s, y), (a, r) in zip(pairs, reversed(al)):
        q = q + s * (a - r * (y @ q))
    out = self.step(prob, p0, s0, p1, s1, q)
    new = (flat(p1) - flat(p0), flat(s1.grad) - flat(s0.grad))
    return out, {"pairs": (mem["pairs"] + [new])[-c["history_size"]:]}


@model("NonlinearCG")
class NCGModel(QNModel):
  def start(self, prob, p, s):
    return {"d": -flat(s.grad)}

  def init_truth(self, prob, p, s):
    out = super().init_truth(prob, p, s)
    return out + [("descent_direction", flat(s.descent_direction), -flat(s.grad), 0.0)]

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    g0, g1, d = flat(s0.grad), flat(s1.grad), mem["d"]
    out = self.step(prob, p0, s0, p1, s1, -g0 if c["linesearch"] == "backtracking" else d)
    y = g1 - g0
    if c["method"] == "polak-ribiere":
      b = (y @ g1) / max(g0 @ g0, 1e-6)
    elif c["method"] == "fletcher-reeves":
      b = (g1 @ g1) / max(g0 @ g0, 1e-6)
    else:
      b = (y @ g1) / max(y @ d, 1e-6)
    d1 = -g1 + max(b, 0.0) * d
    out.append(("descent_direction", flat(s1.descent_direction), d1, 1e-8 * (np.linalg.norm(g1) + max(b, 0) * np.linalg.norm(d)) + 1e-15))
    return out, {"d": d1}


@model("LBFGSB")
class LBFGSBModel(QNModel):
  HP = True
  cap = 1.0       # the end point of the direction is the last one known to be feasible

  def bounds(self, prob):
    return flat(prob.args[0][0]), flat(prob.args[0][1])

  def err(self, prob, x, g):
    lo, hi = self.bounds(prob)
    return np.max(np.abs(np.clip(x - g, lo, hi) - x))

  def init_truth(self, prob, p, s):
    out, g = self.common_truth(prob, p, s)
    return out + [("error", float(s.error), self.err(prob, flat(p), g), grad_scale(g))]

  def truth(self, prob, p0, s0, p1, s1):
    out, g = self.common_truth(prob, p1, s1)
    return out + [("error", float(s1.error), self.err(prob, flat(p1), g), grad_scale(g))]

  def start(self, prob, p, s):
    return {"pairs": [], "theta": 1.0}

  def direction(self, prob, mem, x, g):
    """Generalised Cauchy point and subspace minimisation of Byrd, Lu, Nocedal and Zhu with a dense matrix."""
    lo, hi = self.bounds(prob)
    n = x.size
    th = mem["theta"]
    B = th * np.eye(n)
    for s, y in mem["pairs"]:
      Bs = B @ s
      B = B - np.outer(Bs, Bs) / (s @ Bs) + np.outer(y, y) / (s @ y)
    eps = np.finfo(np.float64).eps
    t = np.full(n, np.inf)
    for i in range(n):
      if g[i] < -eps:
        t[i] = (x[i] - hi[i]) / g[i]
      elif g[i] > eps:
        t[i] = (x[i] - lo[i]) / g[i]
      if 0 < abs(t[i]) < 1e-12 or 0.1 * eps < abs(g[i]) < 1e-13:
        raise Tie()
    d = np.where(t < eps, 0.0, -g)
    free = t >= eps
    z = np.zeros(n)
    told = 0.0
    order = [i for i in np.argsort(t, kind="stable") if t[i] > eps]
    k = 0
    while True:
      dt = (t[order[k]] if k < len(order) else np.inf) - told
      df = g @ d + d @ B @ z
      ddf = d @ B @ d
      step = np.inf if not np.any(d) else -df / ddf
      if not np.any(d):
        break
      if np.isfinite(dt) and abs(step - dt) <= 1e-7 * max(abs(dt), abs(step)):
        raise Tie()
      if step < dt:
        z = z + max(step, 0.0) * d
        break
      i = order[k]
      z = z + dt * d
      z[i] = (hi[i] if d[i] > 0 else lo[i]) - x[i]
      free = free.copy()
      free[i] = False
      d = d.copy()
      d[i] = 0.0
      told = t[i]
      k += 1
    xc = x + z
    fr = np.nonzero(free)[0]
    if fr.size == 0:
      return xc - x
    r = (g + B @ z)[fr]
    du = -np.linalg.solve(B[np.ix_(fr, fr)], r)
    al = 1.0
    for j, i in enumerate(fr):
      if du[j] > 0:
        al = min(al, (hi[i] - xc[i]) / du[j])
      elif du[j] < 0:
        al = min(al, (lo[i] - xc[i]) / du[j])
    out = xc.copy()
    out[fr] = xc[fr] + al * du
    return out - x

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    x0, g0 = flat(p0), flat(s0.grad)
    lo, hi = self.bounds(prob)
    s, y = flat(p1) - x0, flat(s1.grad) - g0
    new = dict(mem)
    cv = s @ y
    if abs(cv) <= 1e-13 * np.linalg.norm(s) * np.linalg.norm(y) and cv != 0:
      raise Tie()
    if cv > 0:
      new = {"pairs": (mem["pairs"] + [(s, y)])[-c["history_size"]:], "theta": (y @ y) / cv if c["use_gamma"] else 1.0}
    out = []
    try:
      cond = [abs(a @ b) / (np.linalg.norm(a) * np.linalg.norm(b)) for a, b in mem["pairs"]]
      if cond and min(cond) < 1e-6:
        raise Tie()
      d = self.direction(prob, mem, x0, g0)
      st = float(s1.stepsize)
      kind = c["stepsize"]
      if isinstance(kind, str) or kind > 0:
        w = np.clip(x0 + sched(kind, int(s0.iter_num)) * d, lo, hi)
        out.append(("params", flat(p1), w, 1e-5 * np.linalg.norm(d) + 1e-12 * (1 + np.max(np.abs(x0)))))
      else:
        out += self.step(prob, p0, s0, p1, s1, d)
        out[-1] = out[-1][:3] + (1e-5 * np.linalg.norm(d) * st + 1e-12 * (1 + np.max(np.abs(x0))),)
    except (Tie, np.linalg.LinAlgError):
      out = []
    out.append(("theta", float(s1.theta), new["theta"], 1e-9 * abs(new["theta"])))
    return out, new


# ------------------------------------------------------------------------------------------------ stochastic solvers
@model("PolyakSGD")
class PolyakModel(Model):
  def start(self, prob, p, s):
    return {"v": np.zeros(flat(p).size)}

  def truth(self, prob, p0, s0, p1, s1):
    v, g, _ = self.ev(prob, p0)
    return [("value", float(s1.value), v, 1e-11 * (1 + abs(v))), ("error", float(s1.error), np.linalg.norm(g), grad_scale(g))] + \
        self.aux_check(prob, s1, p0, "the params before the step")

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    v, g, _ = self.ev(prob, p0)
    gg = g @ g
    if c["variant"] == "SPS_max":
      st = min((v - c["fun_min"]) / (gg + c["delta"]), c["max_stepsize"]) if gg + c["delta"] > 0 else c["max_stepsize"]
    else:
      st = 0.0 if gg <= np.finfo(np.float64).eps else max((v - c["fun_min"]) / gg, 0.0)
    vel = c["momentum"] * mem["v"] - st * g
    sc = 1e-9 * (1 + np.max(np.abs(vel)))
    out = [("stepsize", float(s1.stepsize), st, 1e-9 * abs(st)), ("params", flat(p1), flat(p0) + vel, sc)]
    if c["momentum"]:
      out.append(("velocity", flat(s1.velocity), vel, sc))
    return out, {"v": flat(p1) - flat(p0) if not c["momentum"] else vel}


@model("ArmijoSGD")
class ArmijoModel(Model):
  def start(self, prob, p, s):
    return {"v": np.zeros(flat(p).size), "s": self.cfg["max_stepsize"]}

  def truth(self, prob, p0, s0, p1, s1):
    v, g, _ = self.ev(prob, p0)
    st = float(s1.stepsize)
    w = self.at(prob, p0, flat(p0) - st * g)[0]
    return [("value", float(s1.value), w, 1e-10 * (1 + abs(w))), ("error", float(s1.error), np.linalg.norm(g), grad_scale(g))] + \
        self.aux_check(prob, s1, p0, "the params before the step")

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    x = flat(p0)
    v, g, _ = self.ev(prob, p0)
    gg = g @ g
    s = mem["s"]
    if c["reset_option"] == "increase":
      s = min(s * c["increase_factor"], c["max_stepsize"])
    eps = np.finfo(np.float64).eps
    co = 1 - c["aggressiveness"]
    sl = 1e-12 * max(abs(v), gg, 1e-300)
    try:
      f = self.at(prob, p0, x - s * g)[0]
      for _ in range(c["maxls"]):
        viol = not less(s * co * gg, v - f + eps, sl if np.isfinite(f) else 0.0)
        if viol:
          s = min(s * c["decrease_factor"], c["max_stepsize"])
          f = self.at(prob, p0, x - s * g)[0]
        if c["reset_option"] == "goldstein":
          low = not less(v - s * (1 - co) * gg, f, sl if np.isfinite(f) else 0.0)
          if low:
            s = min(s * c["increase_factor"], c["max_stepsize"])
            f = self.at(prob, p0, x - s * g)[0]
          viol = viol or low
        if not viol:
          break
      out = [("stepsize", float(s1.stepsize), s, 1e-12 * s)]
    except Tie:
      out, s = [], float(s1.stepsize)
    vel = -s * g + c["momentum"] * mem["v"]
    sc = 1e-9 * (1 + np.max(np.abs(vel)))
    out.append(("params", flat(p1), x + vel, sc))
    if c["momentum"]:
      out.append(("velocity", flat(s1.velocity), vel, sc))
    return out, {"v": vel, "s": float(s1.stepsize)}


@model("OptaxSolver")
class OptaxModel(Model):
  truth = PolyakModel.truth

  def start(self, prob, p, s):
    self.opt = C.OPTS[self.cfg["opt"]]()
    return {"o": self.opt.init(p)}

  def predict(self, mem, prob, p0, s0, p1, s1):
    g = self.unflat(p0, self.ev(prob, p0)[1])
    if "up" not in self._jit:
      self._jit["up"] = jax.jit(self.opt.update)
    d, o = self._jit["up"](g, mem["o"], p0)
    w = flat(p0) + flat(d)
    return [("params", flat(p1), w, 1e-8 * (np.max(np.abs(flat(d))) + 1e-6))], {"o": o}


# ------------------------------------------------------------------------------------------------ least squares
class NLSModel(Model):
  def rj(self, prob, x):
    if "rj" not in self._jit:
      f = self.t.fun(self.cfg)
      self._jit["rj"] = jax.jit(lambda x, *a: (f(x, *a), jax.jacfwd(f)(x, *a)))
    r, j = self._jit["rj"](jnp.asarray(x), *prob.args)
    return F(r), F(j)

  def hvv(self, prob, x, v):
    if "hvv" not in self._jit:
      f = self.t.fun(self.cfg)
      self._jit["hvv"] = jax.jit(lambda x, v, *a: jax.jvp(lambda z: jax.jvp(lambda w: f(w, *a), (z,), (v,))[1], (x,), (v,))[1])
    return F(self._jit["hvv"](jnp.asarray(x), jnp.asarray(v), *prob.args))

  def auxc(self, s1, x):
    if not self.cfg["aux"]:
      return []
    return [("aux", flat(s1.aux), np.concatenate([[np.sum(x)], 2 * x]), 1e-12 * (1 + np.max(np.abs(x))))]

  def rgv(self, prob, s, x):
    r, j = self.rj(prob, x)
    g = j.T @ r
    return [("residual", F(s.residual), r, grad_scale(r)), ("gradient", F(s.gradient), g, grad_scale(g)),
            ("value", float(s.value), 0.5 * r @ r, 1e-11 * (1 + r @ r))] + self.auxc(s, x), r, j, g


@model("GaussNewton")
class GNModel(NLSModel):
  def init_truth(self, prob, p, s):
    return self.rgv(prob, s, F(p))[0]

  def truth(self, prob, p0, s0, p1, s1):
    out = self.rgv(prob, s1, F(p0))[0]
    return out + [("error", float(s1.error), np.linalg.norm(F(p0) - F(p1)), 1e-12 * (1 + np.max(np.abs(F(p1)))))]

  def predict(self, mem, prob, p0, s0, p1, s1):
    r, j = self.rj(prob, p0)
    g, K = j.T @ r, j.T @ j
    d = F(p0) - F(p1)
    out = [("delta", F(s1.delta), d, 1e-12 * (1 + np.max(np.abs(F(p0)))))]
    if np.linalg.cond(K) < 1e7:
      out.append(("normal equations", np.linalg.norm(K @ d - g), 0.0, 3e-5 * np.linalg.norm(g) + 1e-13))
    return out, mem


@model("LevenbergMarquardt")
class LMModel(NLSModel):
  def state_truth(self, prob, p, s):
    x = F(p)
    out, r, j, g = self.rgv(prob, s, x)
    out.append(("error", float(s.error), np.linalg.norm(g), grad_scale(g)))
    if self.cfg["materialize_jac"]:
      out += [("jac", F(s.jac), j, grad_scale(j)), ("jt", F(s.jt), j.T, grad_scale(j)), ("jtj", F(s.jtj), j.T @ j, grad_scale(j.T @ j))]
    return out

  def init_truth(self, prob, p, s):
    j = self.rj(prob, F(p))[1]
    d = self.cfg["damping"] * np.max(np.diag(j.T @ j))
    return self.state_truth(prob, p, s) + [("damping_factor", float(s.damping_factor), d, 1e-9 * d), ("increase_factor", float(s.increase_factor), 2.0, 0.0)]

  def truth(self, prob, p0, s0, p1, s1):
    return self.state_truth(prob, p1, s1)

  def start(self, prob, p, s):
    return {"mu": float(s.damping_factor), "nu": 2.0}

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    x = F(p0)
    r, j = self.rj(prob, x)
    g, K = j.T @ r, j.T @ j + mem["mu"] * np.eye(x.size)
    d = F(s1.delta)
    cond = np.linalg.cond(K)
    out = []
    if cond > 1e9:
      raise Tie()
    exact = c["solver"] != "cg"
    acc = 0.0
    vel = np.linalg.solve(K, g)
    full = vel
    if c["geodesic"]:
      rpp = self.hvv(prob, x, vel)
      a = np.linalg.solve(K, j.T @ rpp)
      acc = np.linalg.norm(a) / np.linalg.norm(vel)
      full = vel + 0.5 * a
    if exact:
      out.append(("delta", d, -full, 1e-7 * max(cond / 1e6, 1.0) * np.linalg.norm(full) + 1e-14))
    elif not c["geodesic"] and cond < 1e7:
      out.append(("damped normal equations", np.linalg.norm(K @ d + g), 0.0, 3e-5 * np.linalg.norm(g) + 1e-13))
    # gain ratio test on the step really proposed
    with np.errstate(all="ignore"):
      f0, f1 = 0.5 * r @ r, 0.5 * np.sum(self.rj(prob, x + d)[0] ** 2)
      den = 0.5 * d @ (mem["mu"] * d - g)
      rho = (f0 - f1) / den
    noise = 1e-12 * max(f0, 1e-300) / abs(den) if den else np.inf
    if np.isfinite(rho) and abs(rho) <= noise + 1e-9:
      raise Tie()
    if not np.isfinite(den) or abs(den) < 1e-25 or (c["geodesic"] and (abs(acc - 0.75) < (1e-6 if exact else 1e-3))):
      raise Tie()
    ok = rho > 0 and den > 0 and acc <= 0.75
    if ok:
      mu = mem["mu"] * max(1 / 3, 1 - (2 * rho - 1) ** 3)
      nu, x1 = 2.0, x + d
      slack = 1e-6 * mu + 20 * noise * mem["mu"] * (1 + abs(rho)) ** 2
    else:
      mu, nu, x1 = min(mem["mu"] * mem["nu"], 2.0 ** 32), min(2 * mem["nu"], 2.0 ** 32), x
      slack = 1e-9 * mu
    out += [("params", F(p1), x1, 1e-13 * (1 + np.max(np.abs(x)))), ("damping_factor", float(s1.damping_factor), mu, slack),
            ("increase_factor", float(s1.increase_factor), nu, 1e-9 * nu)]
    return out, {"mu": float(s1.damping_factor), "nu": nu}

  def recover(self, mem, prob, p0, s0, p1, s1):
    return {"mu": float(s1.damping_factor), "nu": float(s1.increase_factor)}


# ------------------------------------------------------------------------------------------------ fixed points and roots
class MapModel(Model):
  def fmap(self, prob, tmpl, v):
    if "m" not in self._jit:
      f = C.fp_map if self.t.group == "fp" else C.root_map
      self._jit["m"] = jax.jit(f)
    return flat(self._jit["m"](self.unflat(tmpl, v), *prob.args))

  def jac(self, prob, tmpl, v):
    if "j" not in self._jit:
      f = C.fp_map if self.t.group == "fp" else C.root_map
      fl = lambda p, *a: jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(f(p, *a))])
      self._jit["j"] = jax.jit(jax.jacfwd(fl))
    J = self._jit["j"](self.unflat(tmpl, v), *prob.args)
    return np.concatenate([F(l).reshape(v.size, -1) for l in jax.tree_util.tree_leaves(J)], axis=1)

  def auxc(self, s1, v):
    if not self.cfg["aux"]:
      return []
    return [("aux", flat(s1.aux), np.array([np.sum(v)]), 1e-12 * (1 + np.sum(np.abs(v))))]


@model("FixedPointIteration")
class FPIModel(MapModel):
  def truth(self, prob, p0, s0, p1, s1):
    x0 = flat(p0)
    return [("error", float(s1.error), np.linalg.norm(self.fmap(prob, p0, x0) - x0), 1e-12 * (1 + np.max(np.abs(x0))))] + self.auxc(s1, x0)

  def predict(self, mem, prob, p0, s0, p1, s1):
    return [("params", flat(p1), self.fmap(prob, p0, flat(p0)), 1e-12 * (1 + np.max(np.abs(flat(p0)))))], mem


def mix(hist, ridge, beta):
  X = np.array([h[0] for h in hist])
  R = np.array([h[1] for h in hist])
  m = len(hist)
  G = R @ R.T + ridge * np.eye(m)
  H = np.block([[np.zeros((1, 1)), np.ones((1, m))], [np.ones((m, 1)), G]])
  a = np.linalg.solve(H, np.eye(m + 1)[0])[1:]
  return a @ X + beta * (a @ R), np.linalg.cond(H)


@model("AndersonAcceleration")
class AndersonModel(MapModel):
  def start(self, prob, p, s):
    return {"h": [], "it": 0}

  def truth(self, prob, p0, s0, p1, s1):
    m = self.cfg["history_size"]
    pos = int(s0.iter_num) % m
    e = flat(jax.tree_util.tree_map(lambda a: a[pos], s1.params_history))
    w = self.fmap(prob, p0, e)
    rh = np.stack([flat(jax.tree_util.tree_map(lambda a, i=i: a[i], s1.residuals_history)) for i in range(m)])
    out = [("error", float(s1.error), np.linalg.norm(w - e), 1e-12 * (1 + np.max(np.abs(e)))),
           ("params = f(last history entry)", flat(p1), w, 1e-12 * (1 + np.max(np.abs(w)))),
           ("residuals_history", rh[pos], w - e, 1e-12 * (1 + np.max(np.abs(w)))),
           ("residual_gram", F(s1.residual_gram), rh @ rh.T, 1e-10 * (1e-6 + np.max(np.abs(rh @ rh.T))))]
    return out + self.auxc(s1, e)

  def extrap(self, mem, x):
    c = self.cfg
    m = c["history_size"]
    freq = c["mixing_frequency"] or m
    if mem["it"] >= m and mem["it"] % freq == 0:
      e, cond = mix(mem["h"][-m:], c.get("ridge", 1e-5), c["beta"])
      if cond > 1e9:
        raise Tie()
      return e, True
    return x, False

  def predict(self, mem, prob, p0, s0, p1, s1):
    e, _ = self.extrap(mem, flat(p0))
    w = self.fmap(prob, p0, e)
    pos = mem["it"] % self.cfg["history_size"]
    got = flat(jax.tree_util.tree_map(lambda a: a[pos], s1.params_history))
    sc = 1e-6 * (1 + np.max(np.abs(w)))
    return [("params", flat(p1), w, sc), ("params_history entry", got, e, sc)], self.advance(mem, prob, p0, p1, s1)

  def recover(self, mem, prob, p0, s0, p1, s1):
    return self.advance(mem, prob, p0, p1, s1)

  def advance(self, mem, prob, p0, p1, s1):
    pos = mem["it"] % self.cfg["history_size"]
    e = flat(jax.tree_util.tree_map(lambda a: a[pos], s1.params_history))
    return {"h": (mem["h"] + [(e, flat(p1) - e)])[-self.cfg["history_size"]:], "it": mem["it"] + 1}


@model("AndersonWrapper")
class AWModel(Model):
  def __init__(self, t, cfg):
    super().__init__(t, cfg)
    self.HP = cfg["inner"] == "pg"
    self.inner = PGModel(C.REG["ProximalGradient"] if self.HP else C.REG["GradientDescent"],
                         dict(cfg, stepsize=0.3, acceleration=cfg["inner_accel"], prox="lasso", maxls=15, decrease_factor=0.5))
    self.inner.HP = self.HP

  extrap = AndersonModel.extrap

  def start(self, prob, p, s):
    return {"h": [], "it": 0, "in": self.inner.start(prob, p, s.solver_state)}

  def truth(self, prob, p0, s0, p1, s1):
    m = self.cfg["history_size"]
    pos = int(s0.iter_num) % m
    e = flat(jax.tree_util.tree_map(lambda a: a[pos], s1.params_history))
    rh = np.stack([flat(jax.tree_util.tree_map(lambda a, i=i: a[i], s1.residuals_history)) for i in range(m)])
    x1 = flat(p1)
    out = [("error", float(s1.error), np.linalg.norm(x1 - e) / 0.3, 1e-12 * (1 + np.max(np.abs(x1)))), ("solver_state.error", float(s1.solver_state.error), float(s1.error), 0.0),
           ("residuals_history", rh[pos], x1 - e, 1e-12 * (1 + np.max(np.abs(x1)))),
           ("residual_gram", F(s1.residual_gram), rh @ rh.T, 1e-10 * (1e-6 + np.max(np.abs(rh @ rh.T))))]
    return out

  def predict(self, mem, prob, p0, s0, p1, s1):
    e, mixed = self.extrap(mem, flat(p0))
    inm = mem["in"]
    pos = mem["it"] % self.cfg["history_size"]
    got = flat(jax.tree_util.tree_map(lambda a: a[pos], s1.params_history))
    if mixed:
      inm = {"x": got, "y": got, "t": 1.0, "it": 0, "s": 1.0}
    elif not self.cfg["inner_accel"]:
      inm = dict(inm, x=got, y=got)
    x1, _ = self.inner.iterate(prob, p0, inm["y"], inm["it"], inm["s"])
    sc = 1e-6 * (1 + np.max(np.abs(x1)))
    out = [("params", flat(p1), x1, sc), ("params_history entry", got, e, sc), ("solver_state.iter_num", int(s1.solver_state.iter_num), inm["it"] + 1, 0.0)]
    a = flat(p1)
    t1 = 0.5 * (1 + np.sqrt(1 + 4 * inm["t"] ** 2))
    nin = {"x": a, "it": inm["it"] + 1, "s": 0.3}
    nin.update(dict(y=a + (inm["t"] - 1) / t1 * (a - inm["x"]), t=t1) if self.cfg["inner_accel"] else dict(y=a, t=1.0))
    return out, {"h": (mem["h"] + [(got, a - got)])[-self.cfg["history_size"]:], "it": mem["it"] + 1, "in": nin}


@model("Broyden")
class BroydenModel(MapModel):
  def init_truth(self, prob, p, s):
    x = flat(p)
    return [("value", flat(s.value), self.fmap(prob, p, x), 1e-12 * (1 + np.max(np.abs(x))))] + self.auxc(s, x)

  def truth(self, prob, p0, s0, p1, s1):
    x = flat(p1)
    v = self.fmap(prob, p1, x)
    sc = 1e-12 * (1 + np.max(np.abs(x)))
    return [("value", flat(s1.value), v, sc), ("error", float(s1.error), np.linalg.norm(v), sc)] + self.auxc(s1, x)

  def start(self, prob, p, s):
    return {"h": []}

  def predict(self, mem, prob, p0, s0, p1, s1):
    c = self.cfg
    x0, x1 = flat(p0), flat(p1)
    v0, v1 = flat(s0.value), flat(s1.value)
    n = x0.size
    B = c["gamma"] * np.eye(n)
    for cc, dd in mem["h"]:
      B = B + np.outer(cc, dd)
    d = -B @ v0
    st = float(s1.stepsize)
    out = []
    if isinstance(c["stepsize"], str) or c["stepsize"] > 0:
      out.append(("stepsize", st, sched(c["stepsize"], int(s0.iter_num)), 1e-13))
    else:
      def f(v):
        r = self.fmap(prob, p0, v)
        return r @ r, 2 * self.jac(prob, p0, v).T @ r
      prev = float(s0.stepsize)
      s = 1.0 if prev <= 1e-6 else prev * 1.5
      f0, g0 = f(x0)
      out.append(("stepsize", st, backtracking(f, x0, d, f0, g0, s, c["maxls"], 1.0, c["condition"], tol=1e-2), 1e-13))
    out.append(("params", x1, x0 + st * d, 1e-6 * np.linalg.norm(d) * st + 1e-13 * (1 + np.max(np.abs(x0)))))
    dx, dg = x1 - x0, v1 - v0
    v = B.T @ dx
    den = v @ dg
    if den == 0:
      new = (np.zeros(n), np.zeros(n))
    else:
      if abs(den) < 1e-10 * np.linalg.norm(v) * np.linalg.norm(dg):
        raise Tie()
      new = (dx - B @ dg, v / den)
    H = c["history_size"] or 12
    return out, {"h": (mem["h"] + [new])[-H:]}


@model("Bisection")
class BisModel(Model):
  def f(self, prob, x):
    a, s = float(prob.args[0]), float(prob.args[1])
    return s * (x ** 3 + 0.5 * x - a)

  def init_truth(self, prob, p, s):
    lo, hi = self.cfg["lower"], self.cfg["upper"]
    fl, fh = self.f(prob, lo), self.f(prob, hi)
    sign = 1 if fl < 0 and fh >= 0 else (-1 if fl > 0 and fh <= 0 else 0)
    return [("low", float(s.low), lo, 0.0), ("high", float(s.high), hi, 0.0), ("sign", int(s.sign), sign, 0.0)]

  def start(self, prob, p, s):
    return {"lo": self.cfg["lower"], "hi": self.cfg["upper"], "sign": int(s.sign)}

  def truth(self, prob, p0, s0, p1, s1):
    v = self.f(prob, float(p1))
    out = [("value", float(s1.value), v, 1e-12 * (1 + abs(v))), ("error", float(s1.error), abs(v), 1e-12 * (1 + abs(v)))]
    if self.cfg["aux"]:
      out.append(("aux", flat(s1.aux), np.array([2 * float(p1)]), 1e-13))
    return out

  def predict(self, mem, prob, p0, s0, p1, s1):
    m = 0.5 * (mem["lo"] + mem["hi"])
    v = self.f(prob, m)
    if abs(v) < 1e-13:
      raise Tie()
    hi, lo = (m, mem["lo"]) if mem["sign"] * v > 0 else (mem["hi"], m)
    out = [("params", float(p1), m, 1e-15), ("low", float(s1.low), lo, 1e-15), ("high", float(s1.high), hi, 1e-15), ("sign", int(s1.sign), mem["sign"], 0.0)]
    return out, {"lo": float(s1.low), "hi": float(s1.high), "sign": mem["sign"]}

  def recover(self, mem, prob, p0, s0, p1, s1):
    return {"lo": float(s1.low), "hi": float(s1.high), "sign": mem["sign"]}


@model("IterativeRefinement")
class IRModel(Model):
  def truth(self, prob, p0, s0, p1, s1):
    A, b = F(prob.args[0]), F(prob.args[1])
    r = b - A @ F(p1)
    return [("target_residuals", F(s1.target_residuals), r, 1e-12 * (1 + np.max(np.abs(b)))), ("error", float(s1.error), np.linalg.norm(r), 1e-12 * (1 + np.max(np.abs(b))))]

  def predict(self, mem, prob, p0, s0, p1, s1):
    A, b = F(prob.args[0]), F(prob.args[1])
    K = F(prob.args[2]) if self.cfg["bar"] == "bar" else A
    r = b - A @ F(p0)
    K = K + {"gmres": 1e-3, "cg": 1e-2, "lu": 0.0}[self.cfg["solve"]] * np.eye(len(b))
    d = F(p1) - F(p0)
    tol = {"gmres": 3e-5, "cg": 3e-5, "lu": 1e-9}[self.cfg["solve"]]
    return [("correction equation", np.linalg.norm(K @ d - r), 0.0, tol * np.linalg.norm(r) + 1e-12)], mem


# ------------------------------------------------------------------------------------------------ coordinate descent and QP
def bcd_prox(kind, v, hp, s):
  if kind in ("none", "nonneg", "lasso", "elastic"):
    return P.np_prox(kind, v, hp, s)
  if kind == "simplex":
    return P.np_simplex(v)
  lam = float(np.asarray(hp)) * s
  if kind == "nnlasso":
    return np.maximum(v - lam, 0)
  if kind == "ridge":
    return v / (1 + lam)
  nv = np.linalg.norm(v)
  return max(1 - lam / nv, 0) * v if nv else v


@model("BlockCoordinateDescent")
class BCDModel(Model):
  def parts(self, prob):
    X, y = F(prob.args[-1][0]), np.asarray(prob.args[-1][1])
    o = self.cfg["obj"]
    m = len(y)
    if o == "svm":
      l2 = float(prob.args[1])
      return X.T, (lambda z: (z - X.T @ y) / l2), np.sum(X ** 2, 1) / l2
    if o == "lsq":
      return X, (lambda z: (z - y) / m), np.sum(X ** 2, 0)
    if o == "logreg":
      return X, (lambda z: (1 / (1 + np.exp(-z)) - y) / m), 0.25 * np.sum(X ** 2, 0)

    def sub(z):
      e = np.exp(z - z.max(1, keepdims=True))
      return (e / e.sum(1, keepdims=True) - np.eye(z.shape[1])[y]) / m
    return X, sub, 0.5 * np.sum(X ** 2, 0)

  def cached(self, prob, p, s):
    X, sub, _ = self.parts(prob)
    z = X @ F(p)
    return [("predictions", F(s.predictions), z, 1e-11 * (1 + np.max(np.abs(z)))), ("subfun_g", F(s.subfun_g), sub(z), 1e-10)]

  def init_truth(self, prob, p, s):
    return self.cached(prob, p, s)

  def truth(self, prob, p0, s0, p1, s1):
    return self.cached(prob, p1, s1) + [("error", float(s1.error), np.linalg.norm(F(p1) - F(p0)), 1e-12 * (1 + np.max(np.abs(F(p1)))))]

  def predict(self, mem, prob, p0, s0, p1, s1):
    X, sub, L = self.parts(prob)
    W = F(p0).copy()
    hp = prob.args[0]
    for i in range(W.shape[0]):
      g = X[:, i] @ sub(X @ W)
      if self.cfg["obj"] == "svm":
        g = g + np.asarray(prob.args[-1][1])[i] - 1
      W[i] = bcd_prox(self.cfg["prox"], W[i] - g / L[i], hp, 1.0 / L[i])
    return [("params", F(p1), W, 1e-9 * (1 + np.max(np.abs(W))))], mem


@model("BoxCDQP")
class CDQPModel(Model):
  def truth(self, prob, p0, s0, p1, s1):
    return [("error", float(s1.error), np.sum(np.abs(F(p1) - F(p0))), 1e-12 * (1 + np.max(np.abs(F(p1)))))]

  def predict(self, mem, prob, p0, s0, p1, s1):
    (Q, c), (l, u) = [tuple(F(a) for a in b) for b in prob.args]
    x = F(p0).copy()
    for i in range(x.size):
      x[i] = np.clip(x[i] - (Q[i] @ x + c[i]) / Q[i, i], l[i], u[i])
    return [("params", F(p1), x, 1e-9 * (1 + np.max(np.abs(x))))], mem


@model("BoxOSQP")
class OSQPModel(Model):
  def parts(self, prob):
    (Q, c), A, (l, u) = prob.args
    return F(Q), F(c), F(A), F(l), F(u)

  def res(self, prob, p):
    Q, c, A, l, u = self.parts(prob)
    x, z = F(p.primal[0]), F(p.primal[1])
    y = F(p.dual_eq)
    return A @ x - z, Q @ x + c + A.T @ y

  def dual(self, p):
    y = F(p.dual_eq)
    return [("dual_ineq", np.concatenate([F(p.dual_ineq[0]), F(p.dual_ineq[1])]), np.concatenate([np.maximum(y, 0), np.maximum(-y, 0)]), 0.0)]

  def init_truth(self, prob, p, s):
    pr, du = self.res(prob, p)
    return [("primal_residuals", F(s.primal_residuals), pr, 1e-11 * (1 + np.max(np.abs(pr)))),
            ("dual_residuals", F(s.dual_residuals), du, 1e-11 * (1 + np.max(np.abs(du)))), ("rho_bar", float(s.rho_bar), self.cfg["rho"], 0.0)]

  def truth(self, prob, p0, s0, p1, s1):
    pr, du = self.res(prob, p1)
    sc = 1e-11 * (1 + np.max(np.abs(du)) + np.max(np.abs(F(p1.dual_eq))))
    out = [("primal_residuals", F(s1.primal_residuals), pr, sc), ("dual_residuals", F(s1.dual_residuals), du, sc)] + self.dual(p1)
    if int(s0.iter_num) % self.cfg["tcf"] == 0:
      e = max(np.max(np.abs(pr)), np.max(np.abs(du)))
      out.append(("error", float(s1.error), e, sc))
    else:
      out.append(("error", float(s1.error), float(s0.error), 0.0))
    return out

  def start(self, prob, p, s):
    return {"rho": self.cfg["rho"], "it": 0}

  def predict(self, mem, prob, p0, s0, p1, s1):
    c_ = self.cfg
    Q, c, A, l, u = self.parts(prob)
    x, z, y = F(p0.primal[0]), F(p0.primal[1]), F(p0.dual_eq)
    rho, sig, mom = mem["rho"], 1e-6, c_["momentum"]
    K = Q + sig * np.eye(len(c)) + rho * A.T @ A
    b = sig * x - c - A.T @ (y - rho * z)
    xb = x + (F(p1.primal[0]) - x) / mom
    pr0, du0 = self.res(prob, p0)
    if c_["eq_qp_solve"] == "lu":
      tol = 1e-9 * (1 + np.linalg.norm(b)) * max(1, rho)
    else:
      tol = 1.05 * max(0.15 * np.sqrt(np.max(np.abs(pr0)) * np.max(np.abs(du0))), 1e-7 * np.linalg.norm(b)) + 1e-10 * max(1, rho) * (1 + np.linalg.norm(b))
    out = [("linear system", np.linalg.norm(K @ xb - b), 0.0, tol)]
    zb = A @ xb
    zm = z + mom * (zb - z)
    z1 = np.clip(zm + y / rho, l, u)
    y1 = y + rho * (zm - z1)
    sc = 1e-10 * (1 + np.max(np.abs(y1)) + np.max(np.abs(z1))) * max(1.0, rho, 1 / rho)
    out += [("z", F(p1.primal[1]), z1, sc), ("y", F(p1.dual_eq), y1, sc)]
    if mem["it"] % c_["ssf"] == 0:
      pr, du = self.res(prob, p1)
      inf = lambda v: np.max(np.abs(v))
      x1 = F(p1.primal[0])
      with np.errstate(all="ignore"):
        pc = inf(pr) / (inf(A @ x1) + 2.2e-16)
        dc = inf(du) / (max(inf(Q @ x1), inf(A.T @ F(p1.dual_eq)), inf(c)) + 2.2e-16)
        rho = np.clip(rho * np.sqrt(pc / (dc + 2.2e-16)), 1e-6, 1e6)
      noise = 1e-15 * (1 + inf(A @ x1)) / max(inf(pr), 1e-300) + 1e-15 * (1 + inf(c)) / max(inf(du), 1e-300)
      out.append(("rho_bar", float(s1.rho_bar), rho, max(1e-6, 10 * noise) * rho))
    else:
      out.append(("rho_bar", float(s1.rho_bar), rho, 0.0))
    return out, {"rho": float(s1.rho_bar), "it": mem["it"] + 1}


def make(name, cfg):
  return MODELS[name](C.REG[name], cfg)


def snapshot(mem):
  return {k: (v if k == "o" else copy.deepcopy(v)) for k, v in mem.items()}
