"""C09: descent solvers never get worse, and a failed trial never poisons the iterate.

World: the history world (steps, rollbacks, restarts, hand-overs, warm starts, poisoned data) with objectives that are undefined (NaN), infinite or overflow in
regions the trial points run into; and an evaluation world in which single trial evaluations inside a step are lost. The objective outside of the solver is the judge.
"""
import numpy as np
import jax
import jax.numpy as jnp

import jaxopt

from dst import catalog as C
from dst import common, hist
from dst import problems as P
from dst.core import Rng, all_finite, flat, named_leaves

LEVEL = "exploration"
RULE = ("A case is one history of one descent solver on an objective with holes (regions of NaN, infinity or overflow, or none) - steps, rollbacks, restarts, hand-overs, "
        "warm starts, steps on corrupted data - or one sequence of interpreted steps in which chosen trial evaluations are lost. Judged after every step by the objective itself, "
        "recomputed outside the solver. Non-trivial: at least three steps. Distinct: by hash of the event log.")
REAL = ["GradientDescent, ProximalGradient, ProjectedGradient (line search), BFGS, LBFGS, LBFGSB, NonlinearCG with all line searches, LevenbergMarquardt, ArmijoSGD, BlockCoordinateDescent, BoxCDQP"]
STUB = ["data source and durable storage (simulated)", "objective evaluation (real function behind a tap that can lose a call)"]
ASSUMPTIONS = ["x64; fixed data between initialisation and step for the solvers that keep the value in their state",
               "a step may end worse only if its search ran out of budget: the solver flags it (LBFGS, LBFGSB), or no clear descent exists on the first third (half for budgets of five) of the allowed step "
               "range (BFGS, NonlinearCG, ArmijoSGD), or no trial of the backtracking sequence is acceptable (proximal gradient)",
               "slack of the acceptance rules: 1e-6 |f| (approximate Wolfe, Hager-Zhang), machine epsilon / stepsize (FISTA)"]

NAMES = ["GradientDescent", "ProximalGradient", "ProjectedGradient", "BFGS", "LBFGS", "LBFGSB", "NonlinearCG", "LevenbergMarquardt", "ArmijoSGD", "BlockCoordinateDescent", "BoxCDQP"]
FISTA = ("GradientDescent", "ProximalGradient", "ProjectedGradient")
QUASI = ("BFGS", "LBFGS", "LBFGSB", "NonlinearCG")


# ------------------------------------------------------------------------------------------------ objectives with holes
def _base(v, l2, data):
  X, y = data
  r = X @ v - y
  return 0.5 * jnp.mean(r * r) + 0.5 * l2 * jnp.sum(v * v)


def _hole(value):
  @P.tapped
  def f(p, l2, data):
    v = P.vec(p)
    return jnp.where(jnp.max(v) > 1.6, value, _base(v, l2, data))
  return f


@P.tapped
def f_overflow(p, l2, data):
  """A naive sigmoid: infinity over infinity when the argument is large."""
  v = P.vec(p)
  e = jnp.exp(200.0 * v * v)
  return _base(v, l2, data) + 1e-2 * jnp.sum(e / (1.0 + e))


@P.tapped
def f_root(p, l2, data):
  """Square root with a domain; infinite slope at its edge."""
  v = P.vec(p)
  return _base(v, l2, data) - 0.3 * jnp.sum(jnp.sqrt(2.0 - v))


@P.tapped
def f_steep(p, l2, data):
  """Finite everywhere, but quartic walls defeat short budgets."""
  v = P.vec(p)
  return _base(v, l2, data) + 30.0 * jnp.sum(v ** 4)


FAMS = {"hole_nan": _hole(jnp.nan), "hole_inf": _hole(jnp.inf), "overflow": f_overflow, "root": f_root, "steep": f_steep}
for _k, _f in FAMS.items():
  P.FUNS.setdefault(_k, _f)


@P.tapped
def r_log(x, data):
  X, y = data
  return jnp.concatenate([jnp.log(2.0 + X @ x * 0.5) - 0.3 * y, 0.3 * x])


@P.tapped
def r_hole(x, data):
  X, y = data
  return jnp.where(jnp.max(jnp.abs(x)) > 2.0, jnp.inf, jnp.sinh(X @ x) - y)


@P.tapped
def r_expo(x, data):
  """Badly scaled exponentials: geodesic corrections are large compared with the step."""
  X, y = data
  s = jnp.asarray([1.0, 1.0, 0.1, 0.01])
  return jnp.concatenate([jnp.exp((X @ (s * x))) * 0.1 - y, 3.0 * (x[1:] ** 2 - x[:-1]), 10.0 * x[:1] * x[1:2]])


C.RES.setdefault("expo", r_expo)
C.RES.setdefault("log", r_log)
C.RES.setdefault("hole", r_hole)


class Nls(C.LM):
  def problem(self, rng, cfg):
    if cfg["res"] not in ("log", "hole", "expo"):
      return super().problem(rng, cfg)
    if cfg["res"] == "expo":
      r = rng.np()
      X, y = r.randn(6, 4), r.randn(6)
      return C.Prob(C.J(2.0 * r.randn(4)), (C.J((X, y)),), {}, dict(data=(X, y)))
    X, y = P.gen_data(rng, m=9, n=self.n, cond=rng.choice([2.0, 10.0]), noise=0.2)
    x0 = 0.3 * rng.np().randn(self.n)
    return C.Prob(C.J(x0), (C.J((X, y)),), {}, dict(data=(X, y)))

  def reparam(self, cfg, prob, rng):
    if cfg["res"] == "expo":
      return prob._replace(init=C.J(2.0 * rng.np().randn(4)))
    if cfg["res"] not in ("log", "hole"):
      return super().reparam(cfg, prob, rng)
    return prob._replace(init=C.J(0.3 * rng.np().randn(self.n)))


def edged(base):
  """Starting points a hair away from the hole: every trial of a short search may fall into it."""
  class Edge(type(base)):
    def near(self, cfg, prob, rng):
      if not cfg["fam"].startswith("hole") or not rng.chance(0.5):
        return prob
      v = np.array(P.vec_np(prob.init))
      v = np.minimum(v, 1.5)
      v[rng.randrange(v.size)] = 1.6 - 10.0 ** -rng.randrange(1, 9)
      return prob._replace(init=C.J(P.to_tree(v, cfg["pt"])))

    def problem(self, rng, cfg):
      return self.near(cfg, super().problem(rng, cfg), rng)

    def reparam(self, cfg, prob, rng):
      return self.near(cfg, super().reparam(cfg, prob, rng), rng)
  return Edge()


T = {n: C.REG[n] for n in NAMES}
T.update({n: edged(T[n]) for n in ("GradientDescent", "BFGS", "LBFGS", "NonlinearCG", "ArmijoSGD")})
T["LevenbergMarquardt"] = Nls()


def config(name, rng):
  t = T[name]
  c = t.cfg(rng)
  if name in FISTA:
    c.update(stepsize=0.0, acceleration=False)
  if name in QUASI:
    if "stepsize" in c:
      c["stepsize"] = 0.0
  if name == "ArmijoSGD":
    c["momentum"] = 0.0
  if name == "LevenbergMarquardt":
    k = rng.random()
    if k < 0.4:
      c["res"] = rng.choice(["log", "hole", "hole"])
    elif k < 0.75:
      c.update(res="expo", geodesic=True, damping=1e-6)
  if "fam" in c and rng.chance(0.7):
    c["fam"] = rng.choice(["barrier", "hole_nan", "hole_nan", "hole_inf", "overflow", "root", "steep"])
  if "pt" in c and rng.chance(0.5):
    c["pt"] = "flat"
  return c


def plan(seed, tier):
  jobs = []
  q = tier == "quick"
  for name in NAMES:
    ncfg = {"LevenbergMarquardt": 16, "LBFGS": 9, "BFGS": 9, "LBFGSB": 8, "NonlinearCG": 9, "BoxCDQP": 3}.get(name, 7) * (1 if q else 8)
    for ci in range(ncfg):
      rng = Rng("C09", seed, name, ci)
      cfg = config(name, rng)
      runs = []
      for r in range(16 if q else 50):
        rr = Rng("C09run", seed, name, ci, r)
        ops = hist.gen_ops(rr, name, rr.randrange(4, 12))
        if cfg.get("res") == "expo":
          ops = [["step", 10 + 2 * o[1]] if o[0] == "step" else o for o in ops]
        runs.append({"data": rr.getrandbits(30), "ops": ops})
      jobs.append({"template": name, "cfg": cfg, "world": "history", "x64": True, "runs": runs, "cost": 14 if cfg.get("linesearch") == "hager-zhang" else 5})
  for name in FISTA + ("LevenbergMarquardt",):
    for ci in range(3 if q else 16):
      rng = Rng("C09e", seed, name, ci)
      cfg = config(name, rng)
      if name in FISTA:
        cfg["vg"] = "no"
      else:
        cfg.update(materialize_jac=True, solver=rng.choice(["cholesky", "lu", "qr"]))
      runs = []
      for r in range(8 if q else 20):
        rr = Rng("C09er", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30), "k": 4, "lost": sorted({rr.randrange(1, 6) * 100 + rr.randrange(0, 4) for _ in range(rr.randrange(1, 6))}), "val": rr.choice(["nan", "inf"])})
      jobs.append({"template": name, "cfg": cfg, "world": "evaluation", "x64": True, "runs": runs, "cost": 8})
  return jobs


def shrink(job, run):
  if "ops" in run:
    for ops in common.ddmin_ops(run["ops"]):
      yield dict(run, ops=ops)
  else:
    for i in range(len(run["lost"])):
      yield dict(run, lost=run["lost"][:i] + run["lost"][i + 1:])
    if run["k"] > 1:
      yield dict(run, k=run["k"] - 1)


def nontrivial(r):
  return r["steps"] >= 3


# ------------------------------------------------------------------------------------------------------------ the judge
_VAL = {}


def smooth(name, cfg, prob, tree):
  """Smooth part of the objective."""
  if name == "LevenbergMarquardt":
    key = ("nls", cfg["res"])
    if key not in _VAL:
      f = C.RES[cfg["res"]]
      _VAL[key] = jax.jit(lambda x, d: 0.5 * jnp.sum(jnp.square(f(x, d))))
    return float(_VAL[key](tree, *prob.args))
  if name == "BlockCoordinateDescent":
    key = ("bcd", cfg["obj"])
    if key not in _VAL:
      o = T[name].obj(cfg)
      _VAL[key] = jax.jit(lambda x, *a: o(x, *a))
    return float(_VAL[key](tree, *prob.args[1:]))
  if name == "BoxCDQP":
    x = np.asarray(tree)
    Q, c = (np.asarray(a) for a in prob.args[0])
    return float(0.5 * x @ Q @ x + c @ x)
  key = ("fun", cfg["fam"], cfg["pt"])
  if key not in _VAL:
    f = P.FUNS[cfg["fam"]]
    _VAL[key] = jax.jit(f), jax.jit(jax.grad(f))
  return float(_VAL[key][0](tree, *data_of(name, prob)))


def data_of(name, prob):
  kw = prob.kwargs
  a = list(prob.args)
  if name in ("ProximalGradient", "ProjectedGradient", "LBFGSB"):
    a = a[1:]
  l2 = kw["l2"] if "l2" in kw else a.pop(0)
  data = kw["data"] if "data" in kw else a.pop(0)
  return l2, data


def gradient(name, cfg, prob, tree):
  smooth(name, cfg, prob, tree)
  return _VAL[("fun", cfg["fam"], cfg["pt"])][1](tree, *data_of(name, prob))


def penalty(name, cfg, prob, tree):
  """Non-smooth part."""
  if name == "ProximalGradient":
    v, hp = P.vec_np(tree), prob.meta["hp"]
  elif name == "BlockCoordinateDescent":
    v, hp = np.asarray(tree), prob.meta["hp"]
  else:
    return 0.0
  k = cfg["prox"]
  if k in ("lasso", "nnlasso"):
    return float(hp * np.sum(np.abs(v)))
  if k == "elastic":
    return float(hp[0] * (np.sum(np.abs(v)) + 0.5 * hp[1] * np.sum(v * v)))
  if k == "ridge":
    return float(0.5 * hp * np.sum(v * v))
  if k == "group":
    return float(hp * np.sum(np.linalg.norm(v, axis=1)))
  return 0.0


def total(name, cfg, prob, tree):
  return smooth(name, cfg, prob, tree) + penalty(name, cfg, prob, tree)


def clear_descent(name, cfg, prob, p0, p1, stepsize, f0):
  """True when every step in the first third of the allowed range along the direction taken clearly decreases the objective."""
  if not (np.isfinite(stepsize) and stepsize > 0):
    return None
  x0, x1 = P.vec_np(p0), P.vec_np(p1)
  d = (x1 - x0) / stepsize
  if not np.all(np.isfinite(d)) or not np.any(d):
    return None
  slope = float(P.vec_np(gradient(name, cfg, prob, p0)) @ d)
  if not slope < 0:
    return False
  top = cfg["max_stepsize"] * (0.33 if cfg["maxls"] > 5 else 0.5)
  if name == "ArmijoSGD" and cfg["reset_option"] == "goldstein":
    top = cfg["max_stepsize"] * 2.0
  c1 = 0.05 if name != "ArmijoSGD" else min(0.9, 1.3 * (1.0 - cfg["aggressiveness"]) + 0.02)
  for frac in (1.0, 0.85, 0.7, 0.55, 0.4, 0.3, 0.2, 0.1, 0.05, 0.02, 0.01):
    s = top * frac
    f = smooth(name, cfg, prob, C.J(P.to_tree(x0 + s * d, cfg["pt"])))
    if not f <= f0 + c1 * s * slope:
      return False
  return True


def fista_trials(name, cfg, prob, p0, s0):
  """The trial points of the backtracking search from p0: [(params, stepsize, acceptable)]."""
  x = P.vec_np(p0)
  g = P.vec_np(gradient(name, cfg, prob, p0))
  f0 = smooth(name, cfg, prob, p0)
  hp = prob.meta.get("hp")
  kind = {"GradientDescent": "none", "ProximalGradient": cfg.get("prox"), "ProjectedGradient": cfg.get("proj")}[name]
  t, out = s0, []
  for _ in range(cfg["maxls"] + 1):
    y = P.np_prox(kind, x - t * g, hp, t)
    d = y - x
    f = smooth(name, cfg, prob, C.J(P.to_tree(y, cfg["pt"])))
    gap = t * (f - f0) - (t * (d @ g) + 0.5 * d @ d)
    out.append((y, t, gap))
    t *= cfg["decrease_factor"]
  return f0, out


EPS = float(np.finfo(np.float64).eps)


class Judge(hist.Hooks):
  def __init__(self, t, name, cfg, sim):
    self.t, self.name, self.cfg, self.sim = t, name, cfg, sim
    self.prob = None

  def snapshot(self):
    return self.prob

  def restore(self, snap):
    self.prob = snap

  def on_init(self, prob, p, s, why):
    self.prob = prob

  def on_warm(self, prob, p, s):
    self.prob = prob

  def on_step(self, prob, p0, s0, p1, s1, n):
    owner, self.prob = self.prob, prob
    if self.name in QUASI and owner is not prob:
      self.sim.probe("stale_value")
      return
    self.judge(prob, p0, s0, p1, s1, n)

  def judge(self, prob, p0, s0, p1, s1, n):
    name, cfg, sim = self.name, self.cfg, self.sim
    if not all_finite(p0):
      return
    f0 = total(name, cfg, prob, p0)
    if name in ("BoxCDQP", "BlockCoordinateDescent", "ProximalGradient", "ProjectedGradient") and (self.t.feasibility(cfg, prob, p0) or 0.0) > 1e-12:
      sim.probe("infeasible_start")
      return
    if not abs(f0) < 1e50:
      sim.probe("infinite_start")
      return
    if name in FISTA + QUASI + ("ArmijoSGD",) and not all_finite(gradient(name, cfg, prob, p0)):
      sim.probe("infinite_gradient")
      return
    if name in QUASI and not np.isfinite(float(np.asarray(s0.value))):
      return
    ok1 = all_finite(p1)
    f1 = total(name, cfg, prob, p1) if ok1 else np.nan
    slack = 1e-11 * (1.0 + abs(f0))
    excuse = None
    if name in FISTA:
      st0 = float(np.asarray(s0.stepsize))
      g0, trials = fista_trials(name, cfg, prob, p0, st0)
      good = [tr for tr in trials if tr[2] <= 0.5 * EPS]
      excuse = not good
      if good:
        smallest = trials[-1][1]
        slack += 4 * EPS / smallest
    elif name in QUASI or name == "ArmijoSGD":
      slack += 1.1e-6 * abs(f0) if name in QUASI else 0.0
      x1 = P.vec_np(p1)
      if ok1 and name in QUASI:  # along an ascent direction the acceptance rule itself admits an increase
        slack += 1e-2 * max(0.0, float(P.vec_np(gradient(name, cfg, prob, p0)) @ (x1 - P.vec_np(p0))))
      if not ok1 or not f1 <= f0 + slack:
        st = float(np.asarray(s1.stepsize))
        if hasattr(s1, "failed_linesearch") and not bool(s1.failed_linesearch):
          excuse = False
        elif cfg.get("linesearch") in ("zoom", "hager-zhang") and not np.isfinite(f1):
          excuse = False
        elif ok1:
          excuse = clear_descent(name, cfg, prob, p0, p1, st, f0) is not True
          if name == "LBFGSB":
            excuse = True
        else:
          excuse = cfg.get("linesearch") not in ("zoom", "hager-zhang")
    if excuse:
      sim.probe("budget_exhausted")
      return
    sim.check(ok1, "poisoned", lambda: f"update {n}: finite iterate with value {f0:.6g} becomes {P_repr(p1)}")
    sim.check(bool(f1 <= f0 + slack), "worse", lambda: f"update {n}: objective rises from {f0!r} to {f1!r}")
    sim.probe("judged")
    if n > 0 and name != "BoxCDQP":
      for path, leaf in named_leaves(s1):
        a = np.asarray(leaf)
        if a.dtype.kind == "f" and ".aux" not in path and ".velocity" not in path:
          fin = bool(np.all(np.isfinite(a)))
          if not fin and edge(name, cfg, prob, p1):
            sim.probe("edge_of_domain")
            break
          sim.check(fin, "poisoned_state", lambda: f"update {n}: state{path} is {a.ravel()[:6]} at finite params with value {f1:.6g}")


def edge(name, cfg, prob, p1):
  """The gradient itself is not finite at the accepted point."""
  if name in FISTA + QUASI + ("ArmijoSGD",):
    return not all_finite(gradient(name, cfg, prob, p1))
  return False


def P_repr(p):
  return np.array2string(flat(p)[:8], precision=5)


def execute(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  t = T[name]
  if job["world"] == "evaluation":
    return evaluation(t, name, cfg, run, ctx, sim)
  if "pool" not in ctx:
    ctx["pool"] = common.Pool(t, cfg, jit=True, tol=-1.0)
  hist.drive(t, cfg, ctx["pool"], run, sim, Judge(t, name, cfg, sim))


def evaluation(t, name, cfg, run, ctx, sim):
  """Interpreted steps in which chosen trial evaluations are lost: they must be passed over."""
  if "solver" not in ctx:
    ctx["solver"] = t.make(cfg, jit=False, tol=-1.0)
  s = ctx["solver"]
  prob = common.datasets(t, name, cfg, run["data"], 1)[0]
  val = jnp.nan if run["val"] == "nan" else jnp.inf
  lost = set(run["lost"])
  state = {"step": 0, "call": -1}

  def tap(out):
    if state["step"] == 0:
      return out
    state["call"] += 1
    # FISTA: call 0 is value_and_grad at the iterate, the trials follow. LM: call 0 is the trial.
    trial = state["call"] - (1 if name in FISTA else 0)
    if trial >= 0 and state["step"] * 100 + trial in lost and (name in FISTA or trial == 0):
      sim.fault("lost_trial:" + run["val"])
      return jnp.full_like(out, jnp.nan) + out * 0 if run["val"] == "nan" else out + val
    return out
  p, u = t.start(s, prob)
  if not np.isfinite(total(name, cfg, prob, p)):
    return
  for k in range(1, run["k"] + 1):
    p0, u0 = p, u
    P.TAP[0] = tap
    state.update(step=k, call=-1)
    try:
      p, u = common.step(s, p, u, prob)
    finally:
      P.TAP[0] = None
    calls = state["call"] + 1
    sim.steps += 1
    sim.evals += calls
    sim.log(k, repr(flat(p)), calls)
    if name in FISTA:
      if not all_finite(gradient(name, cfg, prob, p0)):
        break
      _, trials = fista_trials(name, cfg, prob, p0, float(np.asarray(u0.stepsize)))
      seq = [(y, tt, gap if k * 100 + i not in lost else np.inf) for i, (y, tt, gap) in enumerate(trials)]
      clear = all(not (abs(g) < 1e-10 * (1 + tt)) for _, tt, g in seq)
      pick = next((y for y, tt, g in seq if g <= EPS), seq[-1][0])
      if clear:
        sim.check(np.allclose(P.vec_np(p), pick, rtol=1e-9, atol=1e-9), "lost_trial",
                  lambda: f"update {k}: with trials {sorted(i - 100 * k for i in lost if i // 100 == k)} lost the accepted point is {P.vec_np(p)}, the first acceptable trial {pick}")
    else:
      gone = k * 100 in lost
      if gone:
        sim.check(np.array_equal(np.asarray(p), np.asarray(p0)), "lost_trial", f"update {k}: the trial was lost but params moved from {np.asarray(p0)} to {np.asarray(p)}")
        sim.check(all_finite((p, u._replace(aux=None, hess_res=None))), "poisoned_state", f"update {k}: the trial was lost and the state holds non-finite values")
      else:
        f0, f1 = total(name, cfg, prob, p0), total(name, cfg, prob, p)
        sim.check(bool(f1 <= f0 + 1e-11 * (1 + abs(f0))), "worse", f"update {k}: objective rises from {f0!r} to {f1!r}")
    if not all_finite(p):
      break
