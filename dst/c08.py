"""C08: a line search that reports success found a point that satisfies its conditions; any other outcome is reported as a failure.

World: the objective along the line is served by the simulator. It may have a region where it answers NaN, +inf, -inf, or a NaN gradient, it may be unbounded,
oscillating, flat, badly scaled or have a domain; in the evaluation world a single evaluation (the k-th) is lost. Everything the search claims is recomputed from
the objective itself.
"""
import numpy as np
import jax
import jax.numpy as jnp

import jaxopt

from dst import problems as P
from dst.core import Rng, close, flat, np_tree, tree_diff

LEVEL = "exploration"
RULE = ("A case is one line search (backtracking with each condition, zoom, Hager-Zhang): objective, start, direction, first step size, bound on the step size and "
        "fault (region of the line answering NaN, infinity or a NaN gradient; a lost evaluation; non-descent or zero direction) drawn from the seed. It is run by run and "
        "again update by update. Non-trivial: at least two updates, or a fault. Distinct: by hash of the event log with digests of step sizes and states.")
REAL = ["BacktrackingLineSearch, ZoomLineSearch, HagerZhangLineSearch (run and update, jitted, under vmap and interpreted)"]
STUB = ["the objective along the line", "reference backtracking search (NumPy)"]
ASSUMPTIONS = ["x64", "a zoom search that reaches max_stepsize may accept it with the decrease condition only (documented)",
               "a value of -inf is accepted as a minimum (documented in the code)",
               "conditions hold up to the tolerance of the search and the rounding of the values"]
JOB_TIMEOUT = 180

CONDS = ["armijo", "goldstein", "strong-wolfe", "wolfe"]
FAMS = ["lsq", "logistic", "logcosh", "rosen", "barrier", "linear", "quartic", "steep", "plateau", "wavy", "sqrt", "huge", "tiny", "cubic", "complex", "offset", "offset", "wavyoff", "wavyoff"]
HEALTHY = ("lsq", "logistic", "logcosh", "barrier", "offset")


# ----------------------------------------------------------------------------------------------------------- objectives
def value_of(fam, v, data):
  X, y = data
  n = v.shape[0]
  z = v + 0.3 * y[:n]
  if fam in P.FUNS:
    return P.FUNS[fam](v, 0.1, data)
  if fam == "complex":
    r = X @ v - (y + 0.5j * y[::-1])
    return 0.5 * jnp.mean(jnp.real(r * jnp.conj(r))) + 0.05 * jnp.sum(jnp.real(v * jnp.conj(v)))
  if fam == "linear":
    return jnp.dot(X[0], v)
  if fam == "quartic":
    return jnp.sum(z ** 4 - 2.0 * z ** 2)
  if fam == "steep":
    return jnp.sum(jnp.exp(30.0 * z)) + 0.5 * jnp.sum(z * z)
  if fam == "plateau":
    return jnp.sum(jnp.tanh(4.0 * z)) + 1e-3 * jnp.sum(z * z)
  if fam == "wavy":
    return jnp.sum(jnp.sin(6.0 * z) + 0.1 * z * z)
  if fam == "offset":
    return P.f_lsq(v, 0.1, data) + 1e6
  if fam == "wavyoff":
    return jnp.sum(jnp.sin(6.0 * z) + 0.1 * z * z) + 60.0
  if fam == "sqrt":
    return -jnp.sum(jnp.sqrt(2.0 - z)) + 0.1 * jnp.sum(z)
  if fam == "huge":
    return 1e12 * P.f_lsq(v, 0.1, data)
  if fam == "tiny":
    return 1e-12 * P.f_lsq(v, 0.1, data)
  if fam == "cubic":
    return jnp.sum(z ** 3)
  raise ValueError(fam)


def objective(fam, aux, vg):
  """fun(params, data, fault=(a, lo, hi, code))."""

  def fun(p, data, fault):
    v = P.vec(p)
    out = value_of(fam, v, data)
    a, lo, hi, code = fault
    u = jnp.dot(a, jnp.real(v))
    hit = (u > lo) & (u < hi) & (code > 0)
    bad = jnp.where(code == 1, jnp.nan, jnp.where(code == 2, jnp.inf, -jnp.inf))
    out = jnp.where(hit & (code <= 3), bad, out)
    # Code 4: the value is right, the gradient is NaN (square root at zero); code 5: the value is NaN, the gradient is right.
    zero = jnp.sum(jnp.real(v) * 0.0)
    out = out + jnp.where(hit & (code == 4), 1.0, 0.0) * jnp.sqrt(jnp.where(hit & (code == 4), zero, 1.0))
    out = jnp.where(hit & (code == 4), out, out)
    out = out + jnp.where(hit & (code == 5), jnp.nan, 0.0)
    out = P.tap(out)
    if aux:
      return out, {"s": jnp.sum(jnp.real(v)), "v": v * 2.0}
    return out
  if vg:
    return jax.value_and_grad(fun, has_aux=aux), dict(value_and_grad=True, has_aux=aux)
  return fun, dict(value_and_grad=False, has_aux=aux)


# ------------------------------------------------------------------------------------------------------------ generation
def cfg_(rng, kind):
  c = {"kind": kind, "fam": rng.choice(FAMS), "aux": rng.chance(0.35), "vg": rng.chance(0.35), "pt": rng.choice(["flat", "dict", "nest"]),
       "maxiter": rng.choice([1, 2, 4, 10, 20, 30, 30, 40]), "tol": rng.choice([0.0, 0.0, 0.0, 1e-3])}
  if c["fam"] == "complex":
    c["pt"] = "flat"
  if kind == "backtracking":
    c.update(condition=rng.choice(CONDS), c1=rng.choice([1e-4, 1e-4, 0.1, 0.3]), c2=rng.choice([0.9, 0.9, 0.5]), df=rng.choice([0.8, 0.5, 0.3]),
             max_stepsize=rng.choice([1.0, 1.0, 0.25, 10.0]))
  elif kind == "zoom":
    c.update(c1=rng.choice([1e-4, 1e-4, 0.1]), c2=rng.choice([0.9, 0.9, 0.5, 0.1]), max_stepsize=rng.choice([None, 1.0, 1.0, 0.25, 10.0]),
             inc=rng.choice([2.0, 2.0, 4.0]))
  else:
    c.update(c1=rng.choice([0.1, 0.1, 0.01]), c2=rng.choice([0.9, 0.9, 0.5]))
  return c


def run_(rr, mode, fam=""):
  fault = rr.weighted([(0, 5), (1, 1.5), (2, 1.2), (3, 0.6), (4, 1.2), (5, 0.8)])
  r = {"data": rr.getrandbits(30), "dir": rr.weighted([("none", 3), ("neggrad", 2), ("random", 3), ("newtonish", 2), ("ascent", 0.8), ("zero", 0.4)]),
       "dscale": rr.weighted([(1.0, 3), (rr.loguniform(1e-3, 1e3), 2), (rr.loguniform(1e-6, 1e6), 1)]),
       "s0": rr.weighted([(1.0, 3), (rr.loguniform(1e-3, 1e2), 2), (rr.loguniform(1e-6, 1e6), 0.5)]),
       "given": rr.chance(0.6), "near": rr.weighted([(0.0, 5), (1e-3, 0.8), (1e-8, 0.6)]),
       "fault": fault, "lo": rr.weighted([(rr.uniform(0.0, 0.05), 2), (rr.uniform(0.0, 1.0), 2), (rr.loguniform(1e-6, 1.0), 1), (-1.0, 0.3)]),
       "width": rr.weighted([(1e9, 2), (rr.uniform(0.0, 0.6), 2), (rr.loguniform(1e-3, 1e3), 1)])}
  if fam == "offset" and rr.chance(0.6):
    r.update(near=rr.choice([1e-3, 1e-5, 1e-7, 1e-8]), fault=0, dir=rr.choice(["none", "neggrad", "newtonish", "random"]), dscale=1.0, s0=1.0)
  if mode == "eager":
    r["lost"] = sorted({rr.randrange(0, 14) for _ in range(rr.randrange(1, 3))})
  return r


def plan(seed, tier):
  jobs = []
  ncfg, nruns = (24, 20) if tier == "quick" else (260, 80)
  for kind, k in (("backtracking", 1.0), ("zoom", 1.2), ("hager-zhang", 0.5)):
    for ci in range(int(ncfg * k)):
      rng = Rng("C08", seed, kind, ci)
      cfg = cfg_(rng, kind)
      mode = rng.weighted([("jit", 5), ("vmap", 1.5), ("eager", 1.2)])
      if kind == "hager-zhang" and mode == "eager":
        mode = "jit"
      if mode == "eager":
        cfg["maxiter"] = min(cfg["maxiter"], 10)
      jobs.append({"template": kind, "cfg": cfg, "mode": mode, "x64": True, "unroll": rng.choice(["auto", "auto", False, True]) if mode == "jit" and kind != "hager-zhang" and cfg["maxiter"] <= 10 else "auto",
                   "runs": [run_(Rng("C08run", seed, kind, ci, r), mode, cfg["fam"]) for r in range(nruns * (3 if kind == "hager-zhang" else 2) if mode != "eager" else max(3, nruns // 6))],
                   "steps": kind != "hager-zhang" or rng.chance(0.3),
                   "cost": 4 if kind != "hager-zhang" else 8})
  return jobs


def shrink(job, run):
  for k, v in (("fault", 0), ("near", 0.0), ("dscale", 1.0), ("s0", 1.0), ("given", True), ("dir", "none"), ("dir", "neggrad")):
    if run[k] != v:
      yield dict(run, **{k: v})
  if run.get("lost"):
    for i in range(len(run["lost"])):
      yield dict(run, lost=run["lost"][:i] + run["lost"][i + 1:])


def nontrivial(r):
  return r["steps"] >= 2 or sum(r["faults"].values()) >= 1


# ------------------------------------------------------------------------------------------------------------- the world
class World:
  def __init__(self, job):
    c = self.cfg = job["cfg"]
    self.kind = c["kind"]
    self.fun, kw = objective(c["fam"], c["aux"], c["vg"])
    kw.update(maxiter=c["maxiter"], tol=c["tol"], c1=c["c1"], c2=c["c2"], jit=job["mode"] != "eager", unroll=job["unroll"])
    if job["mode"] == "eager":
      kw["unroll"] = "auto"
    if self.kind == "backtracking":
      self.ls = jaxopt.BacktrackingLineSearch(self.fun, condition=c["condition"], decrease_factor=c["df"], max_stepsize=c["max_stepsize"], **kw)
    elif self.kind == "zoom":
      self.ls = jaxopt.ZoomLineSearch(self.fun, max_stepsize=c["max_stepsize"], increase_factor=c["inc"], **kw)
    else:
      self.ls = jaxopt.HagerZhangLineSearch(self.fun, **kw)
    self.max_stepsize = c.get("max_stepsize") or (2.0 ** c["maxiter"] if self.kind == "zoom" else np.inf)
    base, _ = objective(c["fam"], True, True)
    self.truth = jax.jit(base)
    ls = self.ls
    wrap = jax.jit if job["mode"] != "eager" else (lambda f: f)

    def run(q):
      return ls.run(q["s0"], q["p"], q["v"], q["g"], q["d"], fun_args=[q["data"]], fun_kwargs={"fault": q["fault"]})
    self.run = wrap(run)
    self.vrun = jax.jit(jax.vmap(run)) if job["mode"] == "vmap" else None
    self.init = wrap(lambda q: ls.init_state(q["s0"], q["p"], q["v"], q["g"], q["d"], fun_args=[q["data"]], fun_kwargs={"fault": q["fault"]}))
    self.update = wrap(lambda s, st, q: ls.update(s, st, q["p"], q["v"], q["g"], q["d"], fun_args=[q["data"]], fun_kwargs={"fault": q["fault"]}))

  def at(self, q, x):
    (v, aux), g = self.truth(x, q["data"], q["fault"])
    return float(v), g, aux


def dotr(a, b):
  """Directional derivative of a real function with JAX gradient a along b."""
  return float(np.real(np.sum(cflat(a) * cflat(b))))


def cflat(t):
  return np.concatenate([np.ravel(np.asarray(l)) for l in jax.tree_util.tree_leaves(t)])


def line(q, d, s):
  return jax.tree_util.tree_map(lambda a, b: a + s * b, q["p"], d)


def build(w, run, sim):
  c = w.cfg
  n = 6 if c["pt"] != "dict" else 5
  r = Rng("C08data", run["data"])
  X, y = P.gen_data(r, m=10, n=n, cond=r.choice([2.0, 20.0, 200.0]))
  nr = r.np()
  x0 = nr.randn(n) * (0.3 if c["fam"] in ("steep", "barrier", "sqrt") else 1.0)
  if c["fam"] == "complex":
    x0 = x0 + 1j * nr.randn(n)
  data = (jnp.asarray(X), jnp.asarray(y))
  off = (jnp.zeros(n), jnp.asarray(0.0), jnp.asarray(0.0), jnp.asarray(0))
  q = {"data": data, "fault": off}
  mk = lambda v: jax.tree_util.tree_map(jnp.asarray, P.to_tree(v, c["pt"]))
  q["p"] = mk(x0)
  v0, g0, _ = w.at(q, q["p"])
  if run["near"] and c["fam"] in ("lsq", "huge", "tiny", "offset"):
    X_, y_ = X, y
    opt = np.linalg.solve(X_.T @ X_ / len(y_) + 0.1 * np.eye(n), X_.T @ y_ / len(y_))
    x0 = opt + run["near"] * nr.randn(n)
    q["p"] = mk(x0)
    v0, g0, _ = w.at(q, q["p"])
  gc = np.concatenate([np.ravel(np.asarray(l)) for l in [P.vec(g0)]])
  steep = np.conj(gc)
  if run["dir"] in ("none", "neggrad"):
    d = -steep
  elif run["dir"] == "random":
    z = nr.randn(n)
    d = -np.sign(np.real(np.sum(gc * z))) * z
  elif run["dir"] == "newtonish":
    H = np.diag(np.exp(nr.randn(n)))
    d = -H @ steep
  elif run["dir"] == "ascent":
    d = steep
  else:
    d = np.zeros(n) * steep
  if run["dir"] != "none":
    d = d * run["dscale"]
  dt = mk(d)
  q["d"] = None if run["dir"] == "none" else dt
  q["s0"] = jnp.asarray(run["s0"])
  # Region of the line that answers wrongly: from lo to lo + width in units of the first trial step.
  if run["fault"] and np.all(np.isfinite(d)) and np.linalg.norm(d) > 0:
    dr = np.real(d) if np.linalg.norm(np.real(d)) > 0 else np.ones(n)
    a = dr / (dr @ dr)
    unit = max(run["s0"] if w.kind != "hager-zhang" else 1.0, 0.0)
    unit = min(unit, w.max_stepsize)
    base = float(a @ np.real(x0))
    lo = base + run["lo"] * unit
    q["fault"] = (jnp.asarray(a), jnp.asarray(lo), jnp.asarray(lo + run["width"] * unit), jnp.asarray(run["fault"]))
    sim.fault({1: "region_nan", 2: "region_posinf", 3: "region_neginf", 4: "region_nan_gradient", 5: "region_nan_value_finite_gradient"}[run["fault"]])
  v0, g0, _ = w.at(q, q["p"])
  if run["dir"] == "none":
    dt = jax.tree_util.tree_map(lambda x: -jnp.conj(x), g0)
  if run["given"]:
    q["v"], q["g"] = jnp.asarray(v0), g0
  else:
    q["v"], q["g"] = None, None
  if run["dir"] in ("ascent", "zero"):
    sim.fault("direction_" + run["dir"])
  return q, dt, v0, g0


def judge(w, run, q, d, v0, g0, s, st, sim, tag, corrupted=False):
  """All the checks on one finished search (s, st)."""
  c, kind, tol = w.cfg, w.kind, w.cfg["tol"]
  s, it = float(s), int(st.iter_num)
  done, failed = bool(st.done), bool(st.failed)
  x = line(q, d, s)
  dn = np.linalg.norm(cflat(d))
  slope0 = dotr(g0, d)
  known = np.isfinite(slope0)
  sim.check(known or not done, "bad_start", f"{tag}: success although the initial slope is {slope0}")
  sim.check(1 <= it <= c["maxiter"], "iterations", f"{tag}: {it} iterations with maxiter={c['maxiter']}")
  sim.check(done or failed, "no_outcome", f"{tag}: the search ended (step size {s}, {it} iterations, error {st.error}) neither done nor failed")
  sim.check(not (done and failed), "two_outcomes", f"{tag}: the search ended both done and failed")
  # The point reported is the point along the line, and value, grad and aux are those of the objective there.
  sim.check(bool(np.isfinite(s)), "stepsize", f"{tag}: step size {s}")
  if dn > 0:
    got, want = cflat(st.params), cflat(x)
    sim.check(bool(np.all(np.abs(got - want) <= 1e-12 * (np.abs(want) + np.abs(s * cflat(d))) + 1e-300)), "point",
              lambda: f"{tag}: params {got} is not x + {s} * direction = {want}")
  v, g, aux = w.at(q, st.params)
  slope = dotr(g, d)
  sv = float(st.value)
  edge = near_edge(q, st.params)
  if not corrupted and not edge:
    scale = abs(v) + 1e-9 * abs(v0) + 1e-12 * (1 if c["fam"] != "tiny" else 1e-12)
    sim.check(sv == v or (np.isnan(sv) and np.isnan(v)) or abs(sv - v) <= 1e-9 * scale + (1e-13 * abs(slope0 * s) if known else 0.0), "value", lambda: f"{tag}: value {sv}, the objective at params is {v}")
    ga, gb = cflat(st.grad), cflat(g)
    sim.check(close(np.real(ga), np.real(gb), 1e-7, 1e-8 * (np.max(np.abs(gb[np.isfinite(gb)]), initial=0.0) + 1e-12 * np.max(np.abs(cflat(g0)[np.isfinite(cflat(g0))]), initial=0.0))), "grad",
              lambda: f"{tag}: grad {ga}, the gradient at params is {gb}")
    if c["aux"]:
      dd = tree_diff(np_tree(st.aux), np_tree(aux), 1e-9, 1e-12)
      sim.check(dd is None, "aux", f"{tag}: {dd}")
  else:
    sim.probe("edge_or_corrupted")
    if edge:
      return
  eps = 1e-12 * (abs(v0) + abs(v)) + 1e-13 * abs(slope0) * max(s, 1.0) if np.isfinite(v) and known else 0.0
  # Rounding of values of terms that cancel.
  eps += 1e-15 * (1.0 if c["fam"] not in ("huge", "tiny") else {"huge": 1e12, "tiny": 1e-12}[c["fam"]])
  seps = 0.0 if not known else 1e-9 * (abs(slope0) + abs(slope)) + 1e-13 * np.linalg.norm(cflat(g0)) * dn + 1e-14 * dn * (np.max(np.abs(cflat(g))) if np.all(np.isfinite(cflat(g))) else 0.0)
  if done and not failed:
    sim.probe("success")
    if kind != "hager-zhang":
      sim.check(s <= w.max_stepsize * (1 + 1e-12), "max_stepsize", f"{tag}: accepted step size {s} exceeds max_stepsize={w.max_stepsize}")
    sim.check(s >= 0, "stepsize", f"{tag}: accepted step size {s}")
    sim.check(not np.isnan(v) and v != np.inf, "bad_value", f"{tag}: the accepted point has value {v}")
    if v == -np.inf:
      sim.probe("minus_infinity")
      return
    armijo = v <= v0 + c["c1"] * s * slope0 + tol + eps
    if kind == "backtracking":
      sim.check(armijo, "decrease", f"{tag}: accepted step size {s} has value {v}, needed {v0 + c['c1'] * s * slope0}")
      ok = {"armijo": True, "strong-wolfe": abs(slope) <= c["c2"] * abs(slope0) + tol + seps, "wolfe": slope >= c["c2"] * slope0 - tol - seps,
            "goldstein": v >= v0 + (1 - c["c1"]) * s * slope0 - tol - eps}[c["condition"]]
      sim.check(ok, "curvature", f"{tag}: accepted step size {s} breaks the {c['condition']} condition: slope {slope}, initial slope {slope0}, value {v}, initial value {v0}")
    elif kind == "zoom":
      approx = slope <= (2 * c["c1"] - 1) * slope0 + tol + seps and v <= v0 + 1e-6 * abs(v0) + tol + eps
      sim.check(armijo or approx, "decrease", f"{tag}: accepted step size {s} has value {v}, initial value {v0}, slopes {slope0} and {slope}")
      strong = abs(slope) <= c["c2"] * abs(slope0) + tol + seps
      sim.check(strong or s >= w.max_stepsize * (1 - 1e-12), "curvature", f"{tag}: accepted step size {s} has slope {slope}, initial slope {slope0}")
    else:
      curv = slope >= c["c2"] * slope0 - tol - seps
      approx = slope <= (2 * c["c1"] - 1) * slope0 + tol + seps and v <= v0 + 1e-6 * abs(v0) + tol + eps
      sim.check(armijo or approx, "decrease", f"{tag}: accepted step size {s} has value {v}, initial value {v0}, slopes {slope0} and {slope}")
      sim.check(curv, "curvature", f"{tag}: accepted step size {s} has slope {slope}, initial slope {slope0}")
  else:
    sim.probe("failure")
    if np.isfinite(v0) and known and kind in ("zoom", "hager-zhang") and not corrupted:
      sim.check(not np.isnan(v) and v != np.inf, "failed_outside", f"{tag}: a failed search left from the value {v0} and returns a point of value {v}")
    if np.isfinite(v0) and known and kind == "hager-zhang" and not np.isneginf(v):
      sim.check(v <= v0 + 1e-6 * abs(v0) + eps, "failed_increase", f"{tag}: a failed Hager-Zhang search increased the value from {v0} to {v}")
    if kind == "zoom" and known and float(st.safe_stepsize) > 0 and not corrupted and np.isfinite(v0) and v != -np.inf:
      armijo = v <= v0 + c["c1"] * s * slope0 + tol + eps
      approx = slope <= (2 * c["c1"] - 1) * slope0 + tol + seps and v <= v0 + 1e-6 * abs(v0) + tol + eps
      sim.check(armijo or approx, "safe_step", f"{tag}: the safe step {s} of a failed search has value {v}, initial value {v0}, slopes {slope0}, {slope}")
  # A healthy convex problem and a descent direction: zoom and Hager-Zhang must succeed.
  healthy = c["fam"] in HEALTHY and run["fault"] == 0 and not run.get("lost") and run["dir"] not in ("ascent", "zero") and c["maxiter"] >= 30
  if healthy and kind in ("zoom", "hager-zhang"):
    gn = np.linalg.norm(cflat(g0))
    if (1e-2 <= dn <= 1e2 or run["near"] > 0 and run["dscale"] == 1.0) and -slope0 >= 1e-3 * gn * dn and (gn > 1e-3 or run["near"] > 0) and (kind == "hager-zhang" or (1e-2 <= run["s0"] <= 1e2)) and c["c2"] >= 0.5:
      if c["fam"] != "barrier" or kind == "zoom":
        sim.probe("must_succeed")
        sim.check(done, "healthy_failure", f"{tag}: failed on a healthy convex objective (family {c['fam']}) after {it} iterations, step size {s}, slope {slope0} -> {slope}, value {v0} -> {v}")


def near_edge(q, x):
  a, lo, hi, code = [np.asarray(t) for t in q["fault"]]
  if int(code) == 0:
    return False
  u = float(a @ np.real(np.asarray(P.vec(x))))
  return min(abs(u - lo), abs(u - hi)) <= 1e-12 * (abs(u) + abs(float(lo)) + 1.0)


class Tie(Exception):
  pass


def predict_backtracking(w, q, d, v0, g0, s0):
  """(step size, iterations, done) of the documented algorithm."""
  c = w.cfg
  slope0 = dotr(g0, d)
  s = float(s0)
  for i in range(c["maxiter"]):
    s = min(s, w.max_stepsize)
    x = line(q, d, s)
    if near_edge(q, x):
      raise Tie()
    v, g, _ = w.at(q, x)
    slope = dotr(g, d)
    eps = 1e-11 * (abs(v0) + (abs(v) if np.isfinite(v) else 0.0)) + 1e-12 * abs(slope0) + 1e-300
    seps = 1e-9 * (abs(slope0) + (abs(slope) if np.isfinite(slope) else 0.0)) + 1e-300
    terms = [(v - (v0 + c["c1"] * s * slope0), eps)]
    if c["condition"] == "strong-wolfe":
      terms.append((abs(slope) - c["c2"] * abs(slope0), seps))
    elif c["condition"] == "wolfe":
      terms.append((c["c2"] * slope0 - slope, seps))
    elif c["condition"] == "goldstein":
      terms.append((v0 + (1 - c["c1"]) * s * slope0 - v, eps))
    ok = True
    for t, e in terms:
      if np.isnan(t):
        ok = False
      elif np.isfinite(t) and abs(t - c["tol"]) <= e:
        if slope0 == 0 and t == 0:
          continue
        raise Tie()
      elif t > c["tol"]:
        ok = False
    if ok or i == c["maxiter"] - 1:
      return s, i + 1, ok
    s *= c["df"]
  raise AssertionError


def stepped(w, q, sim):
  """The same search, update by update."""
  st = w.init(q)
  s = q["s0"]
  cap = w.cfg["maxiter"]
  out = []
  while True:
    s, st = w.update(s, st, q)
    out.append((float(s), st))
    sim.steps += 1
    if w.kind == "zoom":
      if bool(st.done) or bool(st.failed):
        break
    elif not float(st.error) > w.cfg["tol"]:
      break
    if len(out) >= cap:
      break
  return out


def execute(job, run, ctx, sim):
  if "w" not in ctx:
    ctx["w"] = World(job)
  w = ctx["w"]
  mode = job["mode"]
  if mode == "vmap":
    return vmapped(job, run, ctx, sim)
  q, d, v0, g0 = build(w, run, sim)
  if mode == "eager":
    return eager(w, run, q, d, v0, g0, sim)
  s, st = w.run(q)
  s, st = float(s), np_tree(st)
  sim.log("run", repr(s), int(st.iter_num), bool(st.done), bool(st.failed), repr(float(st.value)))
  judge(w, run, q, d, v0, g0, s, st, sim, "run")
  if not job["steps"]:
    sim.steps += int(st.iter_num)
    return
  hist = stepped(w, q, sim)
  s2, st2 = hist[-1]
  sim.check(len(hist) == int(st.iter_num) and close(s2, s, 1e-6, 0.0), "run_vs_updates",
            lambda: f"run stops after {int(st.iter_num)} iterations with step size {s}, repeated update after {len(hist)} with {s2}") if not ticklish(w, q, d, v0, g0, st, st2) else sim.probe("tie")
  for k, (_, u) in enumerate(hist[:-1]):
    sim.check(not bool(u.done), "done_early", f"done after update {k + 1} but the search goes on")
    sim.check(int(u.iter_num) == k + 1, "counter", f"iter_num {int(u.iter_num)} after {k + 1} updates")
  judge(w, run, q, d, v0, g0, s2, st2, sim, "updates")
  if w.kind == "backtracking":
    backtrack_model(w, q, d, v0, g0, run, s, st, sim)


def backtrack_model(w, q, d, v0, g0, run, s, st, sim):
  try:
    ps, n, ok = predict_backtracking(w, q, d, v0, g0, run["s0"])
  except Tie:
    sim.probe("tie")
    return
  sim.probe("predicted")
  sim.check(int(st.iter_num) == n and close(s, ps, 1e-12, 0.0) and bool(st.done) == ok, "not_the_first_step",
            f"the search returns step size {s} after {int(st.iter_num)} trials (done={bool(st.done)}); the first step size satisfying the condition is {ps}, trial {n} (found={ok})")


def ticklish(w, q, d, v0, g0, a, b):
  """The two searches differ and the decision at either end sits within rounding of its threshold."""
  tol = w.cfg["tol"]
  slope0 = dotr(g0, d)
  for st in (a, b):
    v = float(st.value)
    e = float(st.error)
    band = 1e-9 * (abs(v0) + (abs(v) if np.isfinite(v) else 0.0) + abs(slope0)) + 1e-300
    if near_edge(q, st.params) or (np.isfinite(e) and abs(e - tol) <= band):
      if int(a.iter_num) != int(b.iter_num) or not close(cflat(a.params).real, cflat(b.params).real, 1e-9, 0.0):
        return True
  return False


def vmapped(job, run, ctx, sim):
  """A batch of searches: each lane is judged on its own."""
  w = ctx["w"]
  lanes = [dict(run, data=run["data"] + j, **({} if j == 0 else {k: v for k, v in run_(Rng("C08lane", run["data"], j), "vmap").items() if k not in ("given", "dir", "data")}))
           for j in range(3)]
  built = [build(w, l, sim) for l in lanes]
  qs = [b[0] for b in built]
  batch = jax.tree_util.tree_map(lambda *x: jnp.stack([jnp.asarray(i) for i in x]), *qs)
  s, st = w.vrun(batch)
  s, st = np.asarray(s), np_tree(st)
  sim.probe("batch")
  for j, l in enumerate(lanes):
    stj = jax.tree_util.tree_map(lambda x: np.asarray(x)[j], st)
    q, d, v0, g0 = built[j]
    sim.steps += int(stj.iter_num)
    sim.log("lane", j, repr(float(s[j])), int(stj.iter_num), bool(stj.done), bool(stj.failed))
    judge(w, l, q, d, v0, g0, s[j], stj, sim, f"lane {j}")
    if w.kind == "backtracking":
      backtrack_model(w, q, d, v0, g0, l, float(s[j]), stj, sim)


def eager(w, run, q, d, v0, g0, sim):
  """Interpreted search in which some evaluations are lost (answer NaN)."""
  count = [0]
  lost = set(run["lost"])

  def tap(out):
    k = count[0]
    count[0] += 1
    if k in lost:
      sim.fault("lost_evaluation")
      sim.log("lost", k)
      return out * jnp.nan
    return out
  P.TAP[0] = tap
  try:
    s, st = w.run(q)
  finally:
    P.TAP[0] = None
  sim.evals += count[0]
  s, st = float(s), np_tree(st)
  sim.steps += int(st.iter_num)
  sim.log("run", repr(s), int(st.iter_num), bool(st.done), bool(st.failed), count[0])
  if any(k < count[0] for k in lost) and not np.isfinite(float(st.value_init if hasattr(st, "value_init") else v0)):
    # The initial value itself was lost: nothing can be accepted.
    sim.check(not bool(st.done), "bad_value", f"accepted a step although the initial value is {st.value_init}")
    return
  judge(w, run, q, d, v0, g0, s, st, sim, "interpreted", corrupted=True)
