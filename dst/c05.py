"""C05: problems solved together in one batch do not affect one another.

World: several clients' problems travel in one batch (vmap of run or of update). The simulator decides what each lane carries: a healthy problem, one
that turns NaN, overflows, never converges, or starts at its solution. Oracles: (1) the batch is run again with one lane replaced by another
problem: all other lanes must be bit-identical; (2) each lane but the overflowing ones equals the same problem solved alone.
"""
import jax
import jax.numpy as jnp
import numpy as np

from jaxopt import isotonic, linear_solve, loss, projection, prox
from jaxopt import EqualityConstrainedQP

from dst import catalog as C
from dst import common
from dst.core import Rng, digest_tree, np_tree, tree_diff

LEVEL = "exploration"
RULE = ("A case is one batch of 2-5 problems (kinds healthy, NaN, infinite, overflowing, started at the solution) solved by vmap of run or of repeated update, "
        "then again with one lane replaced. Non-trivial: at least one lane made an update and a lane was replaced or compared. Distinct: by hash of the event log with "
        "digests of all lanes.")
REAL = ["run and update of every iterative solver under jax.vmap, with while_loop and scan loops",
        "jaxopt.projection, prox, isotonic, linear_solve, loss, EqualityConstrainedQP and their derivatives under jax.vmap"]
STUB = ["the problems in the lanes"]
ASSUMPTIONS = ["a lane of a batched XLA program is computed from that lane's data only (checked: equal bits when another lane is replaced)"]


# BoxOSQP solves its inner linear system by conjugate gradient to a finite accuracy.
SLACK = {"BoxOSQP": 1e-6}


# ------------------------------------------------------------------------------------- functions that are solved in batches as well
N = 6


def _sys(f, **k):
  def g(x, A):
    M = A @ A.T + 0.5 * jnp.eye(N)
    return f(lambda v: M @ v, x, **k)
  return g


def _qp(x, A):
  Q = A @ A.T + 0.5 * jnp.eye(N)
  return EqualityConstrainedQP().run(params_obj=(Q, x), params_eq=(A[:2], A[2, :2])).params.primal


FNS = {
    "isotonic_l2_pav": lambda x, A: isotonic.isotonic_l2_pav(x), "isotonic_decreasing": lambda x, A: isotonic.isotonic_l2_pav(x, increasing=False, y_min=-1.0, y_max=1.0),
    "simplex": lambda x, A: projection.projection_simplex(x), "sparse_simplex": lambda x, A: projection.projection_sparse_simplex(x, 2),
    "l1_sphere": lambda x, A: projection.projection_l1_sphere(x), "l1_ball": lambda x, A: projection.projection_l1_ball(x),
    "l2_sphere": lambda x, A: projection.projection_l2_sphere(x), "l2_ball": lambda x, A: projection.projection_l2_ball(x),
    "linf_ball": lambda x, A: projection.projection_linf_ball(x), "box": lambda x, A: projection.projection_box(x, (A[0], A[0] + jnp.abs(A[1]))),
    "hypercube": lambda x, A: projection.projection_hypercube(x), "hyperplane": lambda x, A: projection.projection_hyperplane(x, (A[0], A[1, 0])),
    "halfspace": lambda x, A: projection.projection_halfspace(x, (A[0], A[1, 0])), "affine": lambda x, A: projection.projection_affine_set(x, (A[:2], A[2, :2])),
    "box_section": lambda x, A: projection.projection_box_section(x, (-jnp.ones(N), jnp.ones(N), jnp.abs(A[0]) + 0.2, 0.3), check_feasible=False),
    "transport": lambda x, A: projection.projection_transport(A[:2, :3], (jnp.array([0.4, 0.6]), jnp.array([0.2, 0.3, 0.5]))),
    "kl_transport": lambda x, A: projection.kl_projection_transport(A[:2, :3], (jnp.array([0.4, 0.6]), jnp.array([0.2, 0.3, 0.5]))),
    "birkhoff": lambda x, A: projection.projection_birkhoff(A[:3, :3]), "kl_birkhoff": lambda x, A: projection.kl_projection_birkhoff(A[:3, :3]),
    "lasso": lambda x, A: prox.prox_lasso(x, 0.3), "group_lasso": lambda x, A: prox.prox_group_lasso(x, 0.3), "elastic_net": lambda x, A: prox.prox_elastic_net(x, (0.3, 0.5)),
    "nn_lasso": lambda x, A: prox.prox_non_negative_lasso(x, 0.3), "nn_ridge": lambda x, A: prox.prox_non_negative_ridge(x, 0.3),
    "solve_cg": _sys(linear_solve.solve_cg, maxiter=20), "solve_normal_cg": _sys(linear_solve.solve_normal_cg, maxiter=20), "solve_gmres": _sys(linear_solve.solve_gmres, maxiter=5),
    "solve_bicgstab": _sys(linear_solve.solve_bicgstab, maxiter=20), "solve_lu": _sys(linear_solve.solve_lu), "solve_cholesky": _sys(linear_solve.solve_cholesky),
    "solve_inv": _sys(linear_solve.solve_inv), "solve_qr": _sys(linear_solve.solve_qr), "eq_qp": _qp,
    "sparsemax_loss": lambda x, A: loss.multiclass_sparsemax_loss(1, x), "logistic_loss": lambda x, A: loss.multiclass_logistic_loss(1, x),
    "hinge_loss": lambda x, A: loss.multiclass_hinge_loss(1, x),
}
# Solved by an iterative method to a finite accuracy: a lane and the same problem alone agree to that accuracy only.
FN_SLACK = {"box_section": 1e-4, "transport": 1e-3, "kl_transport": 1e-3, "birkhoff": 1e-3, "kl_birkhoff": 1e-3, "eq_qp": 1e-4, "solve_cg": 1e-3, "solve_normal_cg": 1e-3,
            "solve_gmres": 1e-3, "solve_bicgstab": 1e-3}


SLOW = ("transport", "kl_transport", "birkhoff", "kl_birkhoff")


def fn_data(l):
  rng = Rng("C05fn", l["data"])
  r = rng.np()
  x, A = r.randn(N), r.randn(N, N)
  if rng.chance(0.2):
    x = np.round(x)  # ties
  f, i = l["fault"], rng.randrange(N)
  if f in ("nan", "inf"):
    x[i] = np.nan if f == "nan" else np.inf * rng.choice([1, -1])
    A[i % 3, i] = x[i]
  elif f == "blowup":
    s = rng.choice([1e12, 1e80, 1e300])
    x[i], A[0, i] = x[i] * s, A[0, i] * s
  elif f == "far":
    x, A = x * 30, A * 30
  elif f == "solved":
    x = np.ones(N) / N
  return jnp.asarray(x), jnp.asarray(A)


def functions(job, run, ctx, sim):
  name = job["template"][3:]
  g = FNS[name]
  if "one" not in ctx:
    if job["op"] == "grad":
      h = lambda x, A: jax.grad(lambda x, A: jnp.sum(jnp.cos(jnp.arange(1.0, 1.0 + jnp.size(g(x, A)))) * jnp.ravel(g(x, A))), argnums=(0, 1))(x, A)
    else:
      h = g
    ctx["one"], ctx["all"] = jax.jit(h), jax.jit(jax.vmap(h))
  lanes = run["lanes"]
  data = [fn_data(l) for l in lanes]
  j = run["swap"]
  data2 = data[:j] + [fn_data(run["to"])] + data[j + 1:]
  for l in lanes + [run["to"]]:
    if l["fault"] != "none":
      sim.fault("lane_" + l["fault"])
  st = lambda d: (jnp.stack([x for x, _ in d]), jnp.stack([A for _, A in d]))
  a, b = np_tree(ctx["all"](*st(data))), np_tree(ctx["all"](*st(data2)))
  sim.probe("batch")
  sim.fault("lane_replaced")
  sim.steps += 1
  for i, l in enumerate(lanes):
    sim.log(i, digest_tree(take(a, i)))
    if i == j:
      continue
    d = tree_diff(take(a, i), take(b, i))
    sim.check(d is None, "cross_talk", lambda: f"{name}: lane {i} changes when lane {j} is replaced: {d}")
  for i, l in enumerate(lanes):
    if l["fault"] in ("nan", "inf", "blowup", "far"):
      continue
    one = np_tree(ctx["one"](*data[i]))
    tol = FN_SLACK.get(name, 1e-9)
    d = common.loose_diff(one, take(a, i), tol, tol)
    sim.check(d is None, "lane_result", lambda: f"{name}: lane {i} of the batch differs from the same problem alone: {d}")


def lane(rr):
  return {"data": rr.getrandbits(30), "fault": rr.weighted([("none", 5), ("nan", 1), ("inf", 0.7), ("blowup", 1), ("solved", 1.2), ("far", 1)])}


def plan(seed, tier):
  jobs = []
  ncfg, nruns = (4, 12) if tier == "quick" else (50, 40)
  for name in common.ALL:
    t = C.REG[name]
    for ci in range(ncfg):
      rng = Rng("C05", seed, name, ci)
      cfg = t.cfg(rng)
      if name == "Bisection":
        cfg["check"] = False
      if "fam" in cfg and rng.chance(0.2):
        cfg["fam"] = "barrier"
      op = "update" if ci % 4 == 3 else "run"
      runs = []
      n = rng.choice([2, 3, 5])
      for r in range(nruns):
        rr = Rng("C05run", seed, name, ci, r)
        runs.append({"lanes": [lane(rr) for _ in range(n)], "swap": rr.randrange(n), "to": lane(rr), "k": rr.randrange(1, 8)})
      maxiter = rng.choice([1, 3, 8, 8, 15]) * (5 if name == "BoxOSQP" else 1)
      jobs.append({"template": name, "cfg": cfg, "x64": True, "op": op, "maxiter": maxiter, "tol": rng.choice([1e-6, 1e-3, 1e-2, 1e-1]),
                   "unroll": rng.choice(["auto", "auto", False, True]), "implicit": rng.chance(0.7), "runs": runs,
                   "cost": 20 if name in ("LBFGSB", "LBFGS", "BoxOSQP", "NonlinearCG", "BFGS") else 6})
  for name in FNS:
    for op in ("value", "grad"):
      runs = []
      for r in range((4 if name in SLOW else 12) if tier == "quick" else 400):
        rr = Rng("C05fn", seed, name, op, r)
        n = 3 if tier == "quick" else 2 + r % 4
        runs.append({"lanes": [lane(rr) for _ in range(n)], "swap": rr.randrange(n), "to": lane(rr), "k": 1})
      jobs.append({"template": "fn:" + name, "cfg": {}, "op": op, "x64": True, "runs": runs, "cost": 30 if name in SLOW else 3})
  return jobs


def shrink(job, run):
  for i, l in enumerate(run["lanes"]):
    if l["fault"] != "none":
      yield dict(run, lanes=run["lanes"][:i] + [dict(l, fault="none")] + run["lanes"][i + 1:])
  if run["to"]["fault"] != "none":
    yield dict(run, to=dict(run["to"], fault="none"))
  if run["k"] > 1:
    yield dict(run, k=run["k"] - 1)


def nontrivial(r):
  return r["probes"].get("batch", 0) >= 1 and r["steps"] >= 1


def build(job, t, name, cfg, l, sim):
  pr = C.problem(name, cfg, l["data"], 0)
  f = l["fault"]
  rng = Rng("C05lane", l["data"])
  if f == "nan":
    pr = common.poison(pr, rng)
  elif f == "inf":
    pr = common.poison(pr, rng, np.inf)
  elif f == "blowup":
    pr = common.blow_up(pr, rng.choice([1e20, 1e80, 1e155]))
  elif f == "far" and pr.init is not None:
    pr = pr._replace(init=jax.tree_util.tree_map(lambda x: x * 8.0 if name not in ("MirrorDescent", "LBFGSB", "BoxCDQP") else x, pr.init))
  elif f == "solved":
    try:
      opt = t.optimum(cfg, pr)
    except AttributeError:
      opt = None
    if opt is not None and pr.init is not None and np.asarray(opt).size == sum(np.asarray(x).size for x in jax.tree_util.tree_leaves(pr.init)):
      from dst import problems as P
      pr = pr._replace(init=C.J(P.to_tree(np.asarray(opt), cfg.get("pt", "flat"))))
  if f != "none" and sim is not None:
    sim.fault("lane_" + f)
  return pr


def stack(prs):
  return jax.tree_util.tree_map(lambda *a: jnp.stack([jnp.asarray(x) for x in a]), *[(p.init, p.args, p.kwargs) for p in prs])


def take(tree, i):
  return jax.tree_util.tree_map(lambda x: np.asarray(x)[i], tree)


def execute(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  if name.startswith("fn:"):
    return functions(job, run, ctx, sim)
  t = C.REG[name]
  if "solver" not in ctx:
    s = ctx["solver"] = t.make(cfg, maxiter=job["maxiter"], tol=job["tol"], unroll=job["unroll"], implicit_diff=job["implicit"])

    def start(q):
      pr = C.Prob(q[0], q[1], q[2], None)
      return t.start(s, pr)
    ctx["run"] = jax.jit(jax.vmap(lambda q: s.run(q[0], *q[1], **q[2])))
    ctx["start"] = jax.jit(jax.vmap(start))
    ctx["update"] = jax.jit(jax.vmap(lambda p, u, q: s.update(p, u, *q[1], **q[2])))
  s = ctx["solver"]
  prs = [build(job, t, name, cfg, l, sim) for l in run["lanes"]]
  other = build(job, t, name, cfg, run["to"], sim)
  j = run["swap"]
  prs2 = prs[:j] + [other] + prs[j + 1:]

  def go(ps):
    q = stack(ps)
    if job["op"] == "run":
      out = ctx["run"](q)
      return np_tree(tuple(out))
    p, u = ctx["start"](q)
    for _ in range(run["k"]):
      p, u = ctx["update"](p, u, q)
    return np_tree((p, u))
  a = go(prs)
  b = go(prs2)
  sim.probe("batch")
  sim.fault("lane_replaced")
  for i in range(len(prs)):
    sim.log(i, digest_tree(take(a, i)))
    if i == j:
      continue
    d = tree_diff(take(a, i), take(b, i))
    sim.check(d is None, "cross_talk", lambda: f"lane {i} changes when lane {j} is replaced: {d}")
  # Alone.
  for i, pr in enumerate(prs[:3]):
    if run["lanes"][i]["fault"] == "blowup":
      continue  # At 1e20..1e155 the order of overflow and cancellation differs between compilations; such a lane matters as a neighbour.
    p, u = t.start(s, pr)
    if job["op"] == "run":
      hist = common.history(s, p, u, pr, job["maxiter"], lambda q, v: t.stopped(cfg, q, v, job["tol"]))
    else:
      hist = common.history(s, p, u, pr, run["k"])
    n = len(hist) - 1
    sim.steps += n
    got = take(a, i)
    cnt = int(got[1].iter_num)
    bad = None
    if cnt != n:
      bad = ("stopping_point", f"lane {i}: {cnt} updates in the batch, {n} alone")
    else:
      d = common.loose_diff(hist[-1], got, 1e-6, 1e-8)
      if d is not None:
        bad = ("lane_result", f"lane {i} after {n} updates: {d}")
    if bad is None:
      continue
    errs = [float(np.asarray(h[1].error)) for h in hist[1:]]
    if run["lanes"][i]["fault"] in ("blowup", "inf") and not np.isfinite(errs[-1]) and not np.isfinite(got[1].error):
      sim.probe("overflow_order")
      continue
    lvl = 1e3 * common.sensitivity(t, s, pr, n, hist, Rng("C05chaos", run["lanes"][i]["data"]))
    if any(abs(e - job["tol"]) <= max(1e-6 * job["tol"], lvl) for e in errs):
      sim.probe("sensitive_to_rounding")
      continue
    if lvl >= 0.1 or (bad[0] == "lane_result" and common.loose_diff(hist[-1], got, max(1e-6, lvl), max(SLACK.get(name, 1e-8), lvl)) is None):
      sim.probe("sensitive_to_rounding")
      continue
    sim.check(False, *bad)
