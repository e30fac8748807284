"""C13: quadratic-program solvers give correct verdicts.

World: a client keeps one QP solver busy with a sequence of problems (solvable, primal infeasible, unbounded) that were built so that their class is certain, not a matter of
tolerance. Between and during solves the simulator changes the problem, warm-starts from the previous (possibly diverged) iterates, loses the process and resumes from saved
(params, state), goes back to older saves, feeds non-finite data, and cuts the solve short. Every verdict is judged from the KKT conditions and certificates in NumPy.
"""
import numpy as np
import jax
import jax.numpy as jnp

import jaxopt
from jaxopt import base

from dst import catalog as C
from dst import common
from dst.core import Rng, all_finite, digest_tree, np_tree

LEVEL = "exploration"
RULE = ("A case is one sequence of QPs handed to one solver with warm starts, losses, rollbacks, non-finite steps and cut-offs; the verdict after each stop is judged by the KKT "
        "conditions or by the construction of the problem. Non-trivial: at least one verdict other than 'unsolved' and one fault or history operation. Distinct: by hash of the event log.")
REAL = ["BoxOSQP (cg, cg+jacobi, lu; matrices, matvecs, fun, pytrees; stepping and run; jit and interpreted)", "OSQP", "EqualityConstrainedQP", "BoxCDQP", "CvxpyQP with the real CVXPY (OSQP, SCS, CLARABEL)"]
STUB = ["problem source and durable storage (simulated)", "outcome of cvxpy.Problem.solve in part of the CVXPY runs (iteration limit, crash, inaccurate verdicts)"]
ASSUMPTIONS = ["x64", "problems are classified by construction: solvable ones have a small feasible point and a small multiplier or a well-conditioned Q, so that no certificate at the "
               "solver's tolerance can be true for them; infeasible and unbounded ones have certificates with a wide margin",
               "status DUAL_INFEASIBLE also covers primal infeasible problems, as documented"]
CLASSES = ("S", "P", "U")
N, M = 4, 6
TOLP = 1e-3


def qp(kind, seed, eq=False):
  """(Q, c, A, l, u) of the class asked for."""
  rng = Rng("qp", kind, seed)
  r = rng.np()
  A = r.randn(M, N)
  A /= np.maximum(1.0, np.abs(A).max(axis=1, keepdims=True))
  rank = N if kind != "U" else rng.choice([2, 3, 0])
  if kind == "S" and rng.chance(0.35):
    rank = rng.choice([2, 3, 0])
  B = r.randn(N, max(rank, 1)) if rank else np.zeros((N, 1))
  Q = B @ B.T / N
  if rank == N:
    Q = Q + 0.3 * np.eye(N)
  Q = Q * rng.choice([1.0, 1.0, 5.0])
  x0 = r.uniform(-1, 1, N)
  x0 *= 0.35 / max(np.abs(x0).sum(), 1e-9)  # |x0|_1 <= 0.35
  v = A @ x0
  lo, hi = v - r.uniform(0.05, 1.5, M), v + r.uniform(0.05, 1.5, M)
  side = [rng.weighted([("both", 4), ("lo", 2), ("hi", 2), ("free", 0.5), ("eq", 1)]) for _ in range(M)]
  for i, s in enumerate(side):
    if s == "lo":
      hi[i] = np.inf
    elif s == "hi":
      lo[i] = -np.inf
    elif s == "free":
      lo[i], hi[i] = -np.inf, np.inf
    elif s == "eq":
      lo[i] = hi[i] = v[i]
  c = r.randn(N) * rng.choice([1.0, 0.1])
  if kind == "S" and rank < N:
    # stationary at x0 with a small multiplier of the right signs
    y = np.zeros(M)
    for i in range(M):
      k = rng.randrange(3)
      if k == 1 and np.isfinite(hi[i]):
        hi[i], y[i] = v[i], r.uniform(0, 1)
      elif k == 2 and np.isfinite(lo[i]):
        lo[i], y[i] = v[i], -r.uniform(0, 1)
    if np.abs(y).sum() > 0:
      y *= 0.4 / np.abs(y).sum()
    c = -(Q @ x0 + A.T @ y)
  if kind == "P":
    i, j = rng.sample(range(M), 2)
    s = rng.choice([1.0, -1.0, 2.0])
    A[j] = s * A[i]
    # a x <= t and a x >= t + gap
    t, gap = r.uniform(-1, 1), r.uniform(0.5, 2)
    lo[i], hi[i] = (-np.inf if rng.chance(0.5) else t - 1.0), t
    if s > 0:
      lo[j], hi[j] = s * (t + gap), (np.inf if rng.chance(0.5) else s * (t + gap) + 1.0)
    else:
      lo[j], hi[j] = (-np.inf if rng.chance(0.5) else s * (t + gap) - 1.0), s * (t + gap)
  if kind == "U":
    # a direction d of descent along which nothing stops: Q d = 0, A d in the recession cone, c d < 0
    w, V = np.linalg.eigh(Q)
    null = V[:, w < 1e-10]
    d = null @ r.randn(null.shape[1])
    d /= np.abs(d).max()
    Ad = A @ d
    for i in range(M):
      if Ad[i] > 0:
        hi[i] = np.inf
        if lo[i] > v[i]:
          lo[i] = v[i]
      else:
        lo[i] = -np.inf
    # no equalities left across d
    for i in range(M):
      if np.isfinite(lo[i]) and lo[i] == hi[i]:
        A[i] = A[i] - (A[i] @ d) / (d @ d) * d
        lo[i] = hi[i] = A[i] @ x0
    v = A @ x0
    lo, hi = np.minimum(lo, v), np.maximum(hi, v)
    c = r.randn(N) * 0.3
    c = c - (c @ d) / (d @ d) * d - d / (d @ d) * r.uniform(0.5, 1.5)
  return Q, c, A, lo, hi


# ------------------------------------------------------------------------------------------------- forms of the same problem
def forms(form):
  """(solver keywords, function from (Q, c, A, l, u) to the arguments of run/update, function to flat x, z, y, mu, phi)."""
  if form == "mat":
    return {}, lambda q: ((q[0], q[1]), q[2], (q[3], q[4]))
  if form == "mv":
    return (dict(matvec_Q=lambda P, x: P["Q"] @ x, matvec_A=lambda P, x: P[0] @ x), lambda q: (({"Q": q[0]}, q[1]), (q[2],), (q[3], q[4])))
  if form == "fun":
    return (dict(fun=lambda x, P: 0.5 * jnp.dot(x, P[0] @ x) + jnp.dot(P[1], x) + 3.0), lambda q: ((q[0], q[1]), q[2], (q[3], q[4])))
  if form == "tree":  # x = {"a": x[:2], "b": x[2:]}, block structure is not needed: a matvec on pytrees
    def mq(P, x):
      v = P @ jnp.concatenate([x["a"], x["b"]])
      return {"a": v[:2], "b": v[2:]}

    def ma(P, x):
      v = P @ jnp.concatenate([x["a"], x["b"]])
      return (v[:1], v[1:])
    return (dict(matvec_Q=mq, matvec_A=ma), lambda q: ((q[0], {"a": q[1][:2], "b": q[1][2:]}), q[2], ((q[3][:1], q[3][1:]), (q[4][:1], q[4][1:]))))
  raise ValueError(form)


def vec(t):
  return np.concatenate([np.ravel(np.asarray(x)) for x in jax.tree_util.tree_leaves(t)])


def start(solver, form, args):
  x0 = None
  if form == "fun":
    x0 = jnp.zeros(N)
  return solver.init_params(x0, *args)


def plan(seed, tier):
  jobs = []
  q = tier == "quick"
  for ci in range(20 if q else 160):
    rng = Rng("C13", seed, ci)
    form = ["mat", "mv", "fun", "tree"][ci % 4]
    cfg = {"form": form, "eq_qp_solve": ["lu", "cg", "cg+jacobi"][ci // 4 % 3] if form == "mat" else "cg", "momentum": rng.choice([1.6, 1.0, 1.8]),
           "ssf": rng.choice([10, 10, 3]), "tcf": rng.choice([5, 1, 3]), "rho": rng.choice([0.1, 0.1, 1.0, 0.01]), "tol": rng.choice([1e-3, 1e-5]), "check": rng.chance(0.85)}
    jobs.append({"template": "BoxOSQP", "cfg": cfg, "world": "history", "x64": True, "runs": [history(Rng("C13r", seed, ci, r), cfg) for r in range(30 if q else 120)], "cost": 10})
  for ci in range(4 if q else 24):
    rng = Rng("C13o", seed, ci)
    cfg = {"form": ["mat", "mv"][ci % 2], "eq_qp_solve": rng.choice(["cg", "lu"]) if ci % 2 == 0 else "cg", "shape": ["both", "ineq", "both", "eq"][ci % 4], "tol": rng.choice([1e-3, 1e-5])}
    jobs.append({"template": "OSQP", "cfg": cfg, "world": "wrapper", "x64": True, "cost": 8,
                 "runs": [{"seq": [[Rng("C13ok", seed, ci, r, j).weighted([("S", 3), ("P", 2 if cfg["shape"] != "eq" else 0.001), ("U", 1 if cfg["shape"] == "ineq" else 0.001)]),
                                    Rng("C13od", seed, ci, r, j).getrandbits(30), Rng("C13ow", seed, ci, r, j).choice(["cold", "warm", "warm"])] for j in range(4)]} for r in range(12 if q else 60)]})
  for ci in range(6 if q else 24):
    rng = Rng("C13e", seed, ci)
    cfg = {"form": ["mat", "tree", "mv"][ci % 3], "eq_qp_solve": "lu" if ci % 3 == 0 else "cg", "tol": 1e-3, "cls": "OSQP" if ci % 6 == 3 else "BoxOSQP"}
    jobs.append({"template": cfg["cls"], "cfg": dict(cfg, form="mat" if cfg["cls"] == "OSQP" else cfg["form"]), "world": "interpreted", "x64": True, "cost": 40,
                 "runs": [{"kinds": [Rng("C13ek", seed, ci, r, j).choice("SPPU" if cfg["cls"] == "BoxOSQP" else "SP") for j in range(3)], "data": Rng("C13ed", seed, ci, r).getrandbits(30)} for r in range(2 if q else 6)]})
  for ci in range(3 if q else 12):
    jobs.append({"template": "EqualityConstrainedQP", "cfg": {"form": ["mat", "mv", "mat"][ci % 3], "refine": ci % 2 == 1}, "world": "eqqp", "x64": True, "cost": 4,
                 "runs": [{"data": Rng("C13q", seed, ci, r).getrandbits(30), "warm": r % 2 == 1} for r in range(25 if q else 100)]})
  for ci in range(3 if q else 12):
    jobs.append({"template": "BoxCDQP", "cfg": {"tol": [1e-6, 1e-3, 1e-9][ci % 3], "maxiter": [500, 3, 60][ci % 3]}, "world": "cdqp", "x64": True, "cost": 4,
                 "runs": [{"data": Rng("C13c", seed, ci, r).getrandbits(30), "seq": 3} for r in range(25 if q else 100)]})
  for ci in range(4 if q else 12):
    rng = Rng("C13v", seed, ci)
    cfg = {"solver": ["OSQP", "CLARABEL", "OSQP", "SCS"][ci % 4], "shape": ["both", "ineq", "none", "eq"][ci // 2 % 4 if not q else (ci + seed) % 4]}
    jobs.append({"template": "CvxpyQP", "cfg": cfg, "world": "cvxpy", "x64": True, "cost": 6,
                 "runs": [{"seq": [[Rng("C13vk", seed, ci, r, j).weighted([("S", 3), ("P", 2), ("U", 2)]), Rng("C13vd", seed, ci, r, j).getrandbits(30),
                                    Rng("C13vw", seed, ci, r, j).weighted([("real", 5), ("limit", 3), ("raise", 1), ("infeasible_inaccurate", 1), ("unbounded_inaccurate", 1),
                                                                          ("optimal_inaccurate", 1), ("grad", 3)])] for j in range(3)]} for r in range(12 if q else 40)]})
  return jobs


def history(rng, cfg):
  ops = []
  for k in range(rng.randrange(1, 4)):
    kind = rng.weighted([("S", 3), ("P", 2), ("U", 2)])
    ops.append(["new", kind, rng.getrandbits(30), "cold" if k == 0 else rng.choice(["cold", "warm", "warm", "dirty"])])
    for _ in range(rng.randrange(0, 4)):
      o = rng.weighted([("run", 3), ("crash", 2), ("save", 1), ("rollback", 1), ("bad", 1), ("kick", 1)])
      ops.append([o, rng.choice([1, 2, 5, 7, 20])] if o == "run" else [o, rng.getrandbits(20)])
    if rng.chance(0.8):
      ops.append(["finish", rng.weighted([(20000, 5), (30, 1), (200, 1)])])
  if ops[-1][0] != "finish":
    ops.append(["finish", 20000])
  return {"ops": ops}


def shrink(job, run):
  if "ops" in run:
    for ops in common.ddmin_ops(run["ops"]):
      if ops and ops[0][0] == "new":
        yield dict(run, ops=ops)
  elif "seq" in run and isinstance(run["seq"], list):
    for i in range(len(run["seq"])):
      if len(run["seq"]) > 1:
        yield dict(run, seq=run["seq"][:i] + run["seq"][i + 1:])
  elif "kinds" in run:
    for i in range(len(run["kinds"])):
      if len(run["kinds"]) > 1:
        yield dict(run, kinds=run["kinds"][:i] + run["kinds"][i + 1:])


def nontrivial(r):
  return r["probes"].get("verdict", 0) >= 1 and (sum(r["faults"].values()) >= 1 or r["steps"] >= 3)


# ---------------------------------------------------------------------------------------------------------------- the oracle
def judge_solved(sim, data, x, z, y, mu, phi, tol, what):
  Q, c, A, lo, hi = data
  slack = lambda *a: 1e-9 * (1 + max(float(np.max(np.abs(v), initial=0.0)) for v in a))
  sim.check(all(np.all(np.isfinite(v)) for v in (x, z, y, mu, phi)), "verdict_solved", f"{what}: reported as solved, but the variables are not finite")
  sim.check(np.all(z >= lo - 0.0) and np.all(z <= hi), "verdict_solved", lambda: f"{what}: z = {z} outside of [{lo}, {hi}]")
  pr = float(np.max(np.abs(A @ x - z)))
  sim.check(pr <= tol + slack(A @ x), "verdict_solved", lambda: f"{what}: reported as solved to {tol}, |Ax - z| = {pr:.3g}")
  du = float(np.max(np.abs(Q @ x + c + A.T @ y)))
  sim.check(du <= tol + slack(Q @ x, c, A.T @ y), "verdict_solved", lambda: f"{what}: reported as solved to {tol}, |Qx + c + A'y| = {du:.3g}")
  sim.check(np.all(mu >= 0) and np.all(phi >= 0), "verdict_solved", lambda: f"{what}: negative multipliers {mu} {phi}")
  sim.check(np.allclose(mu - phi, y, atol=slack(y), rtol=1e-9), "verdict_solved", lambda: f"{what}: mu - phi = {mu - phi}, dual_eq = {y}")
  up = np.where(np.isfinite(hi), hi, 0.0) - z
  dn = z - np.where(np.isfinite(lo), lo, 0.0)
  bad = (np.isinf(hi) & (mu > 1e-7 * (1 + np.abs(y)))) | (np.isinf(lo) & (phi > 1e-7 * (1 + np.abs(y))))
  sim.check(not np.any(bad), "verdict_solved", lambda: f"{what}: a multiplier of an infinite bound is not zero: mu {mu}, phi {phi}, bounds {lo}, {hi}")
  comp = max(np.max(np.where(np.isfinite(hi), np.abs(mu * up), 0.0)), np.max(np.where(np.isfinite(lo), np.abs(phi * dn), 0.0)))
  sim.check(comp <= 1e-6 * (1 + np.max(np.abs(y))) * (1 + np.max(np.abs(z))), "verdict_solved", lambda: f"{what}: complementarity violated by {comp:.3g}: z {z}, mu {mu}, phi {phi}")


def parts(p):
  return vec(p.primal[0]), vec(p.primal[1]), vec(p.dual_eq), vec(p.dual_ineq[0]), vec(p.dual_ineq[1])


def judge(sim, kind, data, p, st, tol, what):
  status, err = int(st.status), float(st.error)
  if status == 1:
    sim.check(err <= tol, "verdict_error", f"{what}: solved with error {err}")
    sim.check(kind == "S", "wrong_verdict", f"{what}: a problem without a solution (class {kind}) is reported as solved")
    judge_solved(sim, data, *parts(p), tol, what)
  elif status == 3:
    sim.check(kind == "P", "wrong_verdict", f"{what}: PRIMAL_INFEASIBLE reported for a problem of class {kind}")
  elif status == 2:
    sim.check(kind in "UP", "wrong_verdict", f"{what}: DUAL_INFEASIBLE reported for a solvable problem")
    if kind == "P":  # Q is positive definite: the dual is feasible
      sim.check(np.linalg.matrix_rank(data[0]) < N, "wrong_verdict", f"{what}: DUAL_INFEASIBLE, but the dual of this problem is feasible")
  else:
    sim.check(status == 0, "wrong_verdict", f"{what}: status {status}")
  if status:
    sim.probe("verdict")
  sim.probe("status%d%s" % (status, kind))
  return status


def make(cfg, **k):
  o, args = forms(cfg["form"])
  o = dict(o, eq_qp_solve=cfg["eq_qp_solve"], tol=cfg["tol"], momentum=cfg.get("momentum", 1.6), stepsize_updates_frequency=cfg.get("ssf", 10),
           termination_check_frequency=cfg.get("tcf", 5), rho_start=cfg.get("rho", 0.1), check_primal_dual_infeasability=cfg.get("check", True))
  return jaxopt.BoxOSQP(**o, **k), args


def execute(job, run, ctx, sim):
  return dict(history=go_history, wrapper=go_wrapper, cvxpy=go_cvxpy, interpreted=go_interpreted, eqqp=go_eqqp, cdqp=go_cdqp)[job["world"]](job, run, ctx, sim)


def go_history(job, run, ctx, sim):
  cfg = job["cfg"]
  tcf, tol, form = cfg["tcf"], cfg["tol"], cfg["form"]
  if "pool" not in ctx:
    ctx["pool"], ctx["loop"] = {}, {}
  make_args = forms(form)[1]

  def solver(slot):
    if slot not in ctx["pool"]:
      s = make(cfg)[0]
      ctx["pool"][slot] = s

      def loop(p, u, a, n):
        def body(c):
          k, p, u = c
          p, u = s.update(p, u, *a)
          return k + 1, p, u
        return jax.lax.while_loop(lambda c: (c[0] < n) & (c[2].status == 0), body, (0, p, u))
      ctx["loop"][slot] = jax.jit(loop)
    return ctx["pool"][slot]
  slot = 0
  s = solver(0)
  strong = lambda t: jax.tree_util.tree_map(lambda x: jnp.asarray(np.asarray(x), dtype=np.asarray(x).dtype if np.asarray(x).dtype.kind == "f" else None), t)
  kind = data = a = p = u = None
  n = 0
  last = kept = None
  cold = True
  total = 0

  def reinit():
    nonlocal u, n
    u = s.init_state(p, *a)
    # the carry of a compiled loop: settled types
    u = jax.tree_util.tree_map(lambda x: jnp.asarray(x, dtype=jnp.float64) if np.asarray(x).dtype.kind == "f" else jnp.asarray(x, dtype=jnp.asarray(x).dtype), u)
    n = 0
    sim.check(int(u.status) == 0, "wrong_verdict", f"status {int(u.status)} before the first update")

  def one():
    nonlocal p, u, n, last
    p, u = s.update(p, u, *a)
    n += 1
    sim.steps += 1
    sim.log("step", digest_tree(np_tree(p)), int(u.status))
    if (n - 1) % tcf == 0:
      judge(sim, kind, data, p, u, tol, f"update {n}")
    last = (common.save((p, u)), n, kind, data, a, cold)

  for op in run["ops"]:
    k = op[0]
    if k == "new":
      sim.fault("problem_change")
      kind, data = op[1], qp(op[1], op[2])
      a = jax.tree_util.tree_map(jnp.asarray, make_args(data))
      keep = p
      p = start(s, form, a)
      cold = True
      if keep is not None and op[3] != "cold" and all_finite(keep):
        p = keep
        cold = False
        sim.fault("warm_start")
        if op[3] == "dirty":
          p = jax.tree_util.tree_map(lambda x: x * -3.0 + 1.0, p)
          sim.fault("dirty_start")
      reinit()
      last = kept = (common.save((p, u)), n, kind, data, a, cold)
    elif k == "run":
      for _ in range(op[1]):
        if int(u.status):
          break
        one()
    elif k == "save":
      kept = last
    elif k in ("crash", "rollback"):
      sim.fault("crash_restart" if k == "crash" else "rollback")
      to = last if k == "crash" else kept
      slot = op[1] % 2
      s = solver(slot)
      (p, u), n, kind, data, a, cold = common.load(to[0]), *to[1:]
      u = jax.tree_util.tree_map(lambda x: jnp.asarray(x, dtype=jnp.float64) if np.asarray(x).dtype.kind == "f" else jnp.asarray(x, dtype=jnp.asarray(x).dtype), u)
    elif k == "kick":
      r = Rng("kick", op[1]).np()
      p = jax.tree_util.tree_map(lambda x: jnp.asarray(np.asarray(x) + r.randn(*np.shape(x))), p)
      cold = False
      sim.fault("params_kick")
      reinit()
      last = (common.save((p, u)), n, kind, data, a, cold)
    elif k == "bad":
      sim.fault("non_finite_step")
      rr = Rng("bad", op[1])
      b = [np.array(v) for v in data]
      i = rr.randrange(3)
      b[i].reshape(-1)[rr.randrange(b[i].size)] = rr.choice([np.nan, np.inf])
      ba = jax.tree_util.tree_map(jnp.asarray, make_args(tuple(b)))
      ub = s.init_state(p, *ba)
      pb, ub = s.update(p, ub, *ba)
      sim.check(int(ub.status) != 1 or all_finite(pb), "verdict_solved", "a step on non-finite data is reported as solved with non-finite variables")
      sim.log("bad", int(ub.status))
      if rr.chance(0.4) and all_finite(pb):
        p = pb
        cold = False
        reinit()
        last = (common.save((p, u)), n, kind, data, a, cold)
    elif k == "finish":
      budget = op[1]
      if not int(u.status):
        m, p, u = ctx["loop"][slot](p, u, a, budget)
        m = int(m)
        n += m
        sim.steps += m
      st = judge(sim, kind, data, p, u, tol, f"after {n} updates")
      sim.log("finish", n, st, repr(float(u.error)))
      if st == 0:
        sim.check(n < budget or not float(u.error) <= tol or not np.isfinite(float(u.error)) or (n - 1) % tcf, "wrong_verdict", f"error {float(u.error)} <= tol, yet unsolved")
      # ADMM may cycle for ever when its step size changes all the time, and conjugate gradients lose the direction of an unbounded problem: a verdict is owed on the rest.
      owed = kind == "S" and np.linalg.matrix_rank(data[0]) == N or cfg["check"] and (kind == "P" or kind == "U" and cfg["eq_qp_solve"] == "lu")
      if budget >= 20000 and st == 0 and cold and owed and cfg["ssf"] == 10 and cfg["momentum"] <= 1.6:
        sim.check(False, "no_verdict", f"no verdict on a problem of class {kind} after {n} updates from the default start (error {float(u.error):.3g})")
      last = (common.save((p, u)), n, kind, data, a, cold)


# ------------------------------------------------------------------------------------------------------------------- run of OSQP
def split(cfg, data):
  """params_eq, params_ineq of OSQP for a box problem, and the flat matrices."""
  Q, c, A, lo, hi = data
  eq = np.array([np.isfinite(l) and l == h for l, h in zip(lo, hi)])
  if cfg["shape"] == "eq":
    return None
  G = np.concatenate([A[np.isfinite(hi) & ~eq], -A[np.isfinite(lo) & ~eq]])
  h = np.concatenate([hi[np.isfinite(hi) & ~eq], -lo[np.isfinite(lo) & ~eq]])
  return A[eq], lo[eq], G, h


def osqp_data(cfg, kind, seed):
  """Fixed shapes: 2 equalities (when any) and 6 inequalities."""
  r = Rng("osqp", kind, seed).np()
  B = r.randn(N, N)
  Q, c = B @ B.T / N + 0.3 * np.eye(N), r.randn(N)
  x0 = r.uniform(-1, 1, N)
  x0 *= 0.35 / np.abs(x0).sum()
  E, G = r.randn(2, N), r.randn(6, N)
  E /= np.abs(E).max()
  G /= np.abs(G).max(axis=1, keepdims=True)
  b, h = E @ x0, G @ x0 + r.uniform(0.02, 1.0, 6)
  if kind == "P":
    if cfg["shape"] == "ineq" or r.rand() < 0.5:
      G[1] = -G[0]
      h[1] = -h[0] - r.uniform(0.5, 2)
    else:
      E[1] = E[0]
      b[1] = b[0] + r.uniform(0.5, 2)
    if cfg["shape"] == "eq":
      E[1], b[1] = E[0], b[0] + 1.0
  if kind == "U":
    Q = np.zeros((N, N))
    d = r.randn(N)
    d /= np.abs(d).max()
    G = np.where((G @ d)[:, None] > 0, -G, G)
    h = G @ x0 + r.uniform(0.02, 1.0, 6)
    c = -d / (d @ d)
  return Q, c, (E, b), (G, h)


def go_wrapper(job, run, ctx, sim):
  cfg = job["cfg"]
  shape, tol = cfg["shape"], cfg["tol"]
  if "solver" not in ctx:
    o = {}
    if cfg["form"] == "mv":
      o = dict(matvec_Q=lambda P, x: P @ x)
      if shape in ("both", "eq"):
        o["matvec_A"] = lambda P, x: P @ x
      if shape in ("both", "ineq"):
        o["matvec_G"] = lambda P, x: P @ x
    ctx["solver"] = jaxopt.OSQP(tol=tol, eq_qp_solve=cfg["eq_qp_solve"], check_primal_dual_infeasability=True, maxiter=20000, **o)
    ctx["run"] = jax.jit(lambda p, q, e, g: ctx["solver"].run(p, q, e, g))
  s = ctx["solver"]
  p = None
  for kind, seed, how in run["seq"]:
    if shape == "eq" and kind != "S" or shape == "both" and kind == "U":
      kind = "S" if kind == "U" else kind
    Q, c, (E, b), (G, h) = osqp_data(cfg, kind, seed)
    e = jax.tree_util.tree_map(jnp.asarray, (E, b)) if shape in ("both", "eq") else None
    g = jax.tree_util.tree_map(jnp.asarray, (G, h)) if shape in ("both", "ineq") else None
    q = (jnp.asarray(Q), jnp.asarray(c))
    cold = p is None or how == "cold" or not all_finite(p)
    p0 = s.init_params(None, q, e, g) if cold else p
    if not cold:
      sim.fault("warm_start")
    p, st = ctx["run"](p0, q, e, g)
    status = int(st.status)
    sim.steps += int(st.iter_num)
    sim.log(kind, status, digest_tree(np_tree(p)))
    if status:
      sim.probe("verdict")
    sim.probe("status%d%s" % (status, kind))
    x = vec(p.primal)
    if status == 1:
      sim.check(kind == "S", "wrong_verdict", f"a problem of class {kind} is reported as solved")
      r = Q @ x + c
      scale = 1 + np.max(np.abs(x)) + np.max(np.abs(c))
      if e is not None:
        r = r + E.T @ vec(p.dual_eq)
        sim.check(np.max(np.abs(E @ x - b)) <= 1.001 * tol + 1e-9 * scale, "verdict_solved", lambda: f"equalities violated by {np.max(np.abs(E @ x - b)):.3g}")
      else:
        sim.check(p.dual_eq is None, "verdict_solved", "dual_eq without equalities")
      if g is not None:
        lam = vec(p.dual_ineq)
        r = r + G.T @ lam
        sim.check(np.max(G @ x - h) <= 1.001 * tol + 1e-9 * scale, "verdict_solved", lambda: f"inequalities violated by {np.max(G @ x - h):.3g}")
        sim.check(np.all(lam >= 0), "verdict_solved", lambda: f"negative multipliers {lam}")
        comp = np.max(np.abs(lam * (G @ x - h)))
        sim.check(comp <= (2 * tol + 1e-7) * (1 + np.max(lam)), "verdict_solved", lambda: f"complementarity violated by {comp:.3g}")
      else:
        sim.check(p.dual_ineq is None, "verdict_solved", "dual_ineq without inequalities")
      sim.check(np.max(np.abs(r)) <= 1.001 * tol + 1e-8 * scale, "verdict_solved", lambda: f"stationarity violated by {np.max(np.abs(r)):.3g}")
      sim.check(float(st.error) <= tol, "verdict_error", "solved with error > tol")
    elif status == 3:
      sim.check(kind == "P", "wrong_verdict", f"PRIMAL_INFEASIBLE for class {kind}")
    elif status == 2:
      sim.check(kind == "U", "wrong_verdict", f"DUAL_INFEASIBLE for class {kind}")
    else:
      sim.check(int(st.iter_num) >= 20000 and not float(st.error) <= tol, "wrong_verdict", f"unsolved after {int(st.iter_num)} iterations with error {float(st.error)}")
      sim.check(not cold or kind == "U" and cfg["eq_qp_solve"] == "cg", "no_verdict", f"no verdict on class {kind} after 20000 iterations from the default start")


# ----------------------------------------------------------------------------------------------------------------- CVXPY
class CvxpyGaveUp(Exception):
  pass


def go_cvxpy(job, run, ctx, sim):
  """One CvxpyQP object asked for a sequence of problems; CVXPY on the other side answers, gives up half-way, fails, or is unsure."""
  import cvxpy
  cfg = job["cfg"]
  shape = cfg["shape"]
  if "solver" not in ctx:
    ctx["solver"] = jaxopt.CvxpyQP(solver=cfg["solver"])
  s = ctx["solver"]
  real = cvxpy.Problem.solve
  budget = {"OSQP": "max_iter", "SCS": "max_iters", "CLARABEL": "max_iter"}[cfg["solver"]]

  for kind, seed, how in run["seq"]:
    if kind == "U" and shape not in ("ineq", "none") or kind == "P" and shape == "none":
      kind = "S"
    Q, c, (E, b), (G, h) = osqp_data({"shape": shape}, kind, seed)
    if kind == "P":
      sim.probe("infeasible_problem")
    e = (jnp.asarray(E), jnp.asarray(b)) if shape in ("both", "eq") else None
    g = (jnp.asarray(G), jnp.asarray(h)) if shape in ("both", "ineq") else None
    q = (jnp.asarray(Q), jnp.asarray(c))
    heard, told = [], []

    def solve(self, *a, **k):
      if how == "raise":
        raise CvxpyGaveUp("the solver crashed")
      if how == "limit":
        k[budget] = 2
      r = real(self, *a, **k)
      if how in ("infeasible_inaccurate", "unbounded_inaccurate"):
        self._status = how
        for v in self.variables():
          v.save_value(None)
        for con in self.constraints:
          con.save_dual_value(None) if con.dual_value is not None else None
      elif how == "optimal_inaccurate" and self.status == "optimal":
        self._status = how
      heard.append(self.status)
      told.extend(np.array(v.value) for v in self.variables() if v.value is not None)
      return r
    before = digest_tree(np_tree((q, e, g)))
    out = exc = None
    w = jnp.asarray(Rng("C13g", seed).np().randn(N))
    cvxpy.Problem.solve = solve
    try:
      if how == "grad":
        try:
          dq, out = jax.grad(lambda cc: (lambda o: (jnp.vdot(w, o.params.primal), o))(s.run(None, (q[0], cc), e, g)), has_aux=True)(q[1])
        except Exception as x:  # noqa: BLE001
          exc = x
      else:
        try:
          out = s.run(None, q, e, g)
        except Exception as x:  # noqa: BLE001
          exc = x
    finally:
      cvxpy.Problem.solve = real
    sim.steps += 1
    sim.log(kind, how, heard, type(exc).__name__)
    if how != "grad" and how != "real":
      sim.fault("cvxpy_" + how)
    sim.check(digest_tree(np_tree((q, e, g))) == before, "arguments", "the arguments of run were modified")
    said = heard[0] if heard else None
    what = f"class {kind}, CVXPY said {said}"
    if said not in ("optimal", "optimal_inaccurate"):
      sim.check(exc is not None, "wrong_verdict", lambda: f"{what}: run returned {out.params} instead of raising")
      sim.probe("verdict")
      sim.probe("refused:%s" % said)
      if how == "raise":
        sim.check(isinstance(exc, CvxpyGaveUp), "exception", lambda: f"the error of CVXPY did not reach the caller: {exc!r}")
      continue
    if exc is not None:
      sim.check(False, "wrong_verdict", f"{what}: run raised {exc!r}")
    hasty = how == "limit" and said != "optimal"  # CVXPY itself warns that this solution may be inaccurate
    sim.check(kind == "S" or hasty, "wrong_verdict", f"{what}: returned as solved")
    sim.probe("verdict")
    p = out.params
    x = vec(p.primal)
    sim.check(np.all(np.isfinite(x)) and x.shape == (N,), "verdict_solved", lambda: f"{what}: primal {x}")
    sim.check(np.array_equal(x, told[0]), "verdict_solved", lambda: f"{what}: primal {x}, CVXPY's variable {told[0]}")
    if hasty:
      continue
    r = Q @ x + c
    if e is not None:
      sim.check(vec(p.dual_eq).shape == b.shape, "verdict_solved", lambda: f"dual_eq of shape {vec(p.dual_eq).shape} for {b.shape} equalities")
      r = r + E.T @ vec(p.dual_eq)
      sim.check(np.max(np.abs(E @ x - b)) <= 2e-3, "verdict_solved", lambda: f"{what}: equalities violated by {np.max(np.abs(E @ x - b)):.3g}")
    else:
      sim.check(p.dual_eq is None, "verdict_solved", "dual_eq without equalities")
    if g is not None:
      lam = vec(p.dual_ineq)
      sim.check(lam.shape == h.shape, "verdict_solved", lambda: f"dual_ineq of shape {lam.shape} for {h.shape} inequalities")
      r = r + G.T @ lam
      sim.check(np.max(G @ x - h) <= 2e-3, "verdict_solved", lambda: f"{what}: inequalities violated by {np.max(G @ x - h):.3g}")
      sim.check(np.all(lam >= -2e-3), "verdict_solved", lambda: f"{what}: negative multipliers {lam}")
      comp = np.max(np.abs(lam * (G @ x - h)))
      sim.check(comp <= 5e-3 * (1 + np.max(lam)), "verdict_solved", lambda: f"{what}: complementarity violated by {comp:.3g}")
    else:
      sim.check(p.dual_ineq is None, "verdict_solved", "dual_ineq without inequalities")
    sim.check(np.max(np.abs(r)) <= 5e-3 * (1 + np.max(np.abs(x))), "verdict_solved", lambda: f"{what}: stationarity violated by {np.max(np.abs(r)):.3g}")
    err = float(s.l2_optimality_error(p, q, e, g))
    sim.check(err <= 2e-2 * (1 + np.max(np.abs(x))), "verdict_error", lambda: f"{what}: l2_optimality_error {err:.3g} at the solution")
    if how == "grad":
      # the active set in NumPy; near-degenerate ones are not judged
      rows = [E] if e is not None else []
      if g is not None:
        act, sl = lam > 0.03, h - G @ x
        if np.any((lam > 1e-3) & ~act) or np.any((sl < 0.03) & ~act):
          continue
        rows.append(G[act])
      Ah = np.concatenate(rows) if rows else np.zeros((0, N))
      if len(Ah) >= N or len(Ah) and np.linalg.cond(Ah) > 20:
        continue
      K = np.block([[Q, Ah.T], [Ah, np.zeros((len(Ah), len(Ah)))]])
      want = -np.linalg.solve(K, np.concatenate([np.asarray(w), np.zeros(len(Ah))]))[:N]
      sim.probe("derivative")
      sim.check(np.max(np.abs(np.asarray(dq) - want)) <= 0.05 * (1 + np.max(np.abs(want))), "derivative", lambda: f"{what}: d(w'x)/dc = {np.asarray(dq)}, the KKT system says {want}")


# ----------------------------------------------------------------------------------------------------------------- interpreted
def go_interpreted(job, run, ctx, sim):
  """jit=False: infeasible problems raise; the object is then used again."""
  cfg = job["cfg"]
  if "solver" not in ctx:
    if cfg["cls"] == "OSQP":
      ctx["solver"] = jaxopt.OSQP(tol=cfg["tol"], eq_qp_solve=cfg["eq_qp_solve"], jit=False, maxiter=120, check_primal_dual_infeasability=True)
    else:
      ctx["solver"] = make(cfg, jit=False, maxiter=120, implicit_diff=True)[0]
  s = ctx["solver"]
  for j, kind in enumerate(run["kinds"]):
    if cfg["cls"] == "OSQP":
      Q, c, e, g = osqp_data({"shape": "both"}, kind, run["data"] + j)
      args = jax.tree_util.tree_map(jnp.asarray, ((Q, c), e, g))
      data = None
      call = lambda args=args: s.run(None, *args)
    else:
      data = qp(kind, run["data"] + j)
      args = jax.tree_util.tree_map(jnp.asarray, forms(cfg["form"])[1](data))
      call = lambda args=args: s.run(start(s, cfg["form"], args), *args)
    try:
      p, st = call()
    except ValueError as e:
      msg = str(e)
      sim.fault("infeasible_exception")
      sim.probe("verdict")
      sim.log(kind, msg)
      sim.check("nfeasible" in msg, "unexpected_exception", msg)
      if "Primal" in msg:
        sim.check(kind == "P", "wrong_verdict", f"'{msg}' raised for class {kind}")
      else:
        sim.check(kind == "U", "wrong_verdict", f"'{msg}' raised for class {kind}")
      continue
    sim.steps += int(st.iter_num)
    status = int(st.status)
    sim.log(kind, status, int(st.iter_num))
    sim.check(status in (0, 1), "wrong_verdict", f"status {status} returned instead of an exception")
    if status == 1:
      sim.probe("verdict")
      sim.check(kind == "S", "wrong_verdict", f"class {kind} reported as solved")
      if data is not None:
        judge_solved(sim, data, *parts(p), cfg["tol"], "interpreted")
    else:
      sim.check(int(st.iter_num) >= 120, "wrong_verdict", f"unsolved after {int(st.iter_num)} iterations")


def go_eqqp(job, run, ctx, sim):
  cfg = job["cfg"]
  r = Rng("eqqp", run["data"]).np()
  B = r.randn(N, N)
  Q, c, E = B @ B.T / N + 0.3 * np.eye(N), r.randn(N), r.randn(2, N)
  b = r.randn(2)
  if "solver" not in ctx:
    o = {}
    if cfg["form"] == "mv":
      o = dict(matvec_Q=lambda P, x: P @ x, matvec_A=lambda P, x: P @ x)
    if cfg["refine"]:
      o.update(refine_regularization=1e-3, refine_maxiter=50)
    ctx["solver"] = jaxopt.EqualityConstrainedQP(tol=1e-8, maxiter=500, **o)
    ctx["run"] = jax.jit(lambda p, q, e: ctx["solver"].run(p, q, e))
  init = None
  if run["warm"]:
    sim.fault("warm_start")
    init = base.KKTSolution(primal=jnp.asarray(r.randn(N)), dual_eq=jnp.asarray(r.randn(2)), dual_ineq=None)
  p, _ = ctx["run"](init, (jnp.asarray(Q), jnp.asarray(c)), (jnp.asarray(E), jnp.asarray(b)))
  x, y = vec(p.primal), vec(p.dual_eq)
  sim.steps += 3
  sim.probe("verdict")
  sim.log(repr(x))
  tol = 1e-4 * (1 + np.max(np.abs(c)) + np.max(np.abs(b)) + np.max(np.abs(y)))
  sim.check(np.max(np.abs(E @ x - b)) <= tol, "kkt", lambda: f"equalities violated by {np.max(np.abs(E @ x - b))}")
  sim.check(np.max(np.abs(Q @ x + c + E.T @ y)) <= tol, "kkt", lambda: f"stationarity violated by {np.max(np.abs(Q @ x + c + E.T @ y))}")


def go_cdqp(job, run, ctx, sim):
  cfg = job["cfg"]
  if "solver" not in ctx:
    ctx["solver"] = jaxopt.BoxCDQP(tol=cfg["tol"], maxiter=cfg["maxiter"])
    ctx["run"] = jax.jit(lambda p, q, b: ctx["solver"].run(p, q, b))
  p = None
  for j in range(run["seq"]):
    r = Rng("cdqp", run["data"], j).np()
    n = 5
    B = r.randn(n, n)
    Q, c = B @ B.T / n + 0.3 * np.eye(n), r.randn(n)
    lo = np.where(r.rand(n) < 0.25, -np.inf, -r.rand(n))
    hi = np.where(r.rand(n) < 0.25, np.inf, np.maximum(lo, 0) + r.rand(n) * (r.rand(n) < 0.9))
    hi = np.maximum(lo, hi)
    if p is None:
      p = jnp.asarray(3 * r.randn(n))
    else:
      sim.fault("warm_start")
    p, st = ctx["run"](p, (jnp.asarray(Q), jnp.asarray(c)), (jnp.asarray(lo), jnp.asarray(hi)))
    x, err = np.asarray(p), float(st.error)
    sim.steps += int(st.iter_num)
    sim.log(repr(x), err)
    res = np.max(np.abs(x - np.clip(x - (Q @ x + c), lo, hi)))
    sim.check(np.all(x >= lo) and np.all(x <= hi), "verdict_solved", lambda: f"{x} outside of [{lo}, {hi}]")
    if err <= cfg["tol"]:
      sim.probe("verdict")
      # the error sums the moves of one sweep: the residual is at most a modest multiple of it
      sim.check(res <= 50 * cfg["tol"] + 1e-12, "verdict_solved", lambda: f"error {err} <= tol {cfg['tol']}, residual {res}")
    else:
      sim.check(int(st.iter_num) == cfg["maxiter"], "wrong_verdict", f"stopped after {int(st.iter_num)} sweeps with error {err} > {cfg['tol']}")
