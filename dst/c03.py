"""C03: interleaved, concurrent and nested solves never influence one another; caller objects are never modified.

Worlds: (steps) several clients share one solver object and a seeded scheduler decides who makes the next update, run or init_state;
(threads) clients are real threads inside eager solves, exactly one runs at a time and the scheduler may switch at every function
evaluation, with clients killed or fed NaN mid-solve; (jthreads) the same with compiled solves, switching inside host callbacks;
(contexts) one object used alternately plainly, under jit, vmap, grad; (nested) a solve inside the objective of another, on one object.
Oracle: each client's result equals the result of the same client alone on a fresh object; everything passed in is unchanged.
"""
import copy

import jax
import jax.numpy as jnp
import numpy as np
import jaxopt

from dst import catalog as C
from dst import common
from dst import problems as P
from dst import scipycat as S
from dst.core import Rng, HarnessError, SimFault, digest_tree, np_tree, tree_diff
from dst.sched import Scheduler

LEVEL = "exploration"
RULE = ("A case is one schedule of two to four clients (solves) over shared solver objects: kinds steps, threads, jthreads, contexts, nested, with seeded "
        "choice of who proceeds at every update or function evaluation, clients killed or fed a non-finite evaluation mid-solve. Non-trivial: at least two "
        "solves overlapped (at least one switch while both were unfinished, or one ran inside another, or a shared object changed context). "
        "Distinct: by the hash of the event log, which includes the schedule and digests of all results.")
REAL = ["every jaxopt iterative solver and SciPy wrapper, eager and compiled", "threads are real Python threads"]
STUB = ["the thread scheduler (one client runs at a time, switches at gates)", "objective functions carry a gate"]
ASSUMPTIONS = ["switch points are updates, function evaluations and host callbacks: pre-emption between two bytecodes is not simulated",
               "SciPy and the JAX runtime are re-entrant"]
JOB_TIMEOUT = 300


def gen_client(rr):
  return {"data": rr.getrandbits(30), "prog": rr.choice(["run", "loop"]), "k": rr.randrange(2, 4),
          "fault": rr.weighted([("none", 6), ("kill", 2), ("nan", 2)]), "at": rr.randrange(1, 14)}


def plan(seed, tier):
  jobs = []
  m = 1 if tier == "quick" else 12
  for name in common.ALL:
    t = C.REG[name]
    for ci in range(2 * m):
      rng = Rng("C03s", seed, name, ci)
      cfg = t.cfg(rng)
      runs = []
      for r in range(8 if tier == "quick" else 20):
        rr = Rng("C03srun", seed, name, ci, r)
        ops = [[rr.randrange(3), rr.weighted([("step", 8), ("run", 1), ("restart", 1)])] for _ in range(rr.randrange(10, 30))]
        runs.append({"datas": [rr.getrandbits(30) for _ in range(3)], "ops": ops, "numpy": rr.chance(0.5)})
      jobs.append({"kind": "steps", "template": name, "cfg": cfg, "runs": runs, "cost": 6})
    for ci in range(m):
      rng = Rng("C03t", seed, name, ci)
      cfg = t.cfg(rng)
      if "linesearch" in cfg:
        cfg.update(linesearch="backtracking", maxls=5)
      slow = name in common.EAGER_SLOW
      runs = []
      for r in range(2 if slow else 4):
        rr = Rng("C03trun", seed, name, ci, r)
        runs.append({"clients": [gen_client(rr) for _ in range(2 if slow else rr.choice([2, 3]))], "sched": rr.getrandbits(30),
                     "stick": rr.choice([0.0, 0.5, 0.85]), "shared": rr.chance(0.75)})
      jobs.append({"kind": "threads", "template": name, "cfg": cfg, "runs": runs, "cost": 25 if slow else 8})
    for ci in range(m):
      rng = Rng("C03c", seed, name, ci)
      cfg = t.cfg(rng)
      runs = []
      for r in range(2 if tier == "quick" else 4):
        rr = Rng("C03crun", seed, name, ci, r)
        pool = ["plain", "jit", "vmap", "grad", "step", "jitstep"]
        if name == "Bisection":
          pool = ["plain", "step", "jitstep"]
        runs.append({"data": rr.getrandbits(30), "ops": [rr.choice(pool) for _ in range(6)]})
      jobs.append({"kind": "contexts", "template": name, "cfg": cfg, "runs": runs, "cost": 15})
  for name in S.SCI:
    for ci in range(3 * m):
      rng = Rng("C03sc", seed, name, ci)
      cfg = S.SCI[name].cfg(rng)
      runs = []
      for r in range(3 if tier == "quick" else 8):
        rr = Rng("C03scrun", seed, name, ci, r)
        cl = [gen_client(rr) for _ in range(rr.choice([2, 3]))]
        runs.append({"clients": cl, "sched": rr.getrandbits(30), "stick": rr.choice([0.0, 0.5, 0.85]), "shared": rr.chance(0.4)})
      jobs.append({"kind": "scithreads", "template": name, "cfg": cfg, "runs": runs, "cost": 8})
  for name in ("GradientDescent", "LBFGS", "BFGS", "NonlinearCG", "ScipyMinimize"):
    for ci in range(2 * m):
      rng = Rng("C03n", seed, name, ci)
      runs = []
      jit = rng.chance(0.6)
      for r in range(2):
        rr = Rng("C03nrun", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30)})
      cfg = {"jit": jit, "ls": "backtracking", "same": rng.chance(0.7)}
      jobs.append({"kind": "nested", "template": name, "cfg": cfg, "runs": runs, "cost": 20})
  for name in ("GradientDescent", "LBFGS", "BFGS", "NonlinearCG", "ProximalGradient", "LBFGSB", "ArmijoSGD"):
    for ci in range(m):
      rng = Rng("C03j", seed, name, ci)
      cfg = C.REG[name].cfg(rng)
      cfg.update(fam=rng.choice(["lsq", "logcosh"]), pt="flat", aux=False, vg="no")
      if "linesearch" in cfg:
        cfg.update(linesearch=rng.choice(["backtracking", "zoom"]), maxls=5)
      runs = []
      for r in range(3):
        rr = Rng("C03jrun", seed, name, ci, r)
        runs.append({"datas": [rr.getrandbits(30) for _ in range(2)], "sched": rr.getrandbits(30), "stick": rr.choice([0.0, 0.5])})
      jobs.append({"kind": "jthreads", "template": name, "cfg": cfg, "runs": runs, "cost": 10})
  for j in jobs:
    j["x64"] = True
  return jobs


def shrink(job, run):
  if "ops" in run:
    for ops in common.ddmin_ops(run["ops"]):
      yield dict(run, ops=ops)
  if "clients" in run:
    cl = run["clients"]
    for i in range(len(cl)):
      if len(cl) > 2:
        yield dict(run, clients=cl[:i] + cl[i + 1:])
    for i, c in enumerate(cl):
      if c["fault"] != "none":
        yield dict(run, clients=cl[:i] + [dict(c, fault="none")] + cl[i + 1:])
      if c["k"] > 1:
        yield dict(run, clients=cl[:i] + [dict(c, k=c["k"] - 1)] + cl[i + 1:])


def nontrivial(r):
  return r["probes"].get("switch", 0) > 0 or r["probes"].get("nest", 0) > 0 or r["probes"].get("context", 0) > 1


def as_numpy(prob):
  """The caller's objects as writable numpy arrays."""
  f = lambda x: np.array(x) if hasattr(x, "shape") else x
  return prob._replace(init=jax.tree_util.tree_map(f, prob.init), args=jax.tree_util.tree_map(f, prob.args),
                       kwargs=jax.tree_util.tree_map(f, prob.kwargs))


def snapshot(prob):
  return copy.deepcopy(np_tree((prob.init, prob.args, prob.kwargs)))


def unchanged(sim, prob, snap):
  d = tree_diff(snap, np_tree((prob.init, prob.args, prob.kwargs)), dtypes=True)
  sim.check(d is None, "caller_object_modified", lambda: d)


def call_run(name, solver, prob, **kw):
  if prob.init is None and name == "BoxOSQP":
    return solver.run(None, *prob.args, **prob.kwargs)
  return solver.run(prob.init, *prob.args, **prob.kwargs)


# ------------------------------------------------------------------------------------------------------------ steps
def do_steps(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  t = C.REG[name]
  if "shared" not in ctx:
    ctx["shared"] = t.make(cfg, maxiter=4, tol=1e-9)
    ctx["solo"] = [t.make(cfg, maxiter=4, tol=1e-9) for _ in range(3)]
  probs = [C.problem(name, cfg, d, 0) for d in run["datas"]]
  if run["numpy"]:
    probs = [as_numpy(p) for p in probs]
  snaps = [snapshot(p) for p in probs]
  # Alone, one client after the other, each on its own object.
  want = []
  for i in range(3):
    p, s = t.start(ctx["solo"][i], probs[i])
    tr = []
    for who, op in run["ops"]:
      if who != i:
        continue
      if op == "step":
        p, s = common.step(ctx["solo"][i], p, s, probs[i])
      elif op == "restart":
        p, s = t.start(ctx["solo"][i], probs[i])
      else:
        tr.append(np_tree(call_run(name, ctx["solo"][i], probs[i])))
        continue
      tr.append(np_tree((p, s)))
    want.append(tr)
  sh = ctx["shared"]
  cur = [t.start(sh, pr) for pr in probs]
  held = []
  pos = [0, 0, 0]
  last = None
  for who, op in run["ops"]:
    p, s = cur[who]
    if op == "step":
      held.append(((p, s), copy.deepcopy(np_tree((p, s)))))
      r = common.step(sh, p, s, probs[who])
      cur[who] = tuple(r)
      sim.steps += 1
    elif op == "restart":
      r = t.start(sh, probs[who])
      cur[who] = r
    else:
      r = call_run(name, sh, probs[who])
    if last is not None and last != who:
      sim.probe("switch")
    last = who
    w = want[who][pos[who]]
    pos[who] += 1
    r = tuple(r)
    w = tuple(w)
    sim.log(who, op, digest_tree(r))
    d = tree_diff(w, r)
    if d is not None:
      sim.probe("inexact")
      d = tree_diff(w, r, 1e-7, 1e-9)
    sim.check(d is None, "interference", lambda: f"client {who}, operation {pos[who]} ({op}) differs from the same client alone: {d}")
  for pair, snap in held[-4:]:
    d = tree_diff(snap, np_tree(pair))
    sim.check(d is None, "saved_state_modified", lambda: d)
  for p, s in zip(probs, snaps):
    unchanged(sim, p, s)


# ---------------------------------------------------------------------------------------------------------- threads
class Tap:
  """Counts evaluations per client, parks, kills or corrupts."""

  def __init__(self, sched, specs):
    self.sched = sched
    self.specs = specs
    self.count = [0] * len(specs)
    self.solo = None

  def __call__(self, out):
    if self.solo is not None:
      i = self.solo
    else:
      c = self.sched.current
      if c is None:
        return out
      i = c.idx
      self.sched.gate()
    self.count[i] += 1
    sp = self.specs[i]
    if self.count[i] == sp["at"]:
      if sp["fault"] == "kill":
        raise SimFault(f"client {i}")
      if sp["fault"] == "nan":
        return jax.tree_util.tree_map(lambda x: x * jnp.nan, out)
    return out


def client_prog(t, name, solver, prob, sp, gate):
  def fn(_=None):
    gate()
    if sp["prog"] == "run" or not hasattr(solver, "update"):
      return np_tree(tuple(call_run(name, solver, prob)))
    p, s = t.start(solver, prob)
    out = [np_tree((p, s))]
    for _ in range(sp["k"]):
      gate()
      p, s = common.step(solver, p, s, prob)
      out.append(np_tree((p, s)))
    return out
  return fn


def do_threads(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  sci = job["kind"] == "scithreads"
  t = S.SCI[name] if sci else C.REG[name]
  specs = run["clients"]
  n = len(specs)
  if sci:
    opts = t.options(cfg)
    if run["shared"]:
      one = t.make(cfg, options=copy.deepcopy(opts), jit=False)
      solvers = [one] * n
    else:
      solvers = [t.make(cfg, options=opts, jit=False) for _ in range(n)]  # several objects, one options dictionary
    solo = [t.make(cfg, options=copy.deepcopy(t.options(cfg)), jit=False) for _ in range(n)]
    d = compare_options(opts, t.options(cfg))
    sim.check(d is None, "caller_object_modified", lambda: f"options: {d}")
    probs = [t.problem(Rng("C03p", sp["data"]), cfg) for sp in specs]
  else:
    kmax = max(sp["k"] for sp in specs)
    mk = lambda: t.make(cfg, jit=False, implicit_diff=False, maxiter=kmax, tol=1e-9)
    solvers = [mk()] * n if run["shared"] else [mk() for _ in range(n)]
    solo = [mk() for _ in range(n)]
    probs = [C.problem(name, cfg, sp["data"], 0) for sp in specs]
  probs = [as_numpy(p) if i % 2 else p for i, p in enumerate(probs)]
  snaps = [snapshot(p) for p in probs]
  sched = Scheduler(Rng("C03sched", run["sched"]), sim, stick=run["stick"])
  tap = Tap(sched, specs)
  P.TAP[0] = tap
  try:
    want = []
    for i in range(n):
      tap.solo = i
      try:
        want.append(("ok", client_prog(t, name, solo[i], probs[i], specs[i], lambda: None)()))
      except Exception as e:  # pylint: disable=broad-except
        want.append(("exc", type(e), e))
    tap.solo = None
    tap.count = [0] * n
    for i in range(n):
      sched.spawn(client_prog(t, name, solvers[i], probs[i], specs[i], sched.gate))
    sched.run()
  finally:
    P.TAP[0] = None
  sim.probe("switch", sched.switches)
  sim.evals += sum(tap.count)
  for i, c in enumerate(sched.clients):
    w = want[i]
    if specs[i]["fault"] != "none" and tap.count[i] >= specs[i]["at"]:
      sim.fault("client_" + specs[i]["fault"])
    if w[0] == "exc":
      if not isinstance(w[2], SimFault) and c.error is not None and type(c.error) is w[1]:
        continue  # fails alone in the same way
      sim.check(isinstance(c.error, w[1]), "interference", lambda: f"client {i} alone raised {w[1].__name__}, together: {c.error!r}")
      sim.log(i, "exc")
      continue
    if c.error is not None:
      sim.check(False, "interference", f"client {i} raised {c.error!r} only when run together with others")
    sim.log(i, digest_tree(c.result))
    d = tree_diff(w[1], c.result)
    sim.check(d is None, "interference", lambda: f"client {i} ({specs[i]['prog']}) differs from the same client alone: {d}")
  for p, s in zip(probs, snaps):
    unchanged(sim, p, s)
  if sci:
    d = compare_options(opts, t.options(cfg))
    sim.check(d is None, "caller_object_modified", lambda: f"options: {d}")


def compare_options(a, b):
  if a is None or b is None:
    return None if a is b else f"{a} vs {b}"
  if set(a) != set(b):
    return f"keys {sorted(set(a) ^ set(b))} added or removed"
  for k in a:
    if not np.array_equal(np.asarray(a[k]), np.asarray(b[k])):
      return f"{k}: {a[k]} vs {b[k]}"
  return None


# --------------------------------------------------------------------------------------------------------- contexts
def do_contexts(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  t = C.REG[name]
  mk = lambda: t.make(cfg, maxiter=4, tol=1e-9)
  if "shared" not in ctx:
    ctx["shared"] = mk()
    ctx["fresh"] = {}
  probs = [C.problem(name, cfg, run["data"], j) for j in range(2)]

  def fl(x):
    return sum(jnp.sum(l) for l in jax.tree_util.tree_leaves(x.params if hasattr(x, "params") else x))

  def apply(solver, op, pr):
    init = pr.init
    if op == "plain":
      return solver.run(init, *pr.args, **pr.kwargs)
    if op == "jit":
      return jax.jit(solver.run)(init, *pr.args, **pr.kwargs)
    if op == "vmap":
      # Both problems in one batch.
      st = jax.tree_util.tree_map(lambda a, b: jnp.stack([a, b]), (probs[0].init, probs[0].args, probs[0].kwargs),
                                  (probs[1].init, probs[1].args, probs[1].kwargs))
      return jax.vmap(lambda q: solver.run(q[0], *q[1], **q[2]))(st)
    if op == "grad":
      return jax.grad(lambda a: fl(solver.run(init, *a, **pr.kwargs)))(pr.args)
    p, s = t.start(solver, pr)
    if op == "step":
      return solver.update(p, s, *pr.args, **pr.kwargs)
    return jax.jit(lambda p, s, a, k: solver.update(p, s, *a, **k))(p, s, pr.args, pr.kwargs)

  kinds = {}
  for k, op in enumerate(run["ops"]):
    pr = probs[k % 2]
    if op == "grad" and any(np.asarray(l).dtype.kind != "f" for l in jax.tree_util.tree_leaves(pr.args)):
      op = "plain"
    if op not in ctx["fresh"]:
      ctx["fresh"][op] = mk()
    fresh = ctx["fresh"][op]
    try:
      w = apply(fresh, op, pr)
    except Exception as e:  # pylint: disable=broad-except
      if op != "grad":
        raise
      # Not differentiable: must fail in the same way.
      try:
        apply(ctx["shared"], op, pr)
      except Exception as e2:  # pylint: disable=broad-except
        sim.check(type(e) is type(e2), "interference", lambda: f"{op}: {e!r} on a fresh object, {e2!r} on the shared one")
        continue
      sim.check(False, "interference", f"{op} fails on a fresh object only: {e!r}")
    r = apply(ctx["shared"], op, pr)
    sim.log(op, digest_tree(r))
    sim.probe("context")
    sim.probe("context_" + op)
    d = tree_diff(w, r, 1e-7, 1e-9)
    sim.check(d is None, "interference", lambda: f"operation {k} ({op}) on the shared object differs from a fresh one: {d}")


# ----------------------------------------------------------------------------------------------------------- nested
def do_nested(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  rng = Rng("C03nest", run["data"])
  X, y = C.J(P.gen_data(rng, m=8, n=3, cond=3.0))
  x0 = jnp.asarray(rng.np().randn(3))
  z0 = jnp.asarray(rng.np().randn(3))
  if name == "ScipyMinimize":
    opts = {"disp": False}
    want_opts = dict(opts)
    solvers = {}
    vals = []

    def fun(p, l2, lvl):
      base = 0.5 * jnp.sum((X @ p - y) ** 2) / 8 + 0.5 * l2 * jnp.sum(p * p)
      g = X.T @ (X @ p - y) / 8 + l2 * p
      if lvl == 0:
        q, info = solvers["inner"].run(z0, 0.5 + 0.1 * float(jnp.sum(p * p)), 1)
        vals.append(np_tree(q))
        base = base + 0.0 * jnp.sum(q)
      return base, g
    mk = lambda o: jaxopt.ScipyMinimize(fun=fun, method="BFGS", value_and_grad=True, jit=False, options=o, maxiter=20)
    solvers["inner"] = mk(dict(want_opts))
    a = mk(dict(want_opts))
    w = np_tree(tuple(a.run(x0, 0.2, 0)))
    wv = list(vals)
    vals.clear()
    outer = mk(opts)
    solvers["inner"] = outer if cfg["same"] else mk(opts)
    r = np_tree(tuple(outer.run(x0, 0.2, 0)))
    sim.probe("nest", len(vals))
    sim.log(digest_tree(r), len(vals))
    d = tree_diff((w, wv), (r, vals))
    sim.check(d is None, "interference", lambda: f"nested SciPy solve: {d}")
    sim.check(opts == want_opts, "caller_object_modified", lambda: f"options {opts}")
    return
  box = ctx.setdefault("box", {})

  def fun(p, l2, lvl):
    out = 0.5 * jnp.sum((X2[0] @ p - X2[1]) ** 2) / 8 + 0.5 * l2 * jnp.sum(p * p)
    if lvl:
      q = box["inner"].run(lvl[0], 0.5 + 0.1 * jnp.sum(p * p), ()).params
      out = out + 0.05 * jnp.sum((p - q) ** 2)
    return out
  X2 = (X, y)
  k = dict(maxiter=3, tol=1e-9, jit=cfg["jit"])
  if name != "GradientDescent":
    k.update(linesearch=cfg["ls"], maxls=6)
  else:
    k.update(maxls=6)
  mk = lambda: getattr(jaxopt, name)(fun, **k)
  box["inner"] = mk()
  w = np_tree(tuple(mk().run(x0, 0.2, (z0,))))
  outer = mk()
  box["inner"] = outer if cfg["same"] else mk()
  i1 = np_tree(tuple(outer.run(z0, 0.7, ())))  # an unrelated solve before
  r = np_tree(tuple(outer.run(x0, 0.2, (z0,))))
  i2 = np_tree(tuple(outer.run(z0, 0.7, ())))
  sim.probe("nest")
  sim.log(digest_tree(r))
  d = tree_diff(w, r, 1e-9, 1e-11)
  sim.check(d is None, "interference", lambda: f"nested solve on one object differs from two objects: {d}")
  d = tree_diff(i1, i2, 1e-9, 1e-11)
  sim.check(d is None, "interference", lambda: f"the same solve before and after a nested solve: {d}")


# --------------------------------------------------------------------------------------------------------- jthreads
def make_host_tap():
  box = {"hook": None}

  def host(x):
    h = box["hook"]
    if h is not None:
      h()
    return np.asarray(x)

  @jax.custom_jvp
  def tap(x):
    return jax.pure_callback(host, jax.ShapeDtypeStruct(x.shape, x.dtype), x)

  @tap.defjvp
  def _(p, t):
    return tap(p[0]), t[0]
  return tap, box


def do_jthreads(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  t = C.REG[name]
  if "tap" not in ctx:
    ctx["tap"], ctx["box"] = make_host_tap()
    P.TAP[0] = ctx["tap"]
    try:
      ctx["shared"] = t.make(cfg, maxiter=3, tol=1e-9)
      ctx["solo"] = t.make(cfg, maxiter=3, tol=1e-9)
    finally:
      P.TAP[0] = None
  P.TAP[0] = ctx["tap"]
  try:
    probs = [C.problem(name, cfg, d, 0) for d in run["datas"]]
    want = []
    for p in probs:
      want.append(np_tree(tuple(call_run(name, ctx["solo"], p))))
      np_tree(tuple(call_run(name, ctx["shared"], p)))  # compiles everything outside of the gates
    sched = Scheduler(Rng("C03sched", run["sched"]), sim, stick=run["stick"], timeout=40)
    ctx["box"]["hook"] = sched.gate
    for p in probs:
      sched.spawn(lambda c, p=p: np_tree(tuple(call_run(name, ctx["shared"], p))))
    try:
      sched.run()
    except HarnessError:
      sim.probe("runtime_lock")  # the XLA runtime serialised two programs: no verdict
      return
    finally:
      ctx["box"]["hook"] = None
  finally:
    P.TAP[0] = None
  sim.probe("switch", sched.switches)
  for i, c in enumerate(sched.clients):
    if c.error is not None:
      sim.check(False, "interference", f"client {i} raised {c.error!r}")
    sim.evals += c.gates
    sim.log(i, digest_tree(c.result))
    d = tree_diff(want[i], c.result, 1e-9, 1e-12)
    sim.check(d is None, "interference", lambda: f"client {i} differs from the same client alone: {d}")


def execute(job, run, ctx, sim):
  {"steps": do_steps, "threads": do_threads, "scithreads": do_threads, "contexts": do_contexts, "nested": do_nested,
   "jthreads": do_jthreads}[job["kind"]](job, run, ctx, sim)
