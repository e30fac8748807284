"""C04: mini-batch streams are consumed in order, each batch exactly once.

World: the simulator is the data source. A seeded source yields batches (clean, corrupted, of another size, overflowing), ends early, or raises
at any draw; it records every draw. Reference: the simulator's own loop over the same batches with update, with the pre_update hook
applied by the simulator instead of the solver.
"""
import itertools

import jax
import jax.numpy as jnp
import numpy as np

from dst import catalog as C
from dst import common
from dst import problems as P
from dst.core import Rng, SimFault, digest_tree, np_tree, tree_diff

LEVEL = "exploration"
RULE = ("A case is one stream: template and options, maxiter, stream length, position and kind of faults (exception at a draw, early end, NaN or overflowing batch, "
        "batch of another size), hook or not, iterator kind, all from the seed. Non-trivial: at least two batches were drawn. Distinct: by the hash of the event "
        "log with every draw and digests of the results.")
REAL = ["run_iterator, init_state and update of PolyakSGD, ArmijoSGD, OptaxSolver, compiled and eager"]
STUB = ["the data source", "pre_update hooks written by the simulator"]
ASSUMPTIONS = ["batches are not mutated by the source after they were yielded"]
NAMES = ("PolyakSGD", "ArmijoSGD", "OptaxSolver")


def plan(seed, tier):
  jobs = []
  ncfg, nruns = (24, 24) if tier == "quick" else (120, 60)
  for name in NAMES:
    for ci in range(ncfg):
      rng = Rng("C04", seed, name, ci)
      cfg = C.REG[name].cfg(rng)
      eager = ci % 4 == 3
      hook = rng.weighted([("none", 2), ("params", 2), ("state", 2), ("data", 2), ("count", 3 if eager else 0)])
      runs = []
      maxiter = rng.choice([1, 2, 3, 7])
      if eager:
        maxiter = min(maxiter, 3)
      for r in range(5 if eager else nruns):
        rr = Rng("C04run", seed, name, ci, r)
        L = rr.choice([0, 1, 2, maxiter, maxiter + 1, maxiter + 2, maxiter + 5, rr.randrange(0, 10)])
        end = rr.weighted([("stop", 5), ("raise", 3), ("forever", 1)])
        bad = {}
        for i in range(L):
          if rr.chance(0.15):
            bad[str(i)] = rr.choice(["nan", "huge", "short"])
        runs.append({"data": rr.getrandbits(30), "L": L, "end": end, "bad": bad, "kind": rr.choice(["gen", "class", "iter", "map"]),
                     "resume": rr.chance(0.6), "fixed": rr.chance(0.25)})
      jobs.append({"template": name, "cfg": cfg, "x64": rng.chance(0.8), "eager": eager, "hook": hook, "maxiter": maxiter,
                   "tol": rng.choice([1e-12, 1e-3, 1e9]), "runs": runs, "cost": 8 if eager else 5})
  return jobs


def shrink(job, run):
  if run["bad"]:
    yield dict(run, bad={})
  if run["L"] > 0:
    yield dict(run, L=run["L"] - 1)
  if run["resume"]:
    yield dict(run, resume=False)


def nontrivial(r):
  return r["probes"].get("draw", 0) >= 2


class Source:
  """A data source that records what is drawn."""

  def __init__(self, sim, batches, end):
    self.sim, self.batches, self.end = sim, batches, end
    self.n = 0
    self.after = 0
    self.closed = False

  def __iter__(self):
    return self

  def __next__(self):
    i = self.n
    self.sim.log("draw", i)
    self.sim.probe("draw")
    if self.closed:
      self.after += 1
    if i >= len(self.batches):
      self.closed = True
      if self.end == "raise":
        self.sim.fault("stream_raises")
        raise SimFault(f"stream broke at draw {i}")
      raise StopIteration
    self.n += 1
    return self.batches[i]


def as_iterator(src, kind):
  if kind == "class":
    return src
  if kind == "gen":
    return (b for b in src)
  if kind == "map":
    return map(lambda b: b, src)
  return iter(src)


def hook_fun(kind, name, log):
  """pre_update hooks as pure functions of (params, state, args, data)."""
  if kind == "none":
    return None

  def hook(params, state, *args, **kw):
    data = kw["data"]
    if kind in ("params", "count"):
      params = jax.tree_util.tree_map(lambda x: x * 0.9 + 0.01, params)
    elif kind == "data":
      m = jnp.mean(data[1]) + 0.1 * args[0]
      params = jax.tree_util.tree_map(lambda x: (x - 0.05 * m).astype(x.dtype), params)
    elif kind == "state":
      if name == "ArmijoSGD":
        state = state._replace(stepsize=state.stepsize * 0.7)
      elif name == "PolyakSGD":
        params = jax.tree_util.tree_map(lambda x: x * (1.0 - 0.1 / (1.0 + state.iter_num)).astype(x.dtype), params)
      else:
        params = jax.tree_util.tree_map(lambda x: x * (1.0 - 0.1 / (1.0 + state.iter_num)).astype(x.dtype), params)
    if kind == "count" and log is not None:
      log.append((np_tree(params), np_tree(state), float(np.sum(np.asarray(data[1])))))
    return params, state
  return hook


def fixed_data(job, run, ctx, sim, t, base, args):
  """run on one batch: the hook is applied before each of its updates."""
  hook, plain = ctx["hook"], ctx["plain"]
  data = base.kwargs["data"]
  if not job["x64"]:
    data = jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), data)
  out = ctx["solver"].run(base.init, *args, data=data)
  p, s = base.init, plain.init_state(base.init, *args, data=data)
  errs = []
  for _ in range(job["maxiter"]):
    if hook is not None:
      p, s = hook(p, s, *args, data=data)
    p, s = plain.update(p, s, *args, data=data)
    errs.append(float(s.error))
    sim.steps += 1
    sim.probe("draw")
    if not errs[-1] > job["tol"]:
      break
  sim.log("fixed", digest_tree(out.params))
  if any(abs(e - job["tol"]) <= 1e-4 * job["tol"] for e in errs):
    return
  rt, at = (1e-6, 1e-9) if job["x64"] else (1e-3, 1e-5)
  d = common.loose_diff((p, s), (out.params, out.state), rt, at)
  sim.check(d is None, "run_with_hook", lambda: f"maxiter={job['maxiter']} hook={job['hook']}: {d}")


def execute(job, run, ctx, sim):
  name, cfg, x64 = job["template"], job["cfg"], job["x64"]
  t = C.REG[name]
  maxiter = job["maxiter"]
  if "solver" not in ctx:
    mode = dict(jit=not job["eager"])
    ctx["log"] = []
    ctx["solver"] = t.make(cfg, maxiter=maxiter, tol=job["tol"], pre_update=hook_fun(job["hook"], name, ctx["log"]), **mode)
    ctx["plain"] = t.make(cfg, maxiter=maxiter, tol=job["tol"], **mode)
    h = hook_fun(job["hook"], name, None)
    ctx["hook"] = h if h is None or job["eager"] else jax.jit(h)
  solver, plain, hook, log = ctx["solver"], ctx["plain"], ctx["hook"], ctx["log"]
  del log[:]
  rng = Rng("C04data", run["data"])
  base = C.problem(name, cfg, run["data"], 0)
  args = base.args
  if not x64:
    args = jax.tree_util.tree_map(lambda x: jnp.asarray(x, jnp.float32), args)
  nb = run["L"] if run["end"] != "forever" else maxiter + 40
  w = np.asarray(rng.np().randn(t.n))
  batches = []
  for i in range(nb):
    X, y = P.gen_data(rng, m=6, n=t.n, cond=4.0)
    y = X @ w + 0.2 * y
    k = run["bad"].get(str(i))
    if k == "nan":
      X[rng.randrange(6), rng.randrange(t.n)] = np.nan
    elif k == "huge":
      X = X * (1e160 if x64 else 1e25)
    elif k == "short":
      X, y = X[:4], y[:4]
    if k and (run["end"] == "forever" or i < run["L"]):
      sim.fault("batch_" + k)
    batches.append((X, y) if rng.chance(0.5) else (jnp.asarray(X), jnp.asarray(y)))
  src = Source(sim, batches, "raise" if run["end"] == "raise" else "stop")
  snap = np_tree(base.init)
  if run["fixed"]:
    return fixed_data(job, run, ctx, sim, t, base, args)
  exc = out = None
  try:
    out = solver.run_iterator(base.init, as_iterator(src, run["kind"]), *args)
  except (SimFault, StopIteration) as e:
    exc = e
  except RuntimeError as e:  # a StopIteration inside a generator expression surfaces as RuntimeError only if the code lets it
    exc = e
  sim.check(tree_diff(snap, np_tree(base.init)) is None, "caller_object_modified", "init_params changed")
  L = len(batches)
  want_draws = min(L, maxiter + 1)
  # -- how the stream was consumed
  sim.check(src.n <= maxiter + 1, "overdraw", lambda: f"{src.n} batches drawn with maxiter={maxiter}")
  broke = L < maxiter + 1
  sim.check(src.n == want_draws, "draws", lambda: f"{src.n} batches drawn, expected {want_draws} (L={L}, maxiter={maxiter})")
  sim.check(src.after == 0, "draw_after_end", lambda: f"{src.after} draws after the stream had ended or raised")
  if broke and run["end"] == "raise":
    sim.check(isinstance(exc, SimFault), "exception_lost", lambda: f"stream raised at draw {L}, caller got {exc!r} and {type(out)}")
  elif L == 0:
    sim.check(isinstance(exc, StopIteration), "empty_stream", lambda: f"empty stream: {exc!r}, {type(out)}")
    return
  else:
    sim.check(exc is None, "unexpected_exception", lambda: repr(exc))
    if broke:
      sim.fault("early_end")

  # -- the same batches, one by one
  hooked = []

  def manual(p, s, bs):
    for b in bs:
      if hook is not None:
        p, s = hook(p, s, *args, data=b)
        hooked.append((p, s, b))
      p, s = plain.update(p, s, *args, data=b)
      sim.steps += 1
    return p, s
  if L:
    p, s = base.init, plain.init_state(base.init, *args, data=batches[0])
    p, s = manual(p, s, batches[1:want_draws])
    n_up = want_draws - 1
    rt, at = (1e-9, 1e-12) if job["hook"] == "none" else ((1e-6, 1e-9) if x64 else (1e-3, 1e-5))

    def compare(what, a, b):
      d = tree_diff(a, b, rt, at)
      if d is not None and not all(np.all(np.isfinite(np.asarray(l))) for l in jax.tree_util.tree_leaves(a)):
        d = common.loose_diff(a, b, rt, at)
        if d is not None and any(v == "huge" for v in run["bad"].values()):
          return
      sim.check(d is None, what, lambda: f"L={L} maxiter={maxiter} hook={job['hook']}: {d}")
    if exc is None:
      sim.log("result", digest_tree(out.params))
      sim.check(int(np.asarray(out.state.iter_num)) == n_up, "updates", lambda: f"iter_num={int(out.state.iter_num)} after {n_up} batches")
      compare("result", (p, s), (out.params, out.state))
    if job["hook"] == "count":
      sim.check(len(log) == n_up, "hook_count", lambda: f"hook ran {len(log)} times for {n_up} updates")
      for k, ((hp, hs, hsum), (rp, rs, b)) in enumerate(zip(log, hooked)):
        sim.check(hsum == float(np.sum(np.asarray(b[1]))), "hook_batch", lambda: f"hook {k} saw another batch than its update")
        compare("hook_params", (rp, rs), (hp, hs))
    if exc is not None and run["resume"]:
      # The client kept (params, state) after its own loop over the part that was delivered; the rest arrives later.
      rest = []
      for _ in range(maxiter - n_up):
        X, y = P.gen_data(rng, m=6, n=t.n, cond=4.0)
        rest.append((X, y))
      sim.fault("resume_after_stream_error")
      q, u = common.load(common.save((p, s)))
      q, u = manual(q, u, rest)
      src2 = Source(sim, batches + rest, "stop")
      out2 = solver.run_iterator(base.init, as_iterator(src2, run["kind"]), *args)
      sim.log("resumed", digest_tree(out2.params))
      compare("resume", (q, u), (out2.params, out2.state))
  # -- the batch after the last one used is still there for the caller
  if exc is None and not broke and L > maxiter + 1:
    it = src
    nxt = next(it)
    sim.check(nxt is batches[maxiter + 1], "overdraw", "the next batch of the stream was consumed or skipped")
