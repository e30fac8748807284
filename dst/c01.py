"""C01: crash, restart and rollback at arbitrary steps; (params, state) is the only durable thing.

World: one client steps a solver. The simulator decides after every step whether the process is lost, which saved pair
survives (the latest or an older one), and which incarnation of the solver continues: another object of the same
configuration, possibly one that has just been serving a different problem. Reference: the same steps uninterrupted on one object.
"""
import jax
import jax.numpy as jnp
import numpy as np
from jaxopt import OptStep

from dst import catalog as C
from dst import common
from dst.core import Rng, Violation, flat, tree_diff, digest_tree

LEVEL = "exploration"
RULE = ("A case is one history of a solver: template, configuration and data drawn from the seed, then a schedule of steps, process losses, "
        "rollbacks to older saved pairs, hand-overs to other solver objects (clean, dirty from serving another problem, or brand new), data changes and warm "
        "restarts through run/init_state. Non-trivial: at least two steps and at least one loss, rollback, hand-over or warm restart actually "
        "happened. Distinct: by the hash of the whole event log including digests of every iterate.")
REAL = ["every jaxopt iterative solver (jitted and eager), line searches, loops"]
STUB = ["the process: a crash drops the solver object and keeps a pickled copy of (params, state)", "objective data streams drawn by the simulator"]
ASSUMPTIONS = ["a restart uses the same code, configuration and x64 setting; objective functions are deterministic"]
WARM = ("LBFGS", "LBFGSB", "Broyden")


def gen_ops(rng, name, jit, K):
  ops = []
  p_crash = rng.choice([0.1, 0.25, 0.5])
  kinds = [("crash", 3), ("rollback", 2), ("dirty", 3)] + ([("fresh", 0.3)] if jit else [("fresh", 2)])
  if name in WARM:
    kinds.append(("warm", 2))
  if rng.chance(0.15):
    ops.append(["runto", 3])
  n = rng.randrange(3, K)
  for _ in range(n):
    ops.append(["step"])
    if rng.chance(p_crash):
      k = rng.weighted(kinds)
      if k == "crash":
        ops.append(["crash", rng.randrange(1, 4)])
      elif k == "rollback":
        ops.append(["rollback", rng.randrange(1, 6), rng.randrange(1, 4)])
      elif k == "dirty":
        ops.append(["dirty", rng.randrange(1, 4), rng.randrange(1, 4)])
      elif k == "fresh":
        ops.append(["fresh"])
      else:
        ops.append(["warm", rng.randrange(1, 4)])
  if not any(o[0] not in ("step",) for o in ops):
    ops.insert(rng.randrange(1, len(ops) + 1), ["crash", 1])
  return ops


def plan(seed, tier):
  jobs = []
  ncfg, nruns = (5, 10) if tier == "quick" else (60, 30)
  for name in common.ALL:
    for ci in range(ncfg):
      rng = Rng("C01", seed, name, ci)
      cfg = C.REG[name].cfg(rng)
      f32 = ci % 5 == 4
      runs = []
      for r in range(nruns):
        rr = Rng("C01run", seed, name, ci, r)
        ops = gen_ops(rr, name, True, 28)
        runs.append({"data": rr.getrandbits(30), "nd": rr.choice([1, 1, 3]), "ops": ops})
      jobs.append({"template": name, "cfg": cfg, "x64": not f32, "jit": True, "runs": runs, "cost": 3})
    for ci in range(1 if tier == "quick" else 12):
      rng = Rng("C01e", seed, name, ci)
      cfg = C.REG[name].cfg(rng)
      if "linesearch" in cfg:
        cfg.update(linesearch="backtracking", maxls=min(cfg["maxls"], 8))
      slow = name in common.EAGER_SLOW
      runs = []
      for r in range(2 if slow else 5):
        rr = Rng("C01erun", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30), "nd": rr.choice([1, 3]), "ops": gen_ops(rr, name, False, 7 if slow else 12)})
      jobs.append({"template": name, "cfg": cfg, "x64": True, "jit": False, "runs": runs, "cost": 12 if slow else 4})
  return jobs


def shrink(job, run):
  for ops in common.ddmin_ops(run["ops"]):
    yield dict(run, ops=ops)
  if run["nd"] > 1:
    yield dict(run, nd=1)


def nontrivial(r):
  return r["steps"] >= 2 and sum(r["faults"].values()) >= 1


def cast32(tree):
  return jax.tree_util.tree_map(lambda x: x, tree)


def execute(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  t = C.REG[name]
  jit = job["jit"]
  tol = -1.0  # never stop early: a run is compared with a fixed number of updates
  if "pool" not in ctx:
    ctx["pool"] = common.Pool(t, cfg, jit=jit, tol=tol)
  pool = ctx["pool"]
  nd = run["nd"] if t.data_each_step else 1
  probs = common.datasets(t, name, cfg, run["data"], nd + 1)
  other = probs[-1]
  probs = probs[:nd]

  def data(k):
    return probs[(k * 7 + k // 3) % nd]
  ref = pool.get(0)
  p0, s0 = t.start(ref, probs[0])
  traj = [(p0, s0)]

  def reference(k):
    while len(traj) <= k:
      p, s = traj[-1]
      traj.append(tuple(common.step(ref, p, s, data(len(traj) - 1))))
    return traj[k]

  exact = True
  tol_mode = dict(rtol=0.0, atol=0.0)
  slot = 1
  solver = pool.get(1)
  p, s = t.start(solver, probs[0])
  k = 0
  saved = {0: common.save((p, s))}
  nfresh = 0

  def compare(what):
    ref_pair = reference(k)
    if exact:
      d = tree_diff(ref_pair, (p, s))
      if d is None:
        sim.probe("bit_exact")
        return
      # Another compilation of the same code may round differently: only a real deviation counts.
      sim.probe("inexact")
    if name in WARM and not exact:
      a = (ref_pair[0], ref_pair[1].iter_num)
      b = (p, s.iter_num)
    else:
      a, b = ref_pair, (p, s)
    d = tree_diff(a, b, rtol=1e-6 if job["x64"] else 2e-2, atol=1e-8 if job["x64"] else 1e-3)
    if d is not None and not np.all(np.isfinite(flat(ref_pair[0]))):
      return
    sim.check(d is None, "diverged", lambda: f"after {what} at step {k}: {d}")

  compare("start")
  for op in run["ops"]:
    kind = op[0]
    if kind == "step":
      p, s = common.step(solver, p, s, data(k))
      k += 1
      sim.steps += 1
      saved[k] = common.save((p, s))
      sim.log("step", k, digest_tree(p))
      compare("step")
      continue
    if kind == "runto":
      if k:
        continue
      if nd > 1:
        continue
      m = op[1]
      r = pool.get(9, maxiter=m)
      args = probs[0].args
      init = p if probs[0].init is None and name == "BoxOSQP" else probs[0].init
      p, s = r.run(init, *args, **probs[0].kwargs)
      k = m
      if not all(np.isfinite(np.asarray(reference(i)[1].error)) for i in range(1, m)):
        return  # a non-finite error stops the run earlier
      exact = False
      sim.fault("start_from_run")
      saved = {k: common.save((p, s))}
      compare("run")
      continue
    if kind == "crash":
      slot = op[1]
      solver = pool.get(slot)
      p, s = common.load(saved[k])
      sim.fault("crash_restart")
    elif kind == "rollback":
      want = max(min(saved), k - op[1])
      k = max(i for i in saved if i <= want)
      slot = op[2]
      solver = pool.get(slot)
      p, s = common.load(saved[k])
      sim.fault("rollback")
    elif kind == "dirty":
      slot = op[1]
      solver = pool.get(slot)
      q, u = t.start(solver, other)
      for _ in range(op[2]):
        q, u = common.step(solver, q, u, other)
        sim.steps += 1
      p, s = common.load(saved[k])
      sim.fault("handover_to_used_object")
    elif kind == "fresh":
      if jit and nfresh >= 1:
        continue
      nfresh += 1
      solver = t.make(cfg, **pool.mode)
      p, s = common.load(saved[k])
      sim.fault("new_object")
    elif kind == "warm":
      if nd > 1 or float(np.asarray(s.error)) < 1e-3:
        continue
      solver = pool.get(slot)
      pr = data(k)
      lp, lst = common.load(saved[k])
      if op[1] <= 1:
        s = solver.init_state(OptStep(lp, lst), *pr.args, **pr.kwargs)
        p = lp
        sim.fault("warm_init_state")
      else:
        r = pool.get(8, maxiter=2)
        p, s = r.run(OptStep(lp, lst), *pr.args, **pr.kwargs)
        k += 2
        if not np.isfinite(np.asarray(reference(k - 1)[1].error)):
          return
        sim.fault("warm_run")
      exact = False
      saved[k] = common.save((p, s))
      d = tree_diff((reference(k)[0], reference(k)[1].iter_num), (p, s.iter_num), rtol=1e-6 if job["x64"] else 2e-2, atol=1e-8 if job["x64"] else 1e-3)
      sim.check(d is None, "warm_start_diverged", lambda: f"at step {k}: {d}")
      continue
    compare(kind)
    # A restored pair must keep its types, or the continuation is a different computation.
    sim.check(common.leaf_types(common.load(saved[k])) == common.leaf_types((p, s)), "types", "restored types differ")
