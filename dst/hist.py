"""The history world: one client whose optimisation goes through steps, data changes, poisoned steps, rollbacks, hand-overs, restarts and warm starts.

Used by several checks; a check supplies hooks that are called after every init and after every step.
"""
import numpy as np
from jaxopt import OptStep

from dst import catalog as C
from dst import common
from dst.core import Rng, all_finite, digest_tree, flat

# init_state caches quantities of the data (predictions, residuals, factorised systems, brackets): other data needs a new init_state
CACHED = ("GaussNewton", "LevenbergMarquardt", "Bisection", "IterativeRefinement", "BlockCoordinateDescent", "BoxOSQP")
WARM = ("LBFGS", "LBFGSB", "Broyden")
CONVERGED = 1e-6


def gen_ops(rng, name, n, faults=True):
  ops = []
  p = rng.choice([0.1, 0.25, 0.4])
  kinds = [("other", 3), ("save", 2), ("rollback", 3), ("resume", 2), ("restart", 1.5), ("kick", 1)]
  if faults:
    kinds += [("nan", 2.5), ("nanlast", 0.5)]
  if name in WARM:
    kinds.append(("warm", 2.5))
  while len(ops) < n:
    ops.append(["step", rng.randrange(1, 5)])
    if rng.chance(p * 2):
      k = rng.weighted(kinds)
      if k == "nan":
        ops.append(["nan", rng.choice(["nan", "inf", "-inf"]), rng.getrandbits(20), rng.choice(["rollback", "rollback", "restart", "again"])])
      elif k == "nanlast":
        ops.append(["nan", "nan", rng.getrandbits(20), "keep"])
      elif k in ("resume", "other", "restart"):
        ops.append([k, rng.randrange(1, 4)])
      elif k == "kick":
        ops.append([k, rng.getrandbits(20)])
      else:
        ops.append([k])
  return ops


class Hooks:
  def on_init(self, prob, p, s, why):
    pass

  def on_step(self, prob, p0, s0, p1, s1, n):
    pass

  def on_bad_step(self, prob, p0, s0, p1, s1):
    pass

  def snapshot(self):
    return None

  def restore(self, snap):
    pass

  def on_warm(self, prob, p, s):
    pass


def drive(t, cfg, pool, run, sim, hooks, nd=3):
  name = t.name
  cached = name in CACHED or not t.data_each_step
  probs = common.datasets(t, name, cfg, run["data"], nd)
  if name == "LBFGSB":  # the bounds belong to the solve, the data to the step
    probs = [p._replace(args=(probs[0].args[0],) + p.args[1:], init=probs[0].init, meta=dict(p.meta, hp=probs[0].meta["hp"])) for p in probs]
  cur = 0
  solver = pool.get(1)
  n = 0

  def init(prob, p, why):
    nonlocal n
    n = 0
    if p is None:
      p, s = t.start(solver, prob)
    else:
      s = solver.init_state(p, *prob.args, **prob.kwargs)
    sim.log("init", why, digest_tree(p))
    hooks.on_init(prob, p, s, why)
    return p, s

  p, s = init(probs[0], None, "start")
  last = (common.save((p, s)), hooks.snapshot(), n, cur)
  kept = last

  def back(to):
    nonlocal p, s, n, cur
    (p, s), n, cur = common.load(to[0]), to[2], to[3]
    hooks.restore(to[1])

  def one(prob):
    nonlocal p, s, n, last
    p1, s1 = common.step(solver, p, s, prob)
    n += 1
    sim.steps += 1
    sim.log("step", n, digest_tree(p1), digest_tree(s1))
    hooks.on_step(prob, p, s, p1, s1, n)
    p, s = p1, s1
    last = (common.save((p, s)), hooks.snapshot(), n, cur)

  for op in run["ops"]:
    k = op[0]
    if k == "step":
      for _ in range(op[1]):
        err = float(np.asarray(s.error)) if n else 1.0
        if not all_finite(p) or not (err > CONVERGED):
          q = t.reparam(cfg, probs[cur], Rng("kick", run["data"], sim.steps))
          p, s = init(probs[cur], q.init, "converged")
          if not n and t.name in ("Bisection", "BoxOSQP"):
            p, s = init(probs[cur], None, "converged")
        one(probs[cur])
    elif k == "other":
      sim.fault("data_change")
      if cached:
        cur = op[1] % nd
        q = probs[cur]
        p, s = init(q, p if all_finite(p) else None, "other data")
      else:
        keep = cur
        cur = op[1] % nd
        one(probs[cur])
        if op[1] == 3:
          cur = keep
    elif k == "save":
      kept = last
    elif k == "rollback":
      back(kept)
      sim.fault("rollback")
    elif k == "resume":
      solver = pool.get(op[1])
      back(last)
      sim.fault("crash_restart")
    elif k == "restart":
      sim.fault("restart")
      solver = pool.get(op[1])
      p, s = init(probs[cur], p if all_finite(p) else None, "restart")
      last = (common.save((p, s)), hooks.snapshot(), n, cur)
    elif k == "kick":
      q = t.reparam(cfg, probs[cur], Rng("kick2", run["data"], op[1]))
      p, s = init(probs[cur], q.init, "kick")
      last = (common.save((p, s)), hooks.snapshot(), n, cur)
    elif k == "nan":
      if n == 0 and name in WARM:
        continue
      val = {"nan": np.nan, "inf": np.inf, "-inf": -np.inf}[op[1]]
      bad = common.poison(probs[cur], Rng("poison", run["data"], op[2]), val)
      if name == "LBFGSB":  # bounds stay; only the data goes bad
        bad = common.poison(probs[cur]._replace(args=probs[cur].args[1:]), Rng("poison", run["data"], op[2]), val)
        bad = bad._replace(args=(probs[cur].args[0],) + bad.args)
      if cached and name != "BoxOSQP":
        try:
          p1, s1 = p, solver.init_state(p, *bad.args, **bad.kwargs)
        except ValueError:  # a bracket without a sign change is refused
          if name != "Bisection":
            raise
          sim.fault("bracket_refused")
          continue
        p1, s1 = common.step(solver, p1, s1, bad)
      else:
        p1, s1 = common.step(solver, p, s, bad)
      hooks.on_bad_step(bad, p, s, p1, s1)
      sim.steps += 1
      sim.fault("non_finite_data:" + op[1])
      sim.log("bad", digest_tree(p1))
      if op[3] == "again":
        common.step(solver, p1, s1, bad)
      if op[3] == "restart" and all_finite(p1):
        p, s = init(probs[cur], p1, "after fault")
      elif op[3] == "keep" and all_finite((p1, s1)) and not cached:
        # the step absorbed the fault: the solve goes on from what it returned
        p, s = init(probs[cur], p1, "kept")
      else:
        back(last)
      last = (common.save((p, s)), hooks.snapshot(), n, cur)
    elif k == "warm":
      if n == 0 or not all_finite((p, s)) or not float(np.asarray(s.error)) > 1e-4:
        continue
      s = solver.init_state(OptStep(p, s), *probs[cur].args, **probs[cur].kwargs)
      sim.fault("warm_start")
      sim.log("warm", digest_tree(s))
      hooks.on_warm(probs[cur], p, s)
      last = (common.save((p, s)), hooks.snapshot(), n, cur)
