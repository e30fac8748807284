"""C02: run equals init_state followed by repeated update, in every execution mode, and stops at the right update.

World: the simulator is the loop. The reference client calls update one step at a time and applies the documented stop rule itself; the other
clients hand the same problem to run in different execution modes (while_loop, scan, Python loop, outer jit, implicit differentiation on or
off). Faults: data that make evaluations overflow or turn NaN part-way, domains left by trial points.
"""
import jax
import numpy as np

from dst import catalog as C
from dst import common
from dst.core import Rng, digest_tree, tree_diff

LEVEL = "exploration"
RULE = ("A case is one problem solved step by step by the simulator and by run in two or three execution modes of one configuration (template, "
        "options, maxiter, tol drawn from the seed), with a fault kind (none, NaN data, infinite data, overflow, domain violation). Non-trivial: at least one "
        "update was made and at least one run was compared. Distinct: by the hash of the event log with digests of final iterates and update counts.")
REAL = ["jaxopt.base run loops", "jaxopt loop.while_loop in its three implementations", "custom_root wrapper of run", "every iterative solver"]
STUB = ["the reference loop is the simulator's own"]
ASSUMPTIONS = ["differences explained by rounding (verified by perturbing the problem at rounding level) are not violations"]

MODES = {"scan": dict(jit=True, unroll=True, implicit_diff=False), "lax": dict(jit=True, unroll=False, implicit_diff=False),
         "lax_imp": dict(jit=True, unroll="auto", implicit_diff=True), "scan_imp": dict(jit=True, unroll=True, implicit_diff=True),
         "auto_noimp": dict(jit=True, unroll="auto", implicit_diff=False),
         "outer": dict(jit=True, unroll="auto", implicit_diff=True), "outer_noimp": dict(jit=True, unroll=False, implicit_diff=False),
         "eager": dict(jit=False, unroll="auto", implicit_diff=False), "eager_imp": dict(jit=False, unroll=True, implicit_diff=True)}
NO_OUTER = ("Bisection",)


def plan(seed, tier):
  jobs = []
  ncfg, nruns = (6, 14) if tier == "quick" else (60, 40)
  for name in common.ALL:
    t = C.REG[name]
    for ci in range(ncfg):
      rng = Rng("C02", seed, name, ci)
      cfg = t.cfg(rng)
      if "fam" in cfg and rng.chance(0.3):
        cfg["fam"] = "barrier"
      eager = ci % 4 == 3
      if eager and "linesearch" in cfg:
        cfg.update(linesearch=rng.choice(["backtracking", "zoom"]), maxls=5)
      jm = [m for m in MODES if not m.startswith("eager")]
      if name in NO_OUTER:
        jm = [m for m in jm if not m.startswith("outer")]
      modes = rng.sample(jm, 2)
      if eager:
        modes = [rng.choice(["eager", "eager_imp"]), modes[0]]
      slow = eager and name in common.EAGER_SLOW
      osqp = name == "BoxOSQP"
      maxiter = rng.weighted([(0, 1), (1, 1), (2, 1), (5, 3), (9, 3), (14, 2)])
      if slow:
        maxiter = min(maxiter, 4)
      if osqp and maxiter > 2 and not eager:
        maxiter *= 5
      tol = rng.choice([-1.0, 1e-6, 1e-4, 1e-3, 1e-2, 1e-2, 0.1, 0.3, 1.0, 1e9])
      runs = []
      for r in range((3 if slow else 8) if eager else nruns):
        rr = Rng("C02run", seed, name, ci, r)
        fault = rr.weighted([("none", 6), ("nan", 1), ("inf", 1), ("blowup", 1.5)])
        runs.append({"data": rr.getrandbits(30), "fault": fault, "g": rr.choice([1e20, 1e77, 1e120, 1e160])})
      jobs.append({"template": name, "cfg": cfg, "x64": rng.chance(0.85), "modes": modes, "maxiter": maxiter, "tol": tol, "runs": runs,
                   "cost": (30 if slow else 12) if eager else (10 if name in ("LBFGSB", "LBFGS", "BoxOSQP") else 4)})
  return jobs


def shrink(job, run):
  if run["fault"] != "none":
    yield dict(run, fault="none")


def nontrivial(r):
  return r["steps"] >= 1 and r["probes"].get("compared", 0) >= 1


def execute(job, run, ctx, sim):
  name, cfg, x64 = job["template"], job["cfg"], job["x64"]
  t = C.REG[name]
  maxiter, tol = job["maxiter"], job["tol"]
  if not x64:
    tol = tol if tol < 0 or tol > 1e-3 else 1e-2
  if "ref" not in ctx:
    ctx["ref"] = t.make(cfg, maxiter=maxiter, tol=tol)
    ctx["runners"] = {}
    for m in job["modes"]:
      s = t.make(cfg, maxiter=maxiter, tol=tol, **MODES[m])
      ctx["runners"][m] = jax.jit(s.run) if m.startswith("outer") else s.run
  prob = C.problem(name, cfg, run["data"], 0)
  fr = Rng("C02fault", run["data"])
  if run["fault"] == "nan":
    prob = common.poison(prob, fr)
  elif run["fault"] == "inf":
    prob = common.poison(prob, fr, np.inf)
  elif run["fault"] == "blowup":
    prob = common.blow_up(prob, run["g"] if x64 else min(run["g"], 1e20))
  if run["fault"] != "none":
    if name == "Bisection" and cfg["check"]:
      return
    sim.fault(run["fault"])
  if cfg.get("fam") == "barrier":
    sim.fault("domain")
  ref = ctx["ref"]
  p, s = t.start(ref, prob)
  hist = common.history(ref, p, s, prob, maxiter, lambda q, u: t.stopped(cfg, q, u, tol))
  n = len(hist) - 1
  sim.steps += n
  sim.log("ref", n, digest_tree(hist[-1][0]))
  if n and n < maxiter:
    sim.probe("stopped_by_nan" if not np.isfinite(np.asarray(hist[-1][1].error)) else "stopped_by_tol")
  rt, at = (1e-6, 1e-9) if x64 else (1e-2, 1e-4)

  for m, runner in ctx["runners"].items():
    init = p if prob.init is None and name == "BoxOSQP" else prob.init
    out = runner(init, *prob.args, **prob.kwargs)
    sim.log("run", m, digest_tree(out.params))
    sim.probe("compared")
    sim.probe("mode_" + m)
    sim.check(hasattr(out, "params") and hasattr(out, "state"), "result", lambda: f"{m}: run returned {type(out)}")
    cnt = int(np.asarray(out.state.iter_num))
    sim.check(cnt <= maxiter, "too_many_updates", lambda: f"{m}: {cnt} updates with maxiter={maxiter}")
    pr, sr = hist[-1]
    if maxiter == 0:
      if prob.init is not None:
        d = tree_diff(prob.init, out.params)
        sim.check(d is None, "maxiter0", lambda: f"{m}: params changed by a run with maxiter=0: {d}")
      sim.check(cnt == 0, "maxiter0", lambda: f"{m}: iter_num={cnt} after a run with maxiter=0")
      d = common.loose_diff(sr.error, out.state.error, rt, at)
      sim.check(d is None, "maxiter0", lambda: f"{m}: error {d}")
      continue
    bad = None
    if cnt != n:
      bad = ("updates", f"{m}: run made {cnt} updates, the update loop {n} (maxiter={maxiter}, tol={tol}, errors "
             f"{[float(np.asarray(h[1].error)) for h in hist[1:]][-4:]}, run error {float(np.asarray(out.state.error))})")
    else:
      d = common.loose_diff((pr, sr), (out.params, out.state), rt, at)
      if d is not None:
        bad = ("result", f"{m}: after {n} updates: {d}")
    if bad is None:
      continue
    # Rounding or a real difference? Near-ties with tol and knife-edge decisions are not violations.
    errs = [float(np.asarray(h[1].error)) for h in hist[1:]]
    tie = any(abs(e - tol) <= (1e-6 if x64 else 1e-2) * max(abs(tol), 1e-12 if x64 else 1e-4) for e in errs)
    if run["fault"] == "blowup" and not np.isfinite(errs[-1]) and not np.isfinite(np.asarray(out.state.error)):
      sim.probe("overflow_order")  # whether an overflow shows up as infinity or NaN depends on the order of operations
      continue
    if tie or common.chaotic(t, ref, prob, n, hist, Rng("C02chaos", run["data"]), x64):
      sim.probe("sensitive_to_rounding")
      continue
    sim.check(False, bad[0], bad[1])
