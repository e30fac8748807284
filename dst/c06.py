"""C06: after every step of every history the reported state is recomputed from scratch and compared."""
from dst import catalog as C
from dst import common, hist, refmodel
from dst.core import Rng, close
import numpy as np

LEVEL = "exploration"
RULE = ("A case is one history of one solver: configuration and data drawn from the seed, then steps, data changes, steps on poisoned data (NaN or infinity) "
        "followed by rollback, restart or a second bad step, saves and rollbacks, hand-overs to other solver objects, restarts and warm starts. After every init "
        "and every step each documented state field is recomputed with NumPy from the params and data. Non-trivial: at least three steps and one fault or "
        "history operation. Distinct: by hash of the event log with digests of all params and states.")
REAL = ["every jaxopt iterative solver (jitted), line searches"]
STUB = ["data source and durable storage (simulated)", "reference formulas of every state field (dst/refmodel.py)"]
ASSUMPTIONS = ["x64 so that rounding does not blur the comparison", "solvers whose init_state caches problem data are re-initialised when the data changes"]


def plan_(mod, seed, tier, quick=(6, 10), thorough=(60, 30), steps=14):
  jobs = []
  ncfg, nruns = quick if tier == "quick" else thorough
  for name in common.ALL:
    for ci in range(ncfg):
      rng = Rng(mod, seed, name, ci)
      cfg = C.REG[name].cfg(rng)
      runs = []
      for r in range(nruns):
        rr = Rng(mod + "run", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30), "ops": hist.gen_ops(rr, name, rr.randrange(4, steps))})
      jobs.append({"template": name, "cfg": cfg, "x64": True, "runs": runs, "cost": 3})
  return jobs


def plan(seed, tier):
  return plan_("C06", seed, tier)


def shrink(job, run):
  for ops in common.ddmin_ops(run["ops"]):
    yield dict(run, ops=ops)


def nontrivial(r):
  return r["steps"] >= 3 and sum(r["faults"].values()) >= 1


def compare(sim, checks, kind, where, rtol=1e-7):
  for (name, got, want, atol) in checks:
    got, want = np.asarray(got, dtype=float), np.asarray(want, dtype=float)
    if got.shape != want.shape:
      sim.check(False, kind, f"{where}: {name} has shape {got.shape}, expected {want.shape}")
    with np.errstate(all="ignore"):
      bad = ~np.isfinite(want)
    if np.any(bad):
      sim.check(not np.any(np.isfinite(got[bad])), kind, f"{where}: {name} is finite where the truth is not")
      got, want = got[~bad], want[~bad]
    sim.check(close(got, want, rtol, atol if np.isfinite(atol) else 0.0), kind + ":" + name,
              lambda: f"{where}: {name} is {np.array2string(np.ravel(got)[:6], precision=10)}, expected {np.array2string(np.ravel(want)[:6], precision=10)} (allowed {atol:.2g})")


class Truth(hist.Hooks):
  def __init__(self, m, sim):
    self.m, self.sim = m, sim

  def on_init(self, prob, p, s, why):
    self.why = why
    self.sim.check(int(np.asarray(s.iter_num)) == 0, "counter", f"iter_num {s.iter_num} after init")
    compare(self.sim, self.m.init_truth(prob, p, s), "state", f"after init_state ({why})")

  def on_step(self, prob, p0, s0, p1, s1, n):
    self.sim.check(int(np.asarray(s1.iter_num)) == n, "counter", lambda: f"iter_num {s1.iter_num} after {n} updates")
    compare(self.sim, self.m.truth(prob, p0, s0, p1, s1), "state", f"after update {n}")

  def on_warm(self, prob, p, s):
    compare(self.sim, [c for c in self.m.init_truth(prob, p, s)], "state", "after a warm init_state")


def execute(job, run, ctx, sim):
  t, cfg = C.REG[job["template"]], job["cfg"]
  if "pool" not in ctx:
    ctx["pool"] = common.Pool(t, cfg, jit=True, tol=-1.0)
    ctx["m"] = refmodel.make(job["template"], cfg)
  hist.drive(t, cfg, ctx["pool"], run, sim, Truth(ctx["m"], sim))
