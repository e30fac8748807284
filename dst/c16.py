"""C16: every step of every history is compared with an executable reference of the documented update on the history that really happened."""
from dst import catalog as C
from dst import common, hist, refmodel
from dst.c06 import compare, plan_, shrink, nontrivial  # pylint: disable=unused-import

LEVEL = "exploration"
RULE = ("A case is one history of one solver (see C06): steps, data changes, poisoned steps that are rolled back, rejected steps, restarts, hand-overs and warm "
        "starts, longer than the solver's memory. Every step is predicted by a NumPy model that keeps its own copy of the true history (pairs, iterates, momentum, "
        "damping) and never reads the solver's caches. Non-trivial: at least three steps and one fault or history operation. Distinct: by hash of the event log.")
REAL = ["every jaxopt iterative solver (jitted), line searches"]
STUB = ["data source and durable storage (simulated)", "reference models of every method (dst/refmodel.py)"]
ASSUMPTIONS = ["x64", "steps whose decision is a tie within rounding are not judged",
               "zoom and Hager-Zhang line searches: the step size found is taken as given (its conditions are judged by C08), the direction and the step along it are predicted"]


def plan(seed, tier):
  return plan_("C16", seed, tier)


class Predict(hist.Hooks):
  def __init__(self, m, sim):
    self.m, self.sim = m, sim
    self.mem = None

  def on_init(self, prob, p, s, why):
    self.mem = self.m.start(prob, p, s)

  def on_step(self, prob, p0, s0, p1, s1, n):
    if self.mem is None:
      self.sim.probe("unjudged_step")
      return
    try:
      checks, mem = self.m.predict(self.mem, prob, p0, s0, p1, s1)
    except refmodel.Tie:
      self.sim.probe("tie")
      self.mem = self.m.recover(self.mem, prob, p0, s0, p1, s1)
      return
    compare(self.sim, checks, "step", f"update {n}")
    self.sim.probe("predicted_step")
    self.mem = mem

  def snapshot(self):
    return None if self.mem is None else refmodel.snapshot(self.mem)

  def restore(self, snap):
    self.mem = None if snap is None else refmodel.snapshot(snap)

  def on_warm(self, prob, p, s):
    if self.mem is not None:
      self.mem = self.m.warm(self.mem, prob, p, s)


def execute(job, run, ctx, sim):
  t, cfg = C.REG[job["template"]], job["cfg"]
  if "pool" not in ctx:
    ctx["pool"] = common.Pool(t, cfg, jit=True, tol=-1.0)
    ctx["m"] = refmodel.make(job["template"], cfg)
  hist.drive(t, cfg, ctx["pool"], run, sim, Predict(ctx["m"], sim))
