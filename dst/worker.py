"""Worker process: executes batches of simulation runs and reports one JSON line per batch."""
import importlib
import json
import os
import sys
import time
import traceback
import warnings


def run_batch(job, progress=None):
  """Runs every run of the job in order in this process; pure function of (job, code under test)."""
  import jax
  from dst import core
  mod = importlib.import_module("dst." + job["module"])
  jax.config.update("jax_enable_x64", bool(job.get("x64", True)))
  ctx = {}
  out = []
  for i, run in enumerate(job["runs"]):
    if progress is not None:
      progress(i)
    sim = core.Sim()
    res = {"i": i}
    t0 = time.time()
    try:
      mod.execute(job, run, ctx, sim)
    except core.Violation as e:
      res["viol"] = {"cls": e.cls, "msg": e.msg[:1500]}
    except core.HarnessError as e:
      res["harness"] = traceback.format_exc()[-3000:]
    except (KeyboardInterrupt, SystemExit, MemoryError):
      raise
    except BaseException as e:  # pylint: disable=broad-except
      if core.from_repo(e):
        res["viol"] = {"cls": "unexpected-exception:" + type(e).__name__,
                       "msg": traceback.format_exc()[-1500:]}
      else:
        res["harness"] = traceback.format_exc()[-3000:]
    res.update(digest=sim.digest(), faults=sim.faults, probes=sim.probes, steps=sim.steps, evals=sim.evals,
               checks=sim.checks, wall=time.time() - t0, nevents=len(sim.events))
    if os.environ.get("DST_EVENTS"):
      res["events"] = [repr(e) for e in sim.events]
    out.append(res)
    if "viol" in res and job.get("stop_on_violation"):
      break
  return out


def main():
  warnings.simplefilter("ignore")
  real = os.dup(1)
  os.dup2(2, 1)  # anything the code prints goes to stderr
  sys.stdout = sys.stderr
  pipe = os.fdopen(real, "w")
  for line in sys.stdin:
    job = json.loads(line)

    def progress(i):
      pipe.write(json.dumps({"job": job["id"], "at": i}) + "\n")
      pipe.flush()
    try:
      res = {"job": job["id"], "results": run_batch(job, progress)}
    except BaseException:  # pylint: disable=broad-except
      res = {"job": job["id"], "error": traceback.format_exc()[-4000:]}
    pipe.write(json.dumps(res) + "\n")
    pipe.flush()
    try:
      import jax
      jax.clear_caches()
    except Exception:  # pylint: disable=broad-except
      pass


if __name__ == "__main__":
  main()
