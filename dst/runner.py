"""Driver of one property check: plan, parallel simulation, confirmation, minimisation, evidence.

usage: python -m dst.runner C01        (VERIF_SEED, VERIF_TIER from the environment)
       python -m dst.runner --replay FILE
"""
import importlib
import json
import os
import queue
import re
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = os.environ.get("DST_PYTHON", "/opt/venv/bin/python")
NWORKERS = int(os.environ.get("DST_WORKERS", "8"))
REPO = os.environ.get("DST_REPO", "/repo")
CACHE = None  # compilation cache shared by the workers of one check (keyed by the compiled program itself)


def worker_env():
  env = dict(os.environ)
  env.update(JAX_PLATFORMS="cpu", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MKL_NUM_THREADS="1",
             XLA_FLAGS="--xla_cpu_multi_thread_eigen=false", PYTHONDONTWRITEBYTECODE="1",
             JAX_TRACEBACK_FILTERING="off", JAX_CPU_ENABLE_ASYNC_DISPATCH="false", TF_CPP_MIN_LOG_LEVEL="3", PYTHONPATH=HERE + ":" + REPO)
  env.setdefault("PYTHONHASHSEED", "0")
  if CACHE:
    env.update(JAX_COMPILATION_CACHE_DIR=CACHE, JAX_PERSISTENT_CACHE_MIN_COMPILE_TIME_SECS="0.05",
               JAX_PERSISTENT_CACHE_MIN_ENTRY_SIZE_BYTES="0")
  return env


class Worker:
  def __init__(self):
    self.start()

  def start(self):
    self.p = subprocess.Popen([PY, "-W", "ignore", "-m", "dst.worker"], stdin=subprocess.PIPE,
                              stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=worker_env(), cwd=HERE)
    self.q = queue.Queue()
    self.err = []
    threading.Thread(target=self._read, args=(self.p.stdout, self.q), daemon=True).start()
    threading.Thread(target=self._readerr, args=(self.p.stderr,), daemon=True).start()

  def _read(self, f, q):
    for line in f:
      q.put(line)
    q.put(None)

  def _readerr(self, f):
    for line in f:
      self.err.append(line)
      if len(self.err) > 200:
        del self.err[:100]

  def run(self, job, timeout):
    self.p.stdin.write(json.dumps(job) + "\n")
    self.p.stdin.flush()
    t0 = time.time()
    at = 0
    while True:
      try:
        line = self.q.get(timeout=max(0.1, timeout - (time.time() - t0)))
      except queue.Empty:
        self.kill()
        return {"job": job["id"], "hang": at}
      if line is None:
        tail = "".join(self.err[-30:])
        self.kill()
        return {"job": job["id"], "error": "worker died\n" + tail}
      msg = json.loads(line)
      if "at" in msg:
        if msg["at"] != at:
          at = msg["at"]
        continue
      return msg

  def kill(self):
    try:
      self.p.kill()
      self.p.wait(10)
    except Exception:  # pylint: disable=broad-except
      pass

  def close(self):
    try:
      self.p.stdin.close()
      self.p.wait(5)
    except Exception:  # pylint: disable=broad-except
      self.kill()


def run_jobs(jobs, deadline, job_timeout, nworkers=NWORKERS):
  """Runs jobs on a pool of worker processes. Returns {id: message}; skipped jobs are absent."""
  todo = queue.Queue()
  for j in sorted(jobs, key=lambda j: -j.get("cost", 1)):
    todo.put(j)
  results = {}
  lock = threading.Lock()

  def loop():
    w = None
    served = 0
    while True:
      try:
        job = todo.get_nowait()
      except queue.Empty:
        break
      if time.time() > deadline:
        break
      if w is None:
        w = Worker()
        served = 0
      try:
        msg = w.run(job, job_timeout)
      except (BrokenPipeError, OSError) as e:
        msg = {"job": job["id"], "error": f"pipe: {e}"}
      with lock:
        results[job["id"]] = msg
      served += len(job["runs"])
      if "hang" in msg or "error" in msg:
        w.kill()
        w = None
    if w is not None:
      w.close()

  ts = [threading.Thread(target=loop) for _ in range(min(nworkers, max(1, len(jobs))))]
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  return results


def fresh(job, timeout=300):
  """Runs one job in a fresh process."""
  w = Worker()
  try:
    return w.run(job, timeout)
  finally:
    w.kill()


def viol_of(msg, cls=None):
  """(index, violation) of the first violation in a worker message (optionally of a given class)."""
  if "hang" in msg:
    v = {"cls": "hang", "msg": f"run {msg['hang']} did not finish"}
    return (msg["hang"], v) if cls in (None, "hang") else None
  for r in msg.get("results", ()):
    if "viol" in r and (cls is None or r["viol"]["cls"] == cls):
      return r["i"], r["viol"]
  return None


def minimise(mod, job, idx, cls, budget, hang_timeout):
  """Shrinks the batch prefix and then the run itself while the same violation class persists."""
  t_end = time.time() + budget
  tmo = hang_timeout if cls == "hang" else 300

  def bad(runs):
    return viol_of(fresh(dict(job, runs=runs, stop_on_violation=True), tmo), cls) is not None

  runs = None
  tries = 0
  for cand in ([job["runs"][idx]], job["runs"][:idx + 1], [job["runs"][idx]]):
    tries += 1
    if bad(cand):
      runs = cand
      break
  if runs is None:
    return None, tries
  # Drop prefix runs.
  i = 0
  while i < len(runs) - 1 and time.time() < t_end:
    c = runs[:i] + runs[i + 1:]
    tries += 1
    if bad(c):
      runs = c
    else:
      i += 1
  shrink = getattr(mod, "shrink", None)
  if shrink is not None and cls != "hang":
    progress = True
    while progress and time.time() < t_end:
      progress = False
      for simpler in shrink(job, runs[-1]):
        if time.time() > t_end:
          break
        tries += 1
        if bad(runs[:-1] + [simpler]):
          runs = runs[:-1] + [simpler]
          progress = True
          break
  return runs, tries


def load_known(prop):
  path = os.path.join(HERE, "known_findings.json")
  if not os.path.exists(path):
    return []
  with open(path) as f:
    return [k for k in json.load(f)["findings"] if k["property"] == prop and k.get("status", "open") == "open"]


def match_known(known, job, viol):
  for k in known:
    if k.get("template") and not re.fullmatch(k["template"], str(job.get("template"))):
      continue
    if k.get("cls") and not re.fullmatch(k["cls"], viol["cls"]):
      continue
    if k.get("msg") and not re.search(k["msg"], viol["msg"]):
      continue
    if k.get("cfg") and any(job.get("cfg", {}).get(a) != b for a, b in k["cfg"].items()):
      continue
    return k
  return None


def check(prop):
  t0 = time.time()
  seed = int(os.environ.get("VERIF_SEED", "1"))
  tier = os.environ.get("VERIF_TIER", "quick")
  mod = importlib.import_module("dst." + prop.lower())
  limit = float(os.environ.get("DST_DEADLINE", "640" if tier == "quick" else "10800"))
  deadline = t0 + limit
  jobs = mod.plan(seed, tier)
  for n, j in enumerate(jobs):
    j["id"] = n
    j.setdefault("module", prop.lower())
  only = os.environ.get("DST_ONLY")
  if only:
    jobs = [j for j in jobs if re.search(only, str(j.get("template")))]
  by_id = {j["id"]: j for j in jobs}
  nruns_planned = sum(len(j["runs"]) for j in jobs)
  print(f"{prop}: seed={seed} tier={tier} jobs={len(jobs)} runs={nruns_planned} workers={NWORKERS}", flush=True)
  job_timeout = getattr(mod, "JOB_TIMEOUT", 240) * (1 if tier == "quick" else 4)
  results = run_jobs(jobs, deadline, job_timeout)

  known = load_known(prop)
  viols, harness = [], []
  faults, probes, digests, nontriv = {}, {}, set(), set()
  done = steps = evals = checks = 0
  samples = []
  per_template = {}
  for jid, msg in sorted(results.items()):
    job = by_id[jid]
    if "error" in msg:
      harness.append((job, 0, msg["error"]))
      continue
    if "hang" in msg:
      viols.append((job, msg["hang"], {"cls": "hang", "msg": f"no answer within {job_timeout} s"}))
      continue
    for r in msg["results"]:
      done += 1
      steps += r["steps"]
      evals += r["evals"]
      checks += r["checks"]
      tname = str(job.get("template"))
      per_template[tname] = per_template.get(tname, 0) + 1
      for d, s in ((faults, r["faults"]), (probes, r["probes"])):
        for k, v in s.items():
          d[k] = d.get(k, 0) + v
      digests.add(r["digest"])
      if mod.nontrivial(r):
        nontriv.add(r["digest"])
        if len(samples) < 4 and (jid * 7 + r["i"]) % 5 == 0:
          samples.append({"template": tname, "cfg": job.get("cfg"), "run": job["runs"][r["i"]], "steps": r["steps"],
                          "faults": r["faults"], "digest": r["digest"]})
      if "viol" in r:
        viols.append((job, r["i"], r["viol"]))
      if "harness" in r:
        harness.append((job, r["i"], r["harness"]))
  if os.environ.get("DST_VERBOSE"):
    for job, i, v in viols:
      print("  raw", job["template"], json.dumps(job.get("cfg")), i, v["cls"], v["msg"][:600], flush=True)
    slow = sorted(((sum(r["wall"] for r in m.get("results", [])), by_id[k]["template"], by_id[k].get("cfg")) for k, m in results.items()), key=lambda t: -t[0])[:8]
    for s in slow:
      print("  slow", round(s[0], 1), s[1], json.dumps(s[2]))

  # Separate the listed findings from new violations.
  new = []
  shown = set()
  for job, i, v in viols:
    k = match_known(known, job, v)
    if k is not None:
      if k["id"] not in shown:
        shown.add(k["id"])
        print(f"KNOWN-FINDING: property={prop} {k['text']}", flush=True)
    else:
      new.append((job, i, v))

  reported = 0
  unreproduced = []
  seen = set()
  rdir = os.path.join(HERE, "evidence", "replays")
  t_min = min(time.time() + (150 if tier == "quick" else 900), t0 + (840 if tier == "quick" else 1e9))
  for job, i, v in new:
    key = (v["cls"], job.get("template"))
    if key in seen or (reported and len(seen) >= 3):
      continue
    if reported and time.time() > t_min:
      break
    seen.add(key)
    runs, tries = minimise(mod, job, i, v["cls"], max(5, (t_min - time.time()) / 2), job_timeout)
    if runs is None:
      unreproduced.append((job, i, v))
      continue
    os.makedirs(rdir, exist_ok=True)
    path = os.path.join(rdir, f"{prop}-{reported}-seed{seed}.json")
    rep = dict(job, runs=runs, property=prop, violation=v, seed=seed, attempts=tries, stop_on_violation=True)
    with open(path, "w") as f:
      json.dump(rep, f, indent=1)
    reported += 1
    print(f"  {v['cls']} [{job.get('template')}] {v['msg'][:900]}", flush=True)
    print(f"VIOLATION property={prop} replay={path}", flush=True)

  wall = time.time() - t0
  ev = {
      "property": prop, "tier": tier, "seed": seed, "level": mod.LEVEL,
      "coverage": {
          "evaluations": done,
          "distinct_nontrivial": len(nontriv),
          "rule": mod.RULE,
          "samples": samples or [{"note": "no non-trivial run"}],
          "runs_planned": nruns_planned,
          "runs_per_hour": round(done / max(wall, 1e-9) * 3600),
          "seeds_per_hour": round(len(digests) / max(wall, 1e-9) * 3600),
          "simulated_time": {"solver_steps": steps, "function_evaluations_observed": evals},
          "oracle_checks": checks,
          "faults_injected": faults,
          "probes": probes,
          "distinct_event_logs": len(digests),
          "batches": len(results),
          "runs_per_template": per_template,
          "real_components": mod.REAL,
          "stub_components": mod.STUB,
      },
      "assumptions": getattr(mod, "ASSUMPTIONS", []),
      "wall_s": round(wall, 2),
      "violations": len(new),
  }
  os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
  with open(os.path.join(HERE, "evidence", f"{prop}.json"), "w") as f:
    json.dump(ev, f, indent=1)
  print(f"{prop}: runs={done}/{nruns_planned} distinct={len(nontriv)} steps={steps} evals={evals} checks={checks} faults={faults} "
        f"violations={len(new)} harness={len(harness)} wall={wall:.1f}s", flush=True)
  if reported:
    return 1
  for job, i, e in harness[:3]:
    print("HARNESS ERROR in", job.get("template"), json.dumps(job.get("cfg")), "run", i, "\n", e[-1800:], flush=True)
  for job, i, v in unreproduced[:3]:
    print("UNREPRODUCED", job.get("template"), v["cls"], v["msg"][:800], flush=True)
  if harness or unreproduced:
    return 2
  if done < 0.3 * nruns_planned:
    print("too few runs finished before the deadline", flush=True)
    return 2
  return 0


def replay(path):
  with open(path) as f:
    rep = json.load(f)
  msg = fresh(rep, 900)
  v = viol_of(msg, rep["violation"]["cls"])
  if v is None:
    print("not reproduced:", json.dumps(msg)[:2000])
    return 0
  print(f"{v[1]['cls']}: {v[1]['msg'][:2000]}")
  print(f"VIOLATION property={rep['property']} replay={path}")
  return 1


def main():
  global CACHE
  if os.environ.get("DST_CACHE", "1") == "0":
    return replay(sys.argv[2]) if sys.argv[1] == "--replay" else check(sys.argv[1])
  with tempfile.TemporaryDirectory(prefix="dst-xla-") as d:
    CACHE = d
    return replay(sys.argv[2]) if sys.argv[1] == "--replay" else check(sys.argv[1])


if __name__ == "__main__":
  sys.exit(main())
