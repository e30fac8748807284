"""Writes /verif/MANIFEST.json from the property modules that exist."""
import json, os, re, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: seeded search over schedules, histories and faults"
NOTE = {
 "C01": "Sampled crash, rollback and resume points of every iterative solver in simulated histories; compared bit for bit with the uninterrupted run of the real code.",
 "C02": "Sampled configurations, budgets and evaluation-fault points; every loop mode compared with a step-by-step simulated driver; rounding ties are recognised by perturbation and not judged.",
 "C03": "Seeded interleavings at step and evaluation granularity, incl. real threads parked and released by the simulator; compared with each solve alone.",
 "C04": "Seeded streams with early ends, exceptions, duplicated and corrupted batches; compared with a manual loop and a record of every draw.",
 "C05": "Seeded batches with faulty lanes; bit-identical lanes under replacement of another lane, and agreement with each problem solved alone.",
 "C06": "State recomputed from scratch with independent NumPy formulas after every simulated step, incl. after faults, restarts and data changes.",
 "C07": "Feasibility measured independently after every simulated step.",
 "C08": "Line searches driven against evaluation faults by call and by region; their verdict checked against the function itself.",
 "C09": "Monotonicity and NaN rejection checked at every simulated step with the real objective outside the solver.",
 "C10": "Bounded progress after the last fault, against independent optima.",
 "C11": "Exceptions injected at seeded evaluations; the retry compared with a fresh solver bit for bit.",
 "C12": "A scripted SciPy on the other side of the bridge records and perturbs the conversation; also the real SciPy.",
 "C13": "KKT conditions and verdicts checked independently after simulated histories of warm starts and interruptions.",
 "C14": "Derivatives through many simulated paths compared with each other and with the closed form of the optimality condition.",
 "C15": "Call orders, failures and retries simulated; outputs compared with an executable reference of the estimator.",
 "C16": "Each step compared with an executable NumPy model of the documented update on the actual history.",
}
NA = {p: "A pure function of its input: no schedule, time, I/O, history or fault for this property to depend on, so deterministic simulation has nothing to decide (see DESIGN.md)." for p in ("C20", "C21", "C22", "C23", "C24", "C25")}
ids = [json.loads(l)["id"] for l in open(os.path.join(here, "properties.jsonl"))]
checks, na = [], []
for i in ids:
  if os.path.exists(os.path.join(here, "dst", i.lower() + ".py")):
    checks.append({"property": i, "quick_cmd": f"bin/check {i}", "thorough_cmd": f"VERIF_TIER=thorough bin/check {i}", "evidence_file": f"evidence/{i}.json",
                   "technique": TECH, "level": "exploration", "level_note": NOTE[i] + " Evidence by sampling, not proof."})
  else:
    na.append({"property": i, "reason": NA.get(i, "Applicable, but its check is not built yet.")})
m = {"version": 1, "setup_cmd": "bin/setup", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: objectives, data arguments, iterators, callbacks and scipy.optimize are the seams. Known and fixed findings: known_findings.json."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "n/a")
