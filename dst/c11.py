"""C11: a solve aborted by an exception leaves no trace.

Worlds: (eager) objective, prox, projection, matvec or hook raises at a seeded evaluation of an eager solve, update, init_state or derivative; (trace)
it raises while the solver is being traced; (host) it raises inside a compiled solve, from a host callback; (scipy) objective or callback of the SciPy
wrappers; (tools) perturbed operators, linear solves, loops and custom_root solvers. The same objects are used again straight afterwards.
Oracles: the exception reaches the caller, what the caller passed in and holds is untouched, no global setting changed, and every later result is bit
for bit the one of objects that never saw an exception.
"""
import contextlib
import copy
import functools
import logging
import random
import warnings

import jax
import jax.numpy as jnp
import numpy as np
import optax
import jaxopt
from jaxopt import implicit_diff, linear_solve, loop, perturbations

from dst import catalog as C
from dst import common
from dst import problems as P
from dst import scipycat as S
from dst.core import Rng, SimFault, digest_tree, np_tree, tree_diff

logging.getLogger("jax._src.callback").setLevel(logging.CRITICAL + 1)
LEVEL = "exploration"
RULE = ("A case is a sequence of operations (init_state, update, run, run_iterator, derivative) of two problems on one solver object, some of them aborted by an "
        "exception at a seeded evaluation of a user function; worlds eager, trace, host (inside a compiled loop), scipy, tools. Non-trivial: at least one "
        "exception was raised and one operation completed after it on the same object. Distinct: by hash of the event log with digests of results.")
REAL = ["every iterative solver with user callables, SciPy wrappers with the real SciPy, perturbations, linear_solve, loop, implicit_diff"]
STUB = ["the user functions raise where the simulator says"]
ASSUMPTIONS = ["inside a compiled solve, JAX reports the exception of a host callback as its own error carrying the message"]

NAMES = [n for n in common.ALL if n != "BoxCDQP"]
GRAD = ["GradientDescent", "ProximalGradient", "ProjectedGradient", "GaussNewton", "FixedPointIteration", "Broyden", "LBFGS", "BFGS", "NonlinearCG"]
HOST = ["GradientDescent", "ProximalGradient", "ProjectedGradient", "MirrorDescent", "LBFGS", "BFGS", "NonlinearCG", "LBFGSB", "PolyakSGD", "ArmijoSGD", "OptaxSolver",
        "FixedPointIteration", "AndersonAcceleration", "Broyden", "GaussNewton", "Bisection"]
TOKEN = "simulated-failure"


class SimInterrupt(BaseException):
  """Ctrl-C at a seeded evaluation."""


class Bomb:
  """Counts evaluations of user functions and raises at the chosen one."""

  def __init__(self):
    self.arm()

  def arm(self, at=None, kind="exc"):
    self.at, self.kind, self.count, self.fired = at, kind, 0, False

  def tick(self):
    self.count += 1
    if self.at is not None and self.count == self.at:
      self.fired = True
      raise (SimInterrupt if self.kind == "base" else SimFault)(TOKEN)

  def __call__(self, out):
    self.tick()
    return out


def host_tap(bomb):
  def host(x):
    bomb.tick()
    return np.asarray(x)

  @jax.custom_jvp
  def tap(x):
    return jax.pure_callback(host, jax.ShapeDtypeStruct(x.shape, x.dtype), x, vmap_method="sequential")

  @tap.defjvp
  def _(p, t):
    return tap(p[0]), t[0]

  def on(out):
    ls, td = jax.tree_util.tree_flatten(out)
    return jax.tree_util.tree_unflatten(td, [tap(ls[0])] + ls[1:])
  return on


def hooked(f, bomb):
  @functools.wraps(f)
  def g(*a, **k):
    bomb.tick()
    return f(*a, **k)
  return g


@contextlib.contextmanager
def patched(bomb):
  """Projections and proximal operators given to the solvers built inside count as user functions."""
  saved = []
  for d in (C.PROXES, C.PROJ, C.BCD_PROX):
    saved.append(dict(d))
    for k in list(d):
      d[k] = hooked(d[k], bomb)
  try:
    yield
  finally:
    for d, s in zip((C.PROXES, C.PROJ, C.BCD_PROX), saved):
      d.update(s)


def make(job, bomb, **mode):
  name, cfg = job["template"], job["cfg"]
  t = C.REG[name]
  hook = bomb if mode["jit"] is False or job["kind"] == "trace" else Bomb()
  mode = dict(dict(maxiter=job.get("maxiter", 3), tol=1e-9), **mode)
  if name == "BoxOSQP":
    mv = lambda M, x: (hook.tick(), M @ x)[1]
    mode.pop("implicit_diff", None)
    return jaxopt.BoxOSQP(matvec_Q=mv, matvec_A=mv, eq_qp_solve="cg", momentum=cfg["momentum"], rho_start=cfg["rho"], termination_check_frequency=1, **mode)
  if name == "IterativeRefinement":
    mv = lambda M, x: (hook.tick(), M @ x)[1]
    mode.pop("implicit_diff", None)
    return jaxopt.IterativeRefinement(matvec_A=mv, matvec_A_bar=mv if cfg["bar"] == "bar" else None,
                                      solve=functools.partial(linear_solve.solve_cg, ridge=1e-2), **mode)
  if name in ("PolyakSGD", "ArmijoSGD", "OptaxSolver"):
    def pre(params, state, *a, **k):
      hook.tick()
      return jax.tree_util.tree_map(lambda x: 0.995 * x, params), state
    mode["pre_update"] = pre
  with patched(hook):
    if not t.has_implicit:
      mode.pop("implicit_diff", None)
    return t.make(cfg, **mode)


# ------------------------------------------------------------------------------------------------------------------------- plan
def gen_ops(rr, kinds, n):
  ops = []
  for _ in range(n):
    f = rr.weighted([("none", 3), ("exc", 5), ("base", 2)])
    ops.append({"op": rr.choice(kinds), "who": rr.randrange(2), "fault": f, "at": rr.choice([rr.random(), rr.random(), 0.0, 0.999])})
  for o in list(ops):
    if o["fault"] != "none" and rr.chance(0.7):
      ops.insert(ops.index(o) + 1, dict(o, fault="none"))
  return ops


def plan(seed, tier):
  jobs = []
  m = 1 if tier == "quick" else 8
  for name in NAMES:
    t = C.REG[name]
    slow = name in common.EAGER_SLOW
    for ci in range(m):
      rng = Rng("C11e", seed, name, ci)
      cfg = t.cfg(rng)
      if "linesearch" in cfg:
        cfg.update(linesearch=rng.choice(["backtracking", "zoom"]), maxls=5)
      kinds = ["solve", "step", "step", "init"]
      if name in GRAD:
        kinds.append("grad")
      if getattr(t, "stochastic", False):
        kinds.append("iterator")
      runs = [{"data": Rng("C11er", seed, name, ci, r).getrandbits(30), "ops": gen_ops(Rng("C11er", seed, name, ci, r), kinds, 3 if slow else 5)} for r in range(3 if slow else 5)]
      jobs.append({"kind": "eager", "template": name, "cfg": cfg, "runs": runs, "cost": 20 if slow else 10, "maxiter": 2 if slow else 3})
    for ci in range(m):
      rng = Rng("C11t", seed, name, ci)
      cfg = t.cfg(rng)
      if cfg.get("linesearch") == "hager-zhang":
        cfg["linesearch"] = "zoom"
      runs = []
      for r in range(2):
        rr = Rng("C11tr", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30), "ops": [dict(o, op=rr.choice(["solve", "solve", "step"]), fault="exc" if o["fault"] == "base" else o["fault"]) for o in gen_ops(rr, ["solve"], 2)]})
        runs[-1]["ops"][0]["fault"] = "exc"
      jobs.append({"kind": "trace", "template": name, "cfg": cfg, "runs": runs, "cost": 10})
  for name in HOST:
    for ci in range(m):
      rng = Rng("C11h", seed, name, ci)
      cfg = C.REG[name].cfg(rng)
      if cfg.get("linesearch") == "hager-zhang":
        cfg["linesearch"] = "backtracking"
      runs = []
      for r in range(10):
        rr = Rng("C11hr", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30), "ops": [dict(o, fault="exc" if o["fault"] == "base" else o["fault"]) for o in gen_ops(rr, ["solve", "step"], 4)]})
      jobs.append({"kind": "host", "template": name, "cfg": cfg, "runs": runs, "cost": 8})
  for name in S.SCI:
    for ci in range(3 * m):
      rng = Rng("C11s", seed, name, ci)
      cfg = S.SCI[name].cfg(rng)
      runs = []
      for r in range(5):
        rr = Rng("C11sr", seed, name, ci, r)
        runs.append({"data": rr.getrandbits(30), "ops": gen_ops(rr, ["solve"], 4), "cb": "Minimize" in name and rr.chance(0.5)})
      jobs.append({"kind": "scipy", "template": name, "cfg": cfg, "runs": runs, "cost": 6})
  for name in TOOLS:
    runs = []
    for r in range(6 if tier == "quick" else 40):
      rr = Rng("C11x", seed, name, r)
      runs.append({"data": rr.getrandbits(30), "ops": gen_ops(rr, ["solve"], 4)})
    jobs.append({"kind": "tools", "template": name, "cfg": {}, "runs": runs, "cost": 5})
  for j in jobs:
    j["x64"] = True
  return jobs


def shrink(job, run):
  for ops in common.ddmin_ops(run["ops"]):
    yield dict(run, ops=ops)
  for i, o in enumerate(run["ops"]):
    if o["fault"] != "none":
      yield dict(run, ops=run["ops"][:i] + [dict(o, fault="none")] + run["ops"][i + 1:])


def nontrivial(r):
  return sum(r["faults"].values()) > 0 and r["probes"].get("completed_after_exception", 0) > 0


# ---------------------------------------------------------------------------------------------------------------- global settings
def settings():
  """Everything process-wide that an aborted call could leave changed."""
  cfg = {}
  for k in sorted(jax.config.values):
    try:
      cfg[k] = repr(getattr(jax.config, k))
    except Exception:  # pylint: disable=broad-except
      pass
  st = np.random.get_state()
  return {"jax.config": cfg, "numpy.errstate": np.geterr(), "warnings": len(warnings.filters), "numpy.random": (st[0], digest_tree(st[1]), st[2:]),
          "random": hash(random.getstate()), "trace state clean": jax.core.trace_ctx.is_top_level() if hasattr(jax.core, "trace_ctx") else True}


def same_settings(sim, before):
  after = settings()
  if after != before:
    bad = [k for k in before if before[k] != after[k]]
    if bad == ["jax.config"]:
      bad = [k for k in before["jax.config"] if before["jax.config"][k] != after["jax.config"].get(k)]
    sim.check(False, "global-setting-changed", f"after the exception: {bad}")


# ------------------------------------------------------------------------------------------------------------------------- driver
class Objects:
  """The objects under test of one run, and twins that never see an exception."""

  def __init__(self, perform, shared, solo, bomb):
    self.perform, self.shared, self.solo, self.bomb = perform, shared, solo, bomb
    self.want = {}

  def expected(self, op, who):
    k = (op, who)
    if k not in self.want:
      self.bomb.arm()
      r = self.perform(self.solo, op, who, None)
      self.want[k] = (np_tree(r), self.bomb.count)
    return self.want[k]


def drive(sim, o, ops, passed_in, exact=True, host=False):
  """Performs ops on the shared object; every completed one must equal its twin."""
  base = settings()
  snap = copy.deepcopy(np_tree(passed_in))
  aborted = 0
  for i, op in enumerate(ops):
    w, n = o.expected(op["op"], op["who"])
    at = None
    if op["fault"] != "none" and n > 0:
      at = min(n, 1 + int(op["at"] * n))
    err = r = None
    o.bomb.arm(at, op["fault"])
    try:
      r = o.perform(o.shared, op["op"], op["who"], op)
      r = np_tree(r)
    except (Exception, SimInterrupt) as e:  # pylint: disable=broad-except
      err = e
    fired = o.bomb.fired
    sim.evals += o.bomb.count
    o.bomb.arm()
    sim.log(i, op["op"], op["who"], at, type(err).__name__)
    d = tree_diff(snap, np_tree(passed_in), dtypes=True)
    sim.check(d is None, "caller-object-modified", lambda: f"operation {i} ({op['op']}): {d}")
    same_settings(sim, base)
    if fired:
      aborted += 1
      sim.fault(("host_" if host else "") + ("interrupt" if op["fault"] == "base" else "exception"))
      sim.check(err is not None, "exception-swallowed", lambda: f"operation {i} ({op['op']}): a user function raised at evaluation {at} of {n} and a result was returned")
      ok = TOKEN in str(err) if host else isinstance(err, (SimFault, SimInterrupt))
      sim.check(ok, "exception-replaced", lambda: f"operation {i} ({op['op']}): a user function raised {TOKEN}, the caller got {err!r:.300}")
      continue
    if err is not None:
      if isinstance(err, SimInterrupt) or aborted == 0:
        raise err
      sim.check(False, "aborted-call-left-a-trace", f"operation {i} ({op['op']}) fails with {err!r:.300} after an aborted call, and succeeds on an object that saw none")
    sim.steps += 1
    if aborted:
      sim.probe("completed_after_exception")
    d = tree_diff(w, r)
    if d is not None and not exact:
      d = tree_diff(w, r, 1e-9, 1e-12)
    sim.check(d is None, "aborted-call-left-a-trace", lambda: f"operation {i} ({op['op']}, problem {op['who']}) after {aborted} aborted calls differs from an object that saw none: {d}")
    sim.log(digest_tree(r))


def call_run(name, solver, prob):
  return tuple(solver.run(prob.init, *prob.args, **prob.kwargs))


def solver_ops(job, t, probs, bomb, sim):
  name = job["template"]

  def perform(solver, op, who, spec):
    pr = probs[who]
    if op == "solve":
      return call_run(name, solver, pr)
    if op == "init":
      return t.start(solver, pr)
    if op == "iterator":
      def data():
        for k in range(4):
          yield jax.tree_util.tree_map(lambda x: x * (1 + 0.1 * k), pr.kwargs["data"])
      return tuple(solver.run_iterator(pr.init, data(), *pr.args))
    if op == "grad":
      f = lambda a: sum(jnp.sum(jnp.cos(l)) for l in jax.tree_util.tree_leaves(solver.run(pr.init, *a, **pr.kwargs).params))
      return jax.grad(f)(pr.args)
    # step: three updates; an aborted one is tried again from the saved pair
    if bomb.at is None:
      p, s = t.start(solver, pr)
      out = []
      for _ in range(3):
        p, s = common.step(solver, p, s, pr)
        out.append((p, s))
      return out
    at, kind = bomb.at, bomb.kind
    bomb.arm(at, kind)
    fired = False
    while True:
      try:
        p, s = t.start(solver, pr)
        break
      except (SimFault, SimInterrupt):
        fired = True
    out = []
    for _ in range(3):
      held = copy.deepcopy(np_tree((p, s)))
      try:
        q = common.step(solver, p, s, pr)
        jax.block_until_ready(tuple(q))
      except (Exception, SimInterrupt) as e:  # pylint: disable=broad-except
        if not bomb.fired or fired:
          raise
        fired = True
        sim.fault("aborted_update")
        sim.check(isinstance(e, (SimFault, SimInterrupt)) or TOKEN in str(e), "exception-replaced", lambda: f"update: {e!r:.300}")  # pylint: disable=cell-var-from-loop
        d = tree_diff(held, np_tree((p, s)), dtypes=True)
        sim.check(d is None, "saved-state-modified", lambda: d)  # pylint: disable=cell-var-from-loop
        q = common.step(solver, p, s, pr)
        sim.probe("completed_after_exception")
      p, s = q
      out.append((p, s))
    bomb.fired = False
    return out
  return perform


def do_solver(job, run, ctx, sim):
  name, cfg, kind = job["template"], job["cfg"], job["kind"]
  t = C.REG[name]
  jit = kind != "eager"
  probs = [C.problem(name, cfg, run["data"], j) for j in range(2)]
  passed = [(p.init, p.args, p.kwargs) for p in probs]
  if "bomb" not in ctx or kind == "trace":
    ctx["bomb"] = Bomb()
    ctx["tap"] = host_tap(ctx["bomb"]) if kind == "host" else ctx["bomb"]
    ctx["objs"] = None
  bomb = ctx["bomb"]
  P.TAP[0] = ctx["tap"]
  try:
    if ctx["objs"] is None:
      ctx["objs"] = [make(job, bomb, jit=jit) for _ in range(2)]
    perform = solver_ops(job, t, probs, bomb, sim)
    o = Objects(perform, ctx["objs"][0], ctx["objs"][1], bomb)
    if kind == "trace":
      # Every operation of the twin is traced by a twin of its own: evaluations are counted while tracing.
      def expected(op, who):
        k = op
        if k not in o.want:
          bomb.arm()
          twin = make(job, bomb, jit=True)
          o.want[k] = (twin, None)
          r = np_tree(perform(twin, op, who, None))
          o.want[(k, who)] = (r, bomb.count)
        if (k, who) not in o.want:
          bomb.arm()
          o.want[(k, who)] = (np_tree(perform(o.want[k][0], op, who, None)), max(n for (kk, n) in [(kk, v[1]) for kk, v in o.want.items()] if n is not None))
        return o.want[(k, who)]
      o.expected = expected
    drive(sim, o, run["ops"], passed, exact=kind != "trace", host=kind == "host")
  finally:
    P.TAP[0] = None
    bomb.arm()


def do_scipy(job, run, ctx, sim):
  name, cfg = job["template"], job["cfg"]
  t = S.SCI[name]
  probs = [t.problem(Rng("C11p", run["data"], j), cfg) for j in range(2)]
  bomb = Bomb()
  P.TAP[0] = None if run["cb"] else bomb
  try:
    opts = t.options(cfg)
    keep = copy.deepcopy(opts)
    mk = lambda o: t.make(cfg, options=o, jit=False, **({"callback": lambda x: bomb.tick()} if run["cb"] else {}))
    shared, solo = mk(opts), mk(copy.deepcopy(opts))
    o = Objects(lambda s, op, who, spec: call_run(name, s, probs[who]), shared, solo, bomb)
    drive(sim, o, run["ops"], [(p.init, p.args, p.kwargs) for p in probs])
    sim.check(repr(opts) == repr(keep), "caller-object-modified", lambda: f"options {opts} were {keep}")
  finally:
    P.TAP[0] = None


# -------------------------------------------------------------------------------------------------------------------------- tools
def t_perturbed(kind):
  def build(bomb):
    def f(x):
      bomb.tick()
      return jax.nn.one_hot(jnp.argmax(x, axis=-1), x.shape[-1])

    def g(x):
      bomb.tick()
      return jnp.max(x, axis=-1)
    op = {"argmax": lambda: perturbations.make_perturbed_argmax(f, num_samples=5, sigma=0.5), "max": lambda: perturbations.make_perturbed_max(f, num_samples=5, sigma=0.5),
          "fun": lambda: perturbations.make_perturbed_fun(g, num_samples=5, sigma=0.5)}[kind]()
    return lambda x, A, key: (op(x, key), jax.grad(lambda x: jnp.sum(op(x, key) * jnp.cos(jnp.arange(1.0, 1.0 + jnp.size(op(x, key))))))(x))
  return build


def t_linear(solve):
  def build(bomb):
    def mv(A, v):
      bomb.tick()
      return A @ v
    return lambda x, A, key: solve(lambda v: mv(A @ A.T + jnp.eye(len(x)), v), x)
  return build


def t_loop(bomb):
  def body(v):
    bomb.tick()
    return (v[0] * 0.5 + 1, v[1] + 1)

  def cond(v):
    bomb.tick()
    return jnp.sum(v[0] ** 2) > 0.1
  return lambda x, A, key: loop.while_loop(cond, body, (x, 0), maxiter=6, unroll=True, jit=False)


def t_root(bomb):
  def F(x, th, A):
    bomb.tick()
    return A @ A.T @ x + 2 * x - th

  @implicit_diff.custom_root(F)
  def solve(init, th, A):
    bomb.tick()
    return jnp.linalg.solve(A @ A.T + 2 * jnp.eye(len(th)), th)
  return lambda x, A, key: (solve(None, x, A), jax.jacrev(solve, argnums=1)(None, x, A), jax.grad(lambda a: jnp.sum(solve(None, x, a) ** 2))(A))


def t_fixed(bomb):
  def T(x, th, A):
    bomb.tick()
    return 0.1 * jnp.tanh(A @ x) + th

  @implicit_diff.custom_fixed_point(T)
  def solve(init, th, A):
    x = th
    for _ in range(30):
      x = T(x, th, A)
    return x
  return lambda x, A, key: (solve(None, x, A), jax.jacrev(solve, argnums=1)(None, x, A))


def t_lsq_qp(bomb):
  def mv(M, v):
    bomb.tick()
    return M @ v
  s = jaxopt.EqualityConstrainedQP(matvec_Q=mv, matvec_A=mv, solve=linear_solve.solve_gmres)

  def f(x, A, key):
    r = s.run(params_obj=(A @ A.T + jnp.eye(len(x)), x), params_eq=(A[:2], x[:2]))
    return r.params
  return f


def t_lsearch(cls):
  def build(bomb):
    def fun(p, A):
      bomb.tick()
      return jnp.sum((A @ p) ** 2) + jnp.sum(p ** 4)
    ls = cls(fun, jit=False, maxiter=6)
    return lambda x, A, key: ls.run(0.7, x, descent_direction=-jax.grad(fun)(x, A), fun_args=(A,))
  return build


def t_optax(bomb):
  def upd(g, s, p=None):
    bomb.tick()
    return jax.tree_util.tree_map(lambda x: -0.1 * x, g), s
  opt = optax.GradientTransformation(lambda p: optax.EmptyState(), upd)
  s = jaxopt.OptaxSolver(lambda p, A: jnp.sum((A @ p - 1) ** 2), opt, jit=False, maxiter=3)
  return lambda x, A, key: tuple(s.run(x, A))


TOOLS = {"perturbed_argmax": t_perturbed("argmax"), "perturbed_max": t_perturbed("max"), "perturbed_fun": t_perturbed("fun"),
         "solve_cg": t_linear(linear_solve.solve_cg), "solve_normal_cg": t_linear(linear_solve.solve_normal_cg), "solve_gmres": t_linear(linear_solve.solve_gmres),
         "solve_bicgstab": t_linear(linear_solve.solve_bicgstab), "solve_lu": t_linear(linear_solve.solve_lu), "while_loop": t_loop, "custom_root": t_root,
         "custom_fixed_point": t_fixed, "eq_qp": t_lsq_qp, "BacktrackingLineSearch": t_lsearch(jaxopt.BacktrackingLineSearch),
         "ZoomLineSearch": t_lsearch(jaxopt.ZoomLineSearch), "optax_update": t_optax}


def do_tools(job, run, ctx, sim):
  bomb = Bomb()
  f = TOOLS[job["template"]]
  shared, solo = f(bomb), f(bomb)
  probs = []
  for j in range(2):
    r = Rng("C11tool", run["data"], j).np()
    probs.append((jnp.asarray(r.randn(4)), jnp.asarray(r.randn(4, 4)), jax.random.PRNGKey(r.randint(1000))))
  o = Objects(lambda s, op, who, spec: s(*probs[who]), shared, solo, bomb)
  drive(sim, o, run["ops"], probs)


def execute(job, run, ctx, sim):
  {"eager": do_solver, "trace": do_solver, "host": do_solver, "scipy": do_scipy, "tools": do_tools}[job["kind"]](job, run, ctx, sim)
