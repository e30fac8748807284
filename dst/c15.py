"""C15: perturbed operators are a function of their key and arguments alone, and are the promised Monte-Carlo estimators of them.

Randomness is the seam: the noise distribution is an argument of the operators, so the simulator supplies it (the shipped Normal and Gumbel behind a recording
wrapper, and its own distributions), chooses every key, and schedules histories of requests - values, forward and reverse derivatives, eager, compiled and
batched - on several operators that share one distribution object, with functions that raise while being traced, poisoned batch neighbours, cleared compilation
caches and repetitions in another order. Oracle: the estimator written down in NumPy on the samples of the key (mean of exactly num_samples perturbed outputs;
score-function Jacobian with the same samples, with and without control variate); the same request gives the same bits whenever it is made.
"""
import jax
import jax.numpy as jnp
import numpy as np
from jaxopt import perturbations as pt

from dst import common
from dst.core import Rng, SimFault, digest_tree

LEVEL = "exploration"
RULE = ("A case is a history of requests (operator, mode, key, point) to operators sharing a noise distribution, with faults. Non-trivial: two requests or more, one of them a "
        "derivative or after a fault. Distinct: by hash of the event log with digests of the results.")
REAL = ["make_perturbed_argmax, make_perturbed_max, make_perturbed_fun (values and derivative rules)", "Normal and Gumbel", "JAX transformations"]
STUB = ["the function that is perturbed", "recording wrapper around the distributions, two distributions of the simulator (logistic, Laplace)", "NumPy estimator"]
ASSUMPTIONS = ["x64; comparisons between execution modes up to 1e-9", "samples of a key are those its distribution returns for (num_samples,) + input shape; that Normal and Gumbel are what they are called is judged statistically on fixed keys",
               "make_perturbed_max and the second derivative: without control variate, as documented"]


class Logistic:
  def sample(self, seed, sample_shape):
    return jax.random.logistic(seed, sample_shape)

  def log_prob(self, z):
    return -z - 2.0 * jnp.log1p(jnp.exp(-z))


class Laplace:
  def sample(self, seed, sample_shape):
    return jax.random.laplace(seed, sample_shape)

  def log_prob(self, z):
    return -jnp.abs(z)


NOISE = {"normal": pt.Normal, "gumbel": pt.Gumbel, "logistic": Logistic, "laplace": Laplace}
SCORE = {"normal": lambda z: z, "gumbel": lambda z: 1.0 - np.exp(-z), "logistic": lambda z: np.tanh(z / 2.0), "laplace": np.sign}


class Recorder:
  """The simulator's seam: records what is drawn; never changes it."""

  def __init__(self, kind):
    self.base = NOISE[kind]()
    self.shapes = []

  def sample(self, seed, sample_shape):
    self.shapes.append(tuple(sample_shape))
    return self.base.sample(seed, sample_shape)

  def log_prob(self, z):
    return self.base.log_prob(z)


def onehot(x):
  return jax.nn.one_hot(jnp.argmax(jnp.ravel(x)), x.size, dtype=x.dtype).reshape(x.shape)


def rank(x):
  return jnp.argsort(jnp.argsort(jnp.ravel(x))).reshape(x.shape).astype(x.dtype)


def topk(x):
  return (jnp.ravel(x)[:, None] < jnp.ravel(x)[None, :]).sum(1).reshape(x.shape) < 2


ARGMAX = {"onehot": onehot, "rank": rank, "topk": lambda x: topk(x).astype(x.dtype), "signs": jnp.sign, "softmax": lambda x: jax.nn.softmax(x.ravel()).reshape(x.shape)}
FUN = {"relu": jax.nn.relu, "sum": lambda x: jnp.sum(x ** 2), "keep": lambda x: jnp.sum(jnp.abs(x), keepdims=True), "outer": lambda x: jnp.outer(x.ravel(), jnp.cos(x.ravel())),
       "column": lambda x: jnp.floor(x.ravel())[:, None], "max": jnp.max, "step": lambda x: (x > 0.2).astype(x.dtype), "row": lambda x: jnp.stack([x.ravel(), x.ravel() ** 2])[None]}
MODES = [("value", 2), ("jit", 2), ("vmap", 2), ("jvp", 2), ("vjp", 2), ("jacrev", 1), ("jacfwd", 1), ("vmapjac", 2), ("hess", 1), ("rngkw", 1)]


def plan(seed, tier):
  q = tier == "quick"
  jobs = []
  for i in range(24 if q else 200):
    rng = Rng("C15", seed, i)
    ops = []
    shape = rng.choice([[3], [5], [1], [2, 3], [4], [3, 1], [2, 2, 2]])
    for o in range(2):
      kind = ("argmax", "max", "fun")[(i + o) % 3]
      ops.append({"kind": kind, "f": rng.choice(sorted(ARGMAX) if kind != "fun" else sorted(FUN)), "N": rng.choice([1, 2, 7, 30, 200]), "sigma": rng.choice([0.01, 0.1, 0.7, 3.0]),
                  "cv": rng.chance(0.5) if kind != "max" else False})
    cfg = {"shape": shape, "noise": ("normal", "gumbel", "logistic", "laplace", None)[i % 5] or "default", "ops": ops}
    modes = [m for m in MODES if m[0] in ("value", "jit")] + rng.sample([m for m in MODES if m[0] not in ("value", "jit")], 4)
    runs = []
    for r in range(8 if q else 30):
      rr = Rng("C15r", seed, i, r)
      hist = []
      for _ in range(rr.randrange(3, 8)):
        hist.append({"op": rr.randrange(2), "mode": rr.weighted(modes), "key": rr.randrange(6), "x": rr.randrange(5), "w": rr.getrandbits(20), "fault": rr.weighted([(None, 6), ("raise", 1), ("clear", 0.3)]), "lane": rr.choice(["ok", "nan"])})
      hist += [dict(h, fault=None) for h in rr.sample(hist, min(2, len(hist)))]
      runs.append({"ops": hist})
    jobs.append({"template": "operator", "cfg": cfg, "x64": True, "cost": 6, "runs": runs})
  for i in range(4 if q else 12):
    jobs.append({"template": "distribution", "cfg": {"i": i}, "x64": True, "cost": 2, "runs": [{"noise": n, "key": Rng("C15k", seed, i, n, r).getrandbits(30), "shape": s}
                                                                                             for n in ("normal", "gumbel") for r, s in enumerate(([20000], [2000, 10], [100, 20, 10]))]})
  return jobs


def shrink(job, run):
  if "ops" in run:
    for ops in common.ddmin_ops(run["ops"]):
      yield dict(run, ops=ops)


def nontrivial(r):
  return r["probes"].get("compared", 0) >= 2 or r["probes"].get("distribution", 0) >= 1


def get(ctx, key, make):
  if key not in ctx:
    ctx[key] = make()
  return ctx[key]


def cdf(kind, z):
  if kind == "gumbel":
    return np.exp(-np.exp(-z))
  from math import erf
  return 0.5 * (1.0 + np.vectorize(erf)(z / np.sqrt(2.0)))


def distribution(run, sim):
  """That the shipped distributions are what they are called, on fixed keys."""
  kind = run["noise"]
  d = NOISE[kind]()
  key = jax.random.PRNGKey(run["key"])
  z = np.asarray(d.sample(key, tuple(run["shape"])))
  sim.check(z.shape == tuple(run["shape"]), "sample-shape", f"{kind}: asked for {run['shape']}, got {z.shape}")
  sim.check(np.array_equal(z, np.asarray(d.sample(seed=key, sample_shape=tuple(run["shape"])))), "not-repeatable", f"{kind}: the same key gave other samples")
  v = np.sort(z.ravel())
  n = len(v)
  ks = np.sqrt(n) * np.max(np.abs(cdf(kind, v) - (np.arange(n) + 0.5) / n))
  sim.check(ks < 3.0, "wrong-distribution", f"{kind}: Kolmogorov-Smirnov statistic {ks:.2f} on {n} samples")
  sim.check(len(np.unique(v)) > 0.9 * n, "repeated-samples", f"{kind}: only {len(np.unique(v))} distinct values among {n}")
  u = cdf(kind, z.ravel()) - 0.5
  for lag in (1, 10, z.shape[-1]):
    if lag < n // 2:
      c = np.sqrt(n) * np.mean(u[lag:] * u[:-lag]) * 12
      sim.check(abs(c) < 7.0, "dependent-samples", f"{kind}: autocorrelation at lag {lag} is {c:.1f} standard errors")
  other = np.asarray(d.sample(jax.random.PRNGKey(run["key"] + 1), tuple(run["shape"])))
  sim.check(np.mean(other == z) < 0.01, "key-ignored", f"{kind}: two keys give the same samples")
  pts = np.linspace(-2, 3, 11)
  ld = {"normal": lambda t: -0.5 * t ** 2, "gumbel": lambda t: -t - np.exp(-t)}[kind]
  got = np.asarray(d.log_prob(jnp.asarray(pts)))
  sim.check(np.allclose(got - got[0], ld(pts) - ld(pts)[0], rtol=1e-9, atol=1e-9), "wrong-density", f"{kind}: log-density {got - got[0]}, expected {ld(pts) - ld(pts)[0]}")
  sim.probe("distribution")
  sim.steps += 1
  sim.log(kind, run["key"], digest_tree(z))


class Op:
  def __init__(self, spec, noise, kind):
    self.spec, self.noise, self.kind = spec, noise, kind
    self.fail = False
    table = FUN if spec["kind"] == "fun" else ARGMAX
    self.plain = jax.jit(jax.vmap(table[spec["f"]]))
    f0 = table[spec["f"]]

    def f(x):
      if self.fail:
        raise SimFault("user function")
      return f0(x)
    kw = dict(num_samples=spec["N"], sigma=spec["sigma"])
    if noise is not None:
      kw["noise"] = noise
    if spec["kind"] == "argmax":
      self.fun = pt.make_perturbed_argmax(f, control_variate=spec["cv"], **kw)
    elif spec["kind"] == "max":
      self.fun = pt.make_perturbed_max(f, **kw)
    else:
      self.fun = pt.make_perturbed_fun(f, control_variate=spec["cv"], **kw)

  def samples(self, key, shape):
    return np.asarray(NOISE[self.kind]().sample(key, (self.spec["N"],) + shape))

  def outputs(self, x, key):
    z = self.samples(key, x.shape)
    pts = x + self.spec["sigma"] * z
    return z, pts, np.asarray(self.plain(jnp.asarray(pts)))

  def value(self, x, key):
    _, pts, out = self.outputs(x, key)
    if self.spec["kind"] == "max":
      return np.mean(np.sum((pts * out).reshape(len(pts), -1), axis=1))
    return np.mean(out, axis=0)

  def estimator(self, x, key):
    """Score-function Jacobian of the mean output, shape output + input."""
    z, _, out = self.outputs(x, key)
    nu = SCORE[self.kind](z)
    if self.spec["cv"]:
      out = out - np.asarray(self.plain(jnp.asarray(x)[None]))[0]
    return np.tensordot(out, nu, axes=(0, 0)) / (len(z) * self.spec["sigma"])

  def jac(self, x, key):
    if self.spec["kind"] == "max":
      return np.mean(self.outputs(x, key)[2], axis=0)
    return self.estimator(x, key)


def execute(job, run, ctx, sim):
  if job["template"] == "distribution":
    return distribution(run, sim)
  cfg = job["cfg"]
  shape = tuple(cfg["shape"])
  kind = "gumbel" if cfg["noise"] == "default" else cfg["noise"]

  def make():
    noise = None if cfg["noise"] == "default" else Recorder(kind)
    return noise, [Op(s, noise, kind) for s in cfg["ops"]]
  noise, ops = get(ctx, "ops", make)
  point = lambda i: Rng("C15x", i, str(shape)).np().randn(*shape)
  tkey = lambda k: jax.random.key(k) if k == 5 else jax.random.PRNGKey(1000 + k)
  seen = ctx.setdefault("seen", {})

  for k, h in enumerate(run["ops"]):
    i = h["op"]
    op, mode = ops[i], h["mode"]
    if mode == "hess" and op.spec["kind"] != "max":
      mode = "jacrev"
    x, key = point(h["x"]), tkey(h["key"])
    xj = jnp.asarray(x)
    w = Rng("C15w", h["w"]).np()
    what = f"request {k} ({op.spec['kind']} of {op.spec['f']}, {mode}, key {h['key']}, {op.spec['N']} samples{', control variate' if op.spec['cv'] else ''})"
    before = len(noise.shapes) if noise else 0
    out_shape = () if op.spec["kind"] == "max" else np.shape(op.value(x, key))
    t, c = w.randn(*shape), w.randn(*out_shape)

    def build():
      f = op.fun
      if mode == "value":
        return f
      if mode == "rngkw":
        return lambda x, r: f(x, rng=r)
      if mode == "jit":
        return jax.jit(lambda x, r: f(x, r))
      if mode == "vmap":
        return jax.jit(jax.vmap(f))
      if mode == "jvp":
        return jax.jit(lambda x, r, t: jax.jvp(lambda v: f(v, r), (x,), (t,)))
      if mode == "vjp":
        return lambda x, r, c: jax.vjp(lambda v: f(v, r), x)[1](c)[0]
      if mode == "jacrev":
        return jax.jit(jax.jacrev(f))
      if mode == "jacfwd":
        return jax.jacfwd(f)
      if mode == "vmapjac":
        return jax.jit(jax.vmap(jax.jacrev(f)))
      return jax.jit(jax.jacfwd(jax.grad(f)))

    if h["fault"] == "clear":
      jax.clear_caches()
      for kk in [q for q in ctx if isinstance(q, tuple) and q[0] == "fn"]:
        del ctx[kk]
      sim.fault("caches_cleared")
    args = {"jvp": (xj, key, jnp.asarray(t)), "vjp": (xj, key, jnp.asarray(c))}.get(mode, (xj, key))
    if mode in ("vmap", "vmapjac"):
      o = point(h["x"] + 7) * (np.nan if h["lane"] == "nan" else 1.0)
      if h["lane"] == "nan":
        sim.fault("nan_lane")
      args = (jnp.stack([xj, jnp.asarray(o), xj]), jnp.stack([key, tkey((h["key"] + 1) % 5) if h["key"] != 5 else jax.random.key(77), tkey((h["key"] + 2) % 5) if h["key"] != 5 else jax.random.key(78)]))
    if h["fault"] == "raise":
      op.fail = True
      try:
        build()(*args)
        sim.check(False, "exception-lost", f"{what}: the function raised and the operator returned")
      except SimFault:
        sim.fault("function_raises")
      finally:
        op.fail = False
    fn = get(ctx, ("fn", i, mode), build)
    got = fn(*args)
    if noise:
      for s in noise.shapes[before:]:
        sim.check(s == (op.spec["N"],) + shape, "sample-count", f"{what}: drew samples of shape {s}")
    a = lambda v: np.asarray(v)
    pairs = []
    if mode in ("value", "jit", "rngkw"):
      pairs = [("value", a(got), op.value(x, key))]
    elif mode == "vmap":
      pairs = [("value of element 0", a(got)[0], op.value(x, args[1][0])), ("value of element 2", a(got)[2], op.value(x, args[1][2]))]
    elif mode == "vmapjac":
      pairs = [("Jacobian of element 0", a(got)[0], op.jac(x, args[1][0])), ("Jacobian of element 2", a(got)[2], op.jac(x, args[1][2]))]
    elif mode == "jvp":
      J = op.jac(x, key)
      pairs = [("value", a(got[0]), op.value(x, key)), ("forward derivative", a(got[1]), np.tensordot(J, t, axes=len(shape)))]
    elif mode == "vjp":
      J = op.jac(x, key)
      pairs = [("reverse derivative", a(got), np.tensordot(c, J, axes=len(out_shape)))]
    elif mode == "hess":
      pairs = [("second derivative", a(got), op.estimator(x, key))]
    else:
      pairs = [("Jacobian", a(got), op.jac(x, key))]
    for name, g, r in pairs:
      r = np.asarray(r)
      sim.check(g.shape == r.shape, "wrong-shape", lambda: f"{what}: {name} has shape {g.shape}, expected {r.shape}")
      d = np.max(np.abs(g - r), initial=0.0)
      scale = 1.0 + np.max(np.abs(r), initial=0.0)
      sim.check(d <= 1e-9 * scale * max(1.0, 1.0 / op.spec["sigma"]), "wrong-" + name.split(" of ")[0].replace(" ", "-"), lambda: f"{what}: {name} {g.ravel()[:5]}, the estimator gives {r.ravel()[:5]} (difference {d:.3g})")
    sim.probe("compared")
    sim.probe("mode_" + mode)
    sim.steps += 1
    sim.evals += op.spec["N"]
    if mode in ("vmap", "vmapjac"):
      got = a(got)[[0, 2]]
    dg = digest_tree(got)
    sim.log(k, i, mode, h["key"], h["x"], dg)
    me = (i, mode, h["key"], h["x"], h["w"] if mode in ("jvp", "vjp") else 0, h["lane"] if mode.startswith("vmap") else 0)
    if me in seen:
      sim.check(seen[me] == dg, "not-repeatable", f"{what}: an identical earlier request gave other bits")
      sim.probe("repeated")
    seen[me] = dg
