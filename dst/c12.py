"""C12: the bridge to SciPy is a faithful conversation.

Worlds: (script) scipy.optimize.minimize / root / least_squares are replaced by a scripted SciPy that asks for the function and its derivative at
points of its choosing, reuses and scribbles over its buffers, announces iterates, stops early, fails, raises, and reports whatever result it likes;
one solver object serves several such conversations, one inside another's callback. (real) the real SciPy behind a recorder.
Oracle: NumPy formulas of the user's functions, and the record of what was asked, announced and reported.
"""
import inspect

import jax
import jax.numpy as jnp
import numpy as np
import scipy
import scipy.optimize
from scipy.optimize import LbfgsInvHessProduct, OptimizeResult
from scipy.optimize._optimize import _call_callback_maybe_halt, _wrap_callback
import jaxopt
from jaxopt._src import scipy_wrappers

from dst.core import Rng, SimFault, Violation, from_repo

LEVEL = "exploration"
RULE = ("A case is one solver object and one to three conversations with SciPy, scripted (evaluation requests with reused, strided, read-only or scribbled buffers, "
        "announcements, early stops, failures, exceptions, arbitrary results, nested conversations) or real (recorded). Non-trivial: SciPy asked for at least one "
        "evaluation or announced one iterate, and reported a result or a failure. Distinct: by hash of the event log with digests of the points and results.")
REAL = ["ScipyMinimize, ScipyBoundedMinimize, ScipyRootFinding, ScipyLeastSquares, ScipyBoundedLeastSquares, compiled and eager", "scipy.optimize in the real world"]
STUB = ["scipy.optimize.minimize, root and least_squares in the scripted world"]
ASSUMPTIONS = ["SciPy is called through scipy.optimize.minimize, root and least_squares (whatever the argument style)"]
KINDS = ["ScipyMinimize", "ScipyBoundedMinimize", "ScipyRootFinding", "ScipyLeastSquares", "ScipyBoundedLeastSquares"]
MIN_M = ["BFGS", "L-BFGS-B", "CG", "SLSQP", "TNC", "Nelder-Mead", "Powell", "trust-constr", "COBYLA", "Newton-CG", "COBYQA", None]
BND_M = ["L-BFGS-B", "SLSQP", "TNC", "Powell", "Nelder-Mead", "trust-constr", "COBYQA", "COBYLA"]
ROOT_M = ["hybr", "lm", "broyden1", "broyden2", "anderson", "krylov", "df-sane", "diagbroyden"]
LS_M = ["trf", "dogbox", "lm"]


# ---------------------------------------------------------------------------------------------------------- the caller's parameters
TREES = {
    "flat": [(4,)], "scalar": [()], "one": [(1,)], "mat": [(2, 3)], "dict": [(3,), ()], "nest": [(2,), (2, 2), ()], "tuple": [(1,), (2,)],
    "none": [(3,), (1,)], "empty": [(2,), (0,), (2,)], "deep": [(), (1, 2, 1), (3,)], "mixed": [(2,), (3,), ()],
}


def build(kind, ls):
  if kind in ("flat", "scalar", "one", "mat"):
    return ls[0]
  if kind == "dict":
    return {"b": ls[0], "z": ls[1]}
  if kind == "nest":
    return {"w": [ls[0], (ls[1],)], "z": ls[2]}
  if kind == "tuple":
    return tuple(ls)
  if kind == "none":
    return {"a": ls[0], "m": None, "q": (ls[1], None)}
  if kind == "empty":
    return list(ls)
  if kind == "deep":
    return ({"x": {"y": ls[0]}}, [[ls[1]], ls[2]])
  return [ls[0], {"k": ls[1]}, ls[2]]


class Shape:
  """Structure of the caller's parameters, flattened independently of the code under test."""

  def __init__(self, kind, x64):
    self.kind, self.shapes = kind, TREES[kind]
    d = np.float64 if x64 else np.float32
    self.dtypes = [d] * len(self.shapes)
    if kind == "mixed":
      self.dtypes[1] = np.float32
    self.n = sum(int(np.prod(s)) for s in self.shapes)

  def cast(self, v):
    """What the parameters are once in the caller's dtypes."""
    return np.concatenate([np.asarray(x, dt).ravel().astype(np.float64) for x, dt in zip(self.split(v), self.dtypes)]) if self.n else np.zeros(0)

  def split(self, v):
    out, i = [], 0
    for s in self.shapes:
      k = int(np.prod(s))
      out.append(np.array(v[i:i + k], dtype=np.float64).reshape(s))
      i += k
    return out

  def tree(self, v, mod=jnp):
    return build(self.kind, [mod.asarray(x, dt) if mod is jnp else np.asarray(x, dt) for x, dt in zip(self.split(v), self.dtypes)])

  def diff(self, t, v, what):
    """None, or how the tree t differs from the vector v in the caller's structure."""
    w = build(self.kind, self.split(v))
    sa, sb = jax.tree_util.tree_structure(t), jax.tree_util.tree_structure(w)
    if sa != sb:
      return f"{what} has structure {sa}, not {sb}"
    for i, (a, s, dt, x) in enumerate(zip(jax.tree_util.tree_leaves(t), self.shapes, self.dtypes, self.split(v))):
      if not isinstance(a, jax.Array):
        return f"leaf {i} of {what} is a {type(a).__name__}, not a JAX array"
      if a.shape != s or a.dtype != dt:
        return f"leaf {i} of {what} is {a.dtype}{a.shape}, not {np.dtype(dt)}{s}"
      if not np.array_equal(np.asarray(a), np.asarray(x, dt), equal_nan=True):
        return f"leaf {i} of {what} is {np.asarray(a).ravel()[:6]}, not {np.asarray(x, dt).ravel()[:6]}"
    return None


def vec(t):
  return jnp.concatenate([jnp.ravel(l) for l in jax.tree_util.tree_leaves(t)])


def unvec(v, like):
  ls, td = jax.tree_util.tree_flatten(like)
  out, i = [], 0
  for l in ls:
    k = int(np.prod(jnp.shape(l)))
    out.append(jnp.reshape(v[i:i + k], jnp.shape(l)).astype(l.dtype))
    i += k
  return jax.tree_util.tree_unflatten(td, out)


# --------------------------------------------------------------------------------------- the user's functions and their NumPy twins
class Fault:
  """Call counter shared with the eager objective: raises at the chosen call."""
  at = None
  count = 0


FT = Fault()


def tick(x):
  if isinstance(x, jax.core.Tracer):
    return
  FT.count += 1
  if FT.at is not None and FT.count == FT.at:
    raise SimFault("objective")


def fmin(p, c, w):
  v = vec(p)
  tick(c)
  return jnp.sum(w * (jnp.logaddexp(v - c, c - v) - np.log(2.0))) + 0.05 * jnp.dot(w, v) ** 2


def np_fmin(v, c, w):
  a = np.abs(v - c)
  return np.sum(w * (a + np.log1p(np.exp(-2 * a)) - np.log(2))) + 0.05 * np.dot(w, v) ** 2, w * np.tanh(v - c) + 0.1 * np.dot(w, v) * w


def fmin_vg(p, c, w):
  """A user's own gradient: deliberately not the gradient of the value."""
  v = vec(p)
  tick(c)
  g = 0.5 * w * jnp.tanh(v - c) + 0.02 * v
  return fmin(p, c, w), unvec(g, p)


def np_gown(v, c, w):
  return 0.5 * w * np.tanh(v - c) + 0.02 * v


def froot(p, A, b):
  v = vec(p)
  tick(b)
  return unvec(v + 0.3 * jnp.tanh(A @ v) - b, p)


def np_froot(v, A, b):
  t = np.tanh(A @ v)
  return v + 0.3 * t - b, np.eye(len(v)) + 0.3 * (1 - t ** 2)[:, None] * A


def fres(p, X, y):
  v = vec(p)
  tick(y)
  return jnp.tanh(X @ v) + 0.1 * (X @ v) - y


def fres_tree(p, X, y):
  r = fres(p, X, y)
  return {"a": r[:3], "m": (jnp.reshape(r[3:7], (2, 2)), r[7])}


def np_fres(v, X, y):
  z = X @ v
  return np.tanh(z) + 0.1 * z - y, (1 - np.tanh(z) ** 2 + 0.1)[:, None] * X


def aux_of(f):
  def g(p, *a, **k):
    return f(p, *a, **k), {"s": jnp.sum(vec(p)), "n": 3}
  return g


# ------------------------------------------------------------------------------------------------------------------------- plan
def gen_cfg(kind, rng):
  c = {"aux": rng.chance(0.3), "jit": rng.chance(0.7), "opts": rng.chance(0.6), "tol": rng.choice([None, 1e-3, 1e-9]), "jacrev": rng.chance(0.5),
       "kw": rng.chance(0.4), "dtype": rng.weighted([("f8", 8), ("none", 1), ("f4", 1)])}
  if "Minimize" in kind:
    c.update(method=rng.choice(MIN_M if kind == "ScipyMinimize" else BND_M), vg=rng.choice(["no", "yes", "call"]), cb=rng.chance(0.8),
             maxiter=rng.choice([1, 7, 100]))
  elif "Root" in kind:
    c.update(method=rng.choice(ROOT_M))
  else:
    c.update(method=rng.choice(LS_M if kind == "ScipyLeastSquares" else LS_M[:2]), xs=rng.choice(["no", "jac", "arr", "num", "int", "tree"]), restree=rng.chance(0.3))
    c["loss"] = "linear" if c["method"] == "lm" else rng.choice(["linear", "soft_l1", "huber", "cauchy", "arctan"])
  return c


def gen_talk(kind, cfg, rr, depth, tree):
  acts = []
  for _ in range(rr.randrange(0, 9)):
    if rr.chance(0.3):
      acts.append({"do": "announce", "pt": rr.choice(["new", "last", "x0"]), "buf": rr.choice(["own", "scribble", "strided"])})
    else:
      acts.append({"do": "ask", "pt": rr.weighted([("new", 8), ("last", 2), ("x0", 2), ("big", 1), ("zero", 1), ("nan", 1), ("bump", 2)]),
                   "buf": rr.choice(["own", "scribble", "strided", "readonly", "same"]), "what": rr.choice(["both", "f", "g"]), "scribble_out": rr.chance(0.4)})
  t = {"data": rr.getrandbits(30), "tree": tree if tree != "any" else rr.choice(list(TREES)), "np": rr.chance(0.3), "acts": acts,
       "end": rr.weighted([("ok", 6), ("fail", 3), ("raise", 1)]), "res": rr.getrandbits(30), "maxed": rr.chance(0.3),
       "cbfault": rr.weighted([("none", 6), ("stop", 2), ("exc", 1), ("true", 1)]) if cfg.get("cb") else "none", "cbat": rr.randrange(1, 4),
       "nofault": True, "inf": rr.chance(0.4), "nobounds": rr.chance(0.1)}
  if not cfg["jit"] and rr.chance(0.25):
    t["evalfault"] = rr.randrange(1, 9)
  if depth == 0 and cfg.get("cb") and rr.chance(0.25):
    t["nested"] = gen_talk(kind, dict(cfg, cb=False), rr, 1, rr.choice(["same", "any"]) if tree != "any" else "any")
    if t["nested"]["tree"] == "same":
      t["nested"]["tree"] = t["tree"]
  return t


def plan(seed, tier):
  jobs = []
  m = 1 if tier == "quick" else 10
  for kind in KINDS:
    for ci in range(14 * m):
      rng = Rng("C12", seed, kind, ci)
      cfg = gen_cfg(kind, rng)
      tree = rng.choice(list(TREES) + ["any"])
      x64 = rng.chance(0.8)
      runs = []
      for r in range(12):
        rr = Rng("C12run", seed, kind, ci, r)
        runs.append({"talks": [gen_talk(kind, cfg, rr, 0, tree) for _ in range(rr.choice([1, 2, 2, 3]))]})
      jobs.append({"kind": "script", "template": kind, "cfg": cfg, "x64": x64, "runs": runs, "cost": 6})
    for ci in range(8 * m):
      rng = Rng("C12r", seed, kind, ci)
      cfg = dict(gen_cfg(kind, rng), dtype="f8")
      ms = {"ScipyMinimize": MIN_M, "ScipyBoundedMinimize": BND_M, "ScipyRootFinding": ROOT_M, "ScipyLeastSquares": LS_M, "ScipyBoundedLeastSquares": LS_M[:2]}[kind]
      cfg["method"] = ms[(ci + seed) % len(ms)]
      if cfg["method"] == "lm":
        cfg["loss"] = "linear"
      tree = rng.choice(list(TREES))
      runs = []
      for r in range(3):
        rr = Rng("C12rrun", seed, kind, ci, r)
        t = gen_talk(kind, cfg, rr, 1, tree)
        runs.append({"talks": [t]})
      jobs.append({"kind": "real", "template": kind, "cfg": cfg, "x64": rng.chance(0.8), "runs": runs, "cost": 6})
  return jobs


def shrink(job, run):
  ts = run["talks"]
  for i in range(len(ts)):
    if len(ts) > 1:
      yield dict(run, talks=ts[:i] + ts[i + 1:])
  for i, t in enumerate(ts):
    put = lambda u, i=i: dict(run, talks=ts[:i] + [u] + ts[i + 1:])
    if "nested" in t:
      yield put({k: v for k, v in t.items() if k != "nested"})
    for j in range(len(t["acts"])):
      yield put(dict(t, acts=t["acts"][:j] + t["acts"][j + 1:]))
    if t["cbfault"] != "none":
      yield put(dict(t, cbfault="none"))


def nontrivial(r):
  return r["probes"].get("asked", 0) + r["probes"].get("announced", 0) > 0 and r["probes"].get("reported", 0) + r["probes"].get("aborted", 0) > 0


# ------------------------------------------------------------------------------------------------------------- solver under test
def make(kind, cfg, world):
  opts = {"disp": False} if cfg["opts"] else None
  dt = {"f8": np.float64, "f4": np.float32, "none": None}[cfg["dtype"]]
  common = dict(method=cfg["method"], has_aux=cfg["aux"], jit=cfg["jit"], dtype=dt)
  if "Minimize" in kind:
    f = fmin if cfg["vg"] == "no" else fmin_vg
    if cfg["aux"]:
      f = aux_of(fmin) if cfg["vg"] == "no" else (lambda p, *a, **k: (lambda o: ((o[0], {"s": 1.0}), o[1]))(fmin_vg(p, *a, **k)))
    vg = False if cfg["vg"] == "no" else True
    if cfg["vg"] == "call":
      vg, f = f, (aux_of(fmin) if cfg["aux"] else fmin)
    return getattr(jaxopt, kind)(fun=f, callback=world.callback if cfg["cb"] else None, tol=cfg["tol"], options=opts, maxiter=cfg["maxiter"], value_and_grad=vg, **common), opts
  if "Root" in kind:
    opts = None
    if cfg["opts"]:
      opts = {"hybr": {"xtol": 1e-7}, "lm": {"xtol": 1e-7}}.get(cfg["method"], {"fatol": 1e-7} if cfg["method"] != "df-sane" else {"fatol": 1e-7})
    return jaxopt.ScipyRootFinding(optimality_fun=aux_of(froot) if cfg["aux"] else froot, tol=cfg["tol"], options=opts, use_jacrev=cfg["jacrev"], **common), opts
  opts = {"max_nfev": 30, "f_scale": 0.7} if cfg["opts"] else None
  f = fres_tree if cfg["restree"] else fres
  return getattr(jaxopt, kind)(fun=aux_of(f) if cfg["aux"] else f, loss=cfg["loss"], options=opts, use_jacrev=cfg["jacrev"], **common), opts


class Abort(Exception):
  """Raised by the scripted SciPy itself."""


class Talk:
  """One conversation: the caller's side (data, parameters, callback) and the record of SciPy's side."""

  def __init__(self, job, spec, sim):
    self.job, self.spec, self.sim, self.cfg, self.kind = job, spec, sim, job["cfg"], job["template"]
    self.sh = Shape(spec["tree"], job["x64"])
    rng = Rng("C12data", spec["data"])
    r = rng.np()
    n = self.sh.n
    d = np.float64 if job["x64"] else np.float32
    self.x0 = self.sh.cast(r.randn(n))
    if "Minimize" in self.kind:
      self.args = (r.randn(n), np.abs(r.randn(n)) + 0.2)
      self.names = ("c", "w")
    elif "Root" in self.kind:
      self.args, self.names = (r.randn(n, n), r.randn(n)), ("A", "b")
    else:
      k = 8
      self.args, self.names = (r.randn(k, n), r.randn(k)), ("X", "y")
    self.args = tuple(np.asarray(a, d) for a in self.args)
    self.bounds = None
    if "Bounded" in self.kind and not spec["nobounds"]:
      lo, hi = self.sh.cast(self.x0 - np.abs(r.randn(n)) - 0.1), self.sh.cast(self.x0 + np.abs(r.randn(n)) + 0.1)
      if spec["inf"]:
        lo[rng.randrange(n)] = -np.inf
        hi[rng.randrange(n)] = np.inf
      self.bounds = (lo, hi)
    self.rng = r
    self.bad, self.asked, self.announced, self.heard = [], 0, [], []
    self.result = None
    self.called = 0
    self.raised = None
    self.rtol = 1e-8 if (job["x64"] and spec["tree"] != "mixed" and self.cfg["dtype"] == "f8") else 3e-4

  # ---- oracles
  def fail(self, cls, msg):
    self.bad.append((cls, msg))

  def expect(self, ok, cls, msg):
    self.sim.checks += 1
    if not ok:
      self.fail(cls, msg() if callable(msg) else msg)

  def close(self, a, b):
    a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
    if a.shape != b.shape:
      return False
    with np.errstate(all="ignore"):
      sc = np.max(np.abs(b[np.isfinite(b)]), initial=0.0)
      return bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= self.rtol * (1 + sc)) | (~np.isfinite(a) & ~np.isfinite(b))))

  def truth(self, x):
    """Value and derivative of the user's function at the point SciPy asked for."""
    with np.errstate(all="ignore"):
      v = self.sh.cast(x)
      a = [np.asarray(q, np.float64) for q in self.args]
      if "Minimize" in self.kind:
        f, g = np_fmin(v, *a)
        if self.cfg["vg"] != "no":
          g = np_gown(v, *a)
        return f, g
      return np_froot(v, *a) if "Root" in self.kind else np_fres(v, *a)

  def judge(self, x, f=None, g=None):
    """Answer of the bridge at x."""
    tf, tg = self.truth(x)
    if np.max(np.abs(x[np.isfinite(x)]), initial=0.0) > 100 and self.rtol > 1e-6:
      return
    if f is not None:
      self.expect(self.close(np.asarray(f), tf), "wrong-value", lambda: f"SciPy asked for the function at {x[:6]} and got {np.asarray(f)}, not {tf}")
      self.expect(self.wants(f), "wrong-dtype", lambda: f"the function value handed to SciPy has dtype {np.asarray(f).dtype}")
    if g is not None:
      self.expect(self.close(np.asarray(g), tg), "wrong-derivative", lambda: f"SciPy asked for the derivative at {x[:6]} and got\n{np.asarray(g)}\nnot\n{tg}")
      self.expect(self.wants(g), "wrong-dtype", lambda: f"the derivative handed to SciPy has dtype {np.asarray(g).dtype}")

  def wants(self, a):
    return self.cfg["dtype"] == "none" or np.asarray(a).dtype == {"f8": np.float64, "f4": np.float32}[self.cfg["dtype"]]

  # ---- the caller
  def init(self):
    return self.sh.tree(self.x0, np if self.spec["np"] else jnp)

  def run(self, solver):
    p0 = self.init()
    args = tuple(jnp.asarray(a) for a in self.args)
    pos, kw = args, {}
    if self.cfg["kw"]:
      pos, kw = args[:1], {self.names[1]: args[1]}
    b = ()
    if "Bounded" in self.kind:
      b = (None if self.bounds is None else tuple(self.sh.tree(q, np if self.spec["np"] else jnp) for q in self.bounds),)
    try:
      return solver.run(p0, *b, *pos, **kw)
    finally:
      d = self.sh.diff(jax.tree_util.tree_map(jnp.asarray, p0), self.x0, "the caller's initial parameters")
      if d:
        self.fail("input-modified", d)


class World:
  """Everything around the solver: the callback and the SciPy on the other side."""

  def __init__(self, job, sim):
    self.job, self.sim, self.cfg = job, sim, job["cfg"]
    self.stack = []
    self.solver = None
    self.real = {k: getattr(scipy.optimize, k) for k in ("minimize", "root", "least_squares")}

  @property
  def cur(self):
    return self.stack[-1]

  def callback(self, x):
    t = self.cur
    t.heard.append(x)
    if not t.announced:
      t.fail("callback", "the callback was called although SciPy announced nothing")
      return None
    d = t.sh.diff(x, t.announced[-1], "the callback's argument")
    if d:
      t.fail("callback", f"SciPy announced {t.announced[-1][:6]}, but {d}")
    if "nested" in t.spec and len(t.heard) == 1:
      self.sim.fault("nested_conversation")
      self.talk(t.spec["nested"], nested=True)
    if len(t.heard) == t.spec["cbat"] and t.spec["cbfault"] != "none":
      self.sim.fault("callback_" + t.spec["cbfault"])
      if t.spec["cbfault"] == "stop":
        raise StopIteration
      if t.spec["cbfault"] == "exc":
        raise SimFault("callback")
      return True
    return None

  def install(self, put):
    """Replaces SciPy's entry points wherever the bridge may have bound them."""
    saved = []
    for holder in (scipy.optimize, scipy_wrappers):
      for name, val in list(vars(holder).items()):
        for k, f in self.real.items():
          if val is f:
            saved.append((holder, name, val))
            setattr(holder, name, put(k))
    return saved

  def talk(self, spec, nested=False):
    t = Talk(self.job, spec, self.sim)
    self.stack.append(t)
    sim = self.sim
    keep = (FT.at, FT.count)
    FT.at, FT.count = (spec.get("evalfault"), 0)
    out = err = None
    try:
      out = t.run(self.solver)
    except Exception as e:  # pylint: disable=broad-except
      err = e
    finally:
      fired = FT.at is not None and FT.count >= FT.at
      FT.at, FT.count = keep
      self.stack.pop()
    for cls, msg in t.bad:
      raise Violation(cls, msg)
    sim.log("talk", spec["tree"], t.asked, len(t.announced), t.called, type(err).__name__)
    if fired:
      sim.fault("objective_exception")
      sim.probe("aborted")
      sim.check(isinstance(err, SimFault), "exception-lost", lambda: f"the objective raised, and the caller got {err!r} / {out is not None}")
      return
    if t.raised is not None:
      sim.probe("aborted")
      sim.check(err is t.raised or isinstance(err, type(t.raised)), "exception-lost", lambda: f"{t.raised!r} was raised during the conversation, and the caller got {err!r}")
      return
    if err is not None:
      if isinstance(err, Violation):
        raise err
      raise err
    if t.called == 0:
      raise Violation("no-conversation", "run() returned without asking SciPy")
    sim.check(t.called == 1, "conversation-repeated", lambda: f"one run() called SciPy {t.called} times")
    sim.probe("reported")
    judge_result(t, out)

  def go(self, solver, talks):
    self.solver = solver
    saved = self.install(lambda k: (lambda *a, **kw: self.answer(k, a, kw)))
    try:
      for spec in talks:
        self.talk(spec)
    finally:
      for holder, name, val in saved:
        setattr(holder, name, val)

  # ---- SciPy's side
  def answer(self, which, a, kw):
    t = self.cur
    t.called += 1
    sig = inspect.signature(self.real[which])
    ba = sig.bind(*a, **kw)
    ba.apply_defaults()
    q = dict(ba.arguments)
    if "kwargs" in q and which == "least_squares":
      q["fun_kwargs"] = q.pop("kwargs")
    check_request(t, which, q)
    try:
      if self.job["kind"] == "real":
        return self.recorded(t, which, ba, q)
      return self.scripted(t, which, q)
    except Exception as e:  # pylint: disable=broad-except
      t.raised = e if isinstance(e, (SimFault, Abort)) else t.raised
      raise

  def funs(self, which, q):
    """(value, derivative) callables whatever the calling convention."""
    args = q.get("args") or ()
    args = args if isinstance(args, tuple) else (args,)
    kwargs = (q.get("fun_kwargs") or q.get("kwargs") or {}) if which == "least_squares" else {}
    fun, jac = q["fun"], q["jac"]
    f = lambda x: fun(x, *args, **kwargs)
    if callable(jac):
      return f, (lambda x: jac(x, *args, **kwargs)), None
    if jac is True or (jac not in (None, False) and not isinstance(jac, str)):
      return None, None, f
    return f, None, None

  def scripted(self, t, which, q):
    sim, sh = self.sim, t.sh
    f, g, fg = self.funs(which, q)
    cb = q.get("callback")
    if cb is not None:
      m = (q.get("method") or "bfgs").lower()
      raw = m in ("tnc", "cobyla", "cobyqa")
      cb = _wrap_callback(cb, m)

      def tell(b):
        """Announces one iterate the way this SciPy does for this method; True when the callback asks to stop."""
        if not raw:
          return _call_callback_maybe_halt(cb, OptimizeResult(x=b, fun=scale))
        try:
          cb(np.copy(b))
        except StopIteration:
          return True
        return False
    x0 = np.array(q["x0"], dtype=np.float64)
    cur = x0.copy()
    shared = np.zeros(max(sh.n, 1))[:sh.n]
    scale = 1.0
    stopped = False

    def point(kind):
      if kind == "new":
        return x0 + t.rng.randn(sh.n)
      if kind == "last":
        return cur.copy()
      if kind == "bump":
        y = cur.copy()
        y[t.rng.randint(sh.n)] += 1e-3
        return y
      if kind == "big":
        return x0 + 1e3 * t.rng.randn(sh.n)
      if kind == "zero":
        return np.zeros(sh.n)
      if kind == "nan":
        y = x0.copy()
        y[t.rng.randint(sh.n)] = np.nan
        return y
      return x0.copy()

    def buffer(v, how):
      if how == "same":
        shared[:] = v
        return shared
      if how == "strided":
        b = np.full(2 * sh.n, 7.7)
        b[::2] = v
        return b[::2]
      b = v.copy()
      if how == "readonly":
        b.setflags(write=False)
      return b

    for act in t.spec["acts"]:
      v = point(act["pt"])
      cur = v
      b = buffer(v, act["buf"])
      if act["do"] == "announce":
        if cb is None:
          continue
        t.announced.append(v.copy())
        sim.probe("announced")
        sim.log("announce", v.round(6).tolist())
        n0 = len(t.heard)
        if tell(b):
          stopped = True
        t.expect(len(t.heard) == n0 + 1, "callback", lambda: f"SciPy announced one iterate and the callback was called {len(t.heard) - n0} times")
        want = len(t.heard) == t.spec["cbat"] and t.spec["cbfault"] in ("stop",)
        t.expect(stopped or not want, "stop-lost", "the callback asked to stop and SciPy was not told")
        if act["buf"] == "scribble":
          b[...] = -9.9
          sim.fault("buffer_scribbled")
          d = sh.diff(t.heard[-1], v, "the iterate the callback kept")
          t.expect(d is None, "callback", lambda: f"SciPy reused its buffer after the callback: {d}")
        if stopped:
          break
        continue
      t.asked += 1
      sim.probe("asked")
      sim.evals += 1
      sim.log("ask", act["what"], v.round(6).tolist())
      if act["pt"] in ("big", "nan"):
        sim.fault("odd_point_" + act["pt"])
      if fg is not None:
        r = fg(b)
        ok = isinstance(r, tuple) and len(r) == 2
        t.expect(ok, "wrong-answer", lambda: f"jac=True promises (value, derivative), the function returned {type(r).__name__}")
        if not ok:
          break
        fo, go_ = r
      else:
        fo = f(b) if act["what"] != "g" or g is None else None
        go_ = g(b) if g is not None and act["what"] != "f" else None
      t.expect(np.array_equal(b, v, equal_nan=True), "buffer-modified", "the bridge wrote into SciPy's buffer")
      if fo is not None:
        t.expect(which != "minimize" or np.ndim(fo) == 0, "wrong-value", lambda: f"the objective value has shape {np.shape(fo)}")
      t.judge(v, fo, go_)
      if act["scribble_out"]:
        sim.fault("answer_scribbled")
        for o in (fo, go_):
          if isinstance(o, np.ndarray) and o.ndim and o.size:
            t.expect(o.flags.writeable, "read-only-answer", "the array handed to SciPy is read-only (Fortran code writes to it)")
            if o.flags.writeable:
              o[...] = 3.3
      if act["buf"] == "scribble":
        b[...] = -5.5
        sim.fault("buffer_scribbled")
    if t.spec["end"] == "raise":
      sim.fault("scipy_raises")
      raise Abort("SciPy gave up")
    t.result = self.report(t, which, stopped)
    if t.spec["end"] == "fail" or stopped:
      sim.fault("scipy_stopped_early" if stopped else "scipy_failed")
    return t.result

  def report(self, t, which, stopped):
    rr = Rng("C12res", t.spec["res"])
    r, n = rr.np(), t.sh.n
    x = t.x0 + r.randn(n)
    if rr.chance(0.1):
      x[rr.randrange(n)] = np.nan
    ok = t.spec["end"] == "ok" and not stopped
    res = OptimizeResult(x=x, success=rr.choice([ok, np.bool_(ok)]), status=99 if stopped else (rr.choice([0, 1, 2]) if ok else rr.choice([1, 2, 4, -1, 9])), message="scripted")
    if which == "minimize":
      res.fun = rr.choice([float, np.float64])(r.randn())
      res.nfev, res.njev = rr.randrange(1, 1000), rr.randrange(0, 1000)
      if rr.chance(0.3):
        res.nhev = rr.randrange(1, 50)
      if rr.chance(0.2):
        del res["njev"]
      if t.cfg["method"] != "COBYLA":
        res.nit = rr.randrange(0, 300)
      m = t.cfg["method"]
      if m in ("BFGS", None):
        res.hess_inv = r.randn(n, n)
      elif m == "L-BFGS-B":
        k = rr.randrange(0, 4)
        s = r.randn(k, n)
        res.hess_inv = LbfgsInvHessProduct(s, s * (1 + np.abs(r.randn(k, n))))
      res.jac = r.randn(n)
    elif which == "root":
      res.fun = r.randn(n)
      if rr.chance(0.7):
        res.nfev = rr.randrange(1, 1000)
      if rr.chance(0.5):
        res.nit = rr.randrange(0, 300)
      if t.cfg["method"] == "df-sane":
        del res["status"]
    else:
      k = 8
      res.update(fun=r.randn(k), cost=float(np.abs(r.randn())), optimality=float(np.abs(r.randn())), nfev=rr.randrange(1, 99), njev=rr.randrange(1, 99), jac=r.randn(k, n), grad=r.randn(n),
                 active_mask=np.zeros(n, int))
    self.sim.log("report", x.round(6).tolist(), bool(res.success), res.get("status"))
    return res

  def recorded(self, t, which, ba, q):
    """The real SciPy, its questions checked and its answer recorded."""
    args = dict(q)
    fun, jac = q["fun"], q["jac"]

    def wfun(x, *a, **k):
      x = np.asarray(x, dtype=np.float64)
      v = x.copy()
      r = fun(x, *a, **k)
      t.asked += 1
      self.sim.probe("asked")
      self.sim.evals += 1
      if jac is True and isinstance(r, tuple):
        t.judge(v.ravel(), *r)
      else:
        t.judge(v.ravel(), r)
      return r
    args["fun"] = wfun
    if callable(jac):
      def wjac(x, *a, **k):
        v = np.array(x, dtype=np.float64)
        r = jac(x, *a, **k)
        t.judge(v.ravel(), None, r)
        return r
      args["jac"] = wjac
    cb = q.get("callback")
    if cb is not None and which == "minimize":
      def wcb(x, *a):
        t.announced.append(np.array(x, dtype=np.float64))
        self.sim.probe("announced")
        return cb(x, *a)
      if set(inspect.signature(cb).parameters) == {"intermediate_result"}:
        def wcb(intermediate_result):  # pylint: disable=function-redefined
          t.announced.append(np.array(intermediate_result.x, dtype=np.float64))
          self.sim.probe("announced")
          return cb(intermediate_result)
      args["callback"] = wcb
    if "fun_kwargs" in args:
      args["kwargs"] = args.pop("fun_kwargs")
    try:
      t.result = self.real[which](**args)
    except (ValueError, StopIteration) as e:
      # SciPy's own failures: a breakdown of its Jacobian approximation, and methods in which a callback cannot ask to stop.
      if isinstance(e, StopIteration) or (which == "root" and t.cfg["method"] not in ("hybr", "lm", "df-sane") and not from_repo(e)):
        self.sim.fault("scipy_raises")
        t.raised = e
      raise
    if not t.result.success:
      self.sim.fault("scipy_failed")
    self.sim.log("report", np.asarray(t.result.x).round(5).tolist(), bool(t.result.success), t.result.get("status"))
    return t.result


def as_bounds(b):
  if b is None:
    return None
  if hasattr(b, "lb"):
    return np.asarray(b.lb, float), np.asarray(b.ub, float)
  if isinstance(b, tuple) and len(b) == 2 and np.ndim(b[0]) <= 1 and np.shape(b[0]) == np.shape(b[1]) and not (np.shape(b[0]) == (2,) and False):
    return np.asarray(b[0], float), np.asarray(b[1], float)
  lo = np.array([-np.inf if l is None else l for l, _ in b], float)
  hi = np.array([np.inf if h is None else h for _, h in b], float)
  return lo, hi


def check_request(t, which, q):
  """What the bridge asks of SciPy: entry point, starting point, method, tolerance, options, bounds."""
  want = {"ScipyMinimize": "minimize", "ScipyBoundedMinimize": "minimize", "ScipyRootFinding": "root"}.get(t.kind, "least_squares")
  t.expect(which == want, "wrong-request", f"{t.kind} called scipy.optimize.{which}")
  x0 = np.asarray(q["x0"])
  t.expect(x0.shape == (t.sh.n,) and np.array_equal(x0.astype(np.float64), t.x0 if t.cfg["dtype"] != "f4" else t.x0.astype(np.float32)), "wrong-start",
           lambda: f"SciPy was started at {x0}, not at {t.x0}")
  t.expect(t.wants(x0) and isinstance(q["x0"], np.ndarray) and q["x0"].flags.writeable, "wrong-start", lambda: f"x0 is a {type(q['x0']).__name__} of dtype {x0.dtype}")
  t.expect(q["method"] == t.cfg["method"], "wrong-request", lambda: f"method {q['method']!r} instead of {t.cfg['method']!r}")
  if which == "minimize":
    o = dict(q["options"] or {})
    w = dict({"disp": False} if t.cfg["opts"] else {}, maxiter=t.cfg["maxiter"])
    t.expect(o == w, "wrong-options", lambda: f"options {o} instead of {w}")
    t.expect(q["tol"] == t.cfg["tol"], "wrong-options", lambda: f"tol {q['tol']} instead of {t.cfg['tol']}")
    t.expect((q["callback"] is not None) == bool(t.cfg["cb"]), "callback", "the callback was not handed to SciPy")
  elif which == "root":
    t.expect(q["tol"] == t.cfg["tol"], "wrong-options", lambda: f"tol {q['tol']} instead of {t.cfg['tol']}")
    t.expect((dict(q["options"] or {}) != {}) == bool(t.cfg["opts"]), "wrong-options", lambda: f"options {q['options']}")
  else:
    t.expect(q["loss"] == t.cfg["loss"], "wrong-options", lambda: f"loss {q['loss']} instead of {t.cfg['loss']}")
    w = (30, 0.7) if t.cfg["opts"] else (None, 1.0)
    t.expect((q["max_nfev"], q["f_scale"]) == w, "wrong-options", lambda: f"max_nfev, f_scale = {q['max_nfev']}, {q['f_scale']} instead of {w}")
    for k in ("ftol", "xtol", "gtol"):
      t.expect(q[k] == 1e-8, "wrong-options", lambda: f"{k} = {q[k]} instead of 1e-8")  # pylint: disable=cell-var-from-loop
    xs = t.cfg.get("xs_value")
    if xs is not None and not isinstance(xs, str):
      t.expect(np.array_equal(np.asarray(q["x_scale"], float), np.asarray(xs, float)), "wrong-options", lambda: f"x_scale {q['x_scale']} instead of {xs}")
  if which == "root":
    return
  b = as_bounds(q["bounds"])
  if t.bounds is None:
    t.expect(b is None or (np.all(np.isneginf(b[0])) and np.all(np.isposinf(b[1]))), "wrong-bounds", lambda: f"bounds {q['bounds']} for an unbounded problem")
  else:
    w = t.bounds if t.cfg["dtype"] != "f4" else tuple(x.astype(np.float32) for x in t.bounds)
    t.expect(b is not None and np.array_equal(b[0], w[0]) and np.array_equal(b[1], w[1]), "wrong-bounds", lambda: f"bounds {b} instead of {w}")


def eq(a, b):
  if a is None or b is None:
    return a is None and b is None
  a, b = np.asarray(a, np.float64), np.asarray(b, np.float64)
  return a.shape == b.shape and bool(np.all((a == b) | (np.isnan(a) & np.isnan(b)) | (np.abs(a - b) <= 1e-6 * np.abs(b))))


def judge_result(t, out):
  sim, res = t.sim, t.result
  params, info = out.params, out.state
  d = t.sh.diff(params, np.asarray(res.x), "the returned parameters")
  sim.check(d is None, "wrong-result", lambda: f"SciPy reported {np.asarray(res.x)}, but {d}")
  exact = t.job["x64"]
  same = (lambda a, b: eq(a, b)) if exact else (lambda a, b: eq(a, b if b is None else np.asarray(b, np.float32)))
  sim.check(bool(info.success) == bool(res.success), "wrong-success", lambda: f"SciPy reported success={res.success} ({getattr(res, 'message', '')}), the solver {info.success}")
  sim.check("status" not in res or int(info.status) == int(res.status), "wrong-status", lambda: f"SciPy reported status={res.get('status')}, the solver {info.status}")
  sim.check(same(info.fun_val, res.fun), "wrong-value", lambda: f"SciPy reported fun={res.fun}, the solver {info.fun_val}")
  if "LeastSquares" in t.kind:
    for a, b in (("cost_val", "cost"), ("error", "optimality"), ("num_fun_eval", "nfev"), ("num_jac_eval", "njev")):
      sim.check(same(getattr(info, a), res[b]), "wrong-info", lambda: f"SciPy reported {b}={res[b]}, the solver {a}={getattr(info, a)}")  # pylint: disable=cell-var-from-loop
    return
  if "nit" in res:
    sim.check(eq(info.iter_num, res.nit), "wrong-info", lambda: f"SciPy reported nit={res.nit}, the solver {info.iter_num}")
  if "nfev" in res:
    sim.check(eq(info.num_fun_eval, res.nfev), "wrong-info", lambda: f"SciPy reported nfev={res.nfev}, the solver {info.num_fun_eval}")
  if t.kind == "ScipyRootFinding":
    return
  for a, b in (("num_jac_eval", "njev"), ("num_hess_eval", "nhev")):
    sim.check(eq(getattr(info, a), res.get(b, 0)), "wrong-info", lambda: f"SciPy reported {b}={res.get(b, 0)}, the solver {a}={getattr(info, a)}")  # pylint: disable=cell-var-from-loop
  h = res.get("hess_inv")
  if h is None:
    sim.check(info.hess_inv is None, "wrong-info", "an inverse Hessian although SciPy reported none")
  elif isinstance(h, LbfgsInvHessProduct):
    sim.check(same(info.hess_inv.sk, h.sk) and same(info.hess_inv.yk, h.yk) and info.hess_inv.n_corrs == h.n_corrs and tuple(info.hess_inv.shape) == tuple(h.shape), "wrong-info",
              "the inverse Hessian is not the one SciPy reported")
    if h.n_corrs:
      v = t.rng.randn(t.sh.n)
      sim.check(np.allclose(np.asarray(info.hess_inv.matvec(v), np.float64), h.matvec(v), rtol=1e-3, atol=1e-5 * (1 + np.max(np.abs(h.matvec(v))))), "wrong-info", "the inverse Hessian acts differently from SciPy's")
  else:
    sim.check(same(info.hess_inv, h), "wrong-info", "the inverse Hessian is not the one SciPy reported")


def execute(job, run, ctx, sim):
  cfg, kind = job["cfg"], job["template"]
  w = World(job, sim)
  if "LeastSquares" in kind and cfg["opts"] and cfg["xs"] != "no":
    # x_scale belongs to one parameter structure: the whole run keeps the first.
    tree = run["talks"][0]["tree"]
    run = dict(run, talks=[dict(t, tree=tree) for t in run["talks"]])
    sh = Shape(tree, job["x64"])
    v = sh.cast(np.abs(Rng("xs", run["talks"][0]["data"]).np().randn(sh.n)) + 0.5)
    xs = {"jac": "jac", "arr": v, "num": 2.5, "int": 2, "tree": sh.tree(v)}[cfg["xs"]]
    job = dict(job, cfg=dict(cfg, xs_value=v if cfg["xs"] in ("arr", "tree") else xs))
    w.job, w.cfg = job, job["cfg"]
    opts = {"max_nfev": 30, "f_scale": 0.7, "x_scale": xs}
    f = fres_tree if cfg["restree"] else fres
    dt = {"f8": np.float64, "f4": np.float32, "none": None}[cfg["dtype"]]
    solver = getattr(jaxopt, kind)(fun=aux_of(f) if cfg["aux"] else f, loss=cfg["loss"], options=opts, use_jacrev=cfg["jacrev"], method=cfg["method"], has_aux=cfg["aux"],
                                   jit=cfg["jit"], dtype=dt)
    sim.check(list(opts) == ["max_nfev", "f_scale", "x_scale"] and opts["x_scale"] is xs, "options-modified", "the caller's options dictionary was changed")
  else:
    solver, _ = make(kind, cfg, w)
  w.go(solver, run["talks"])
