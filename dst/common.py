"""Pieces shared by the simulated worlds."""
import pickle

import numpy as np
import jax
import jax.numpy as jnp

from dst import catalog as C
from dst.core import Rng, np_tree, tree_diff


def save(pair):
  """Durable copy of (params, state): what survives a crash."""
  leaves, treedef = jax.tree_util.tree_flatten(pair)
  return pickle.dumps([np_tree(l) for l in leaves]), treedef


def load(saved):
  blob, treedef = saved
  ls = pickle.loads(blob)
  ls = [l if isinstance(l, (bool, int, float, str)) else jnp.asarray(l) for l in ls]
  return jax.tree_util.tree_unflatten(treedef, ls)


class Pool:
  """Solver incarnations of one configuration; slot 0 is the uninterrupted reference."""

  def __init__(self, t, cfg, **mode):
    self.t, self.cfg, self.mode = t, cfg, mode
    self.objs = {}

  def get(self, slot, **over):
    key = (slot, tuple(sorted(over.items())))
    if key not in self.objs:
      m = dict(self.mode)
      m.update(over)
      self.objs[key] = self.t.make(self.cfg, **m)
    return self.objs[key]


def datasets(t, name, cfg, seed, k):
  """k problems of identical shapes and structure; the first is the main one."""
  return [t.problem(Rng("problem", t.name, seed, j), cfg) for j in range(k)]


def same_static(p, q):
  """True when the two problems can share one solver (same structures and shapes)."""
  return tree_diff(jax.tree_util.tree_map(jnp.shape, (p.args, p.kwargs)), jax.tree_util.tree_map(jnp.shape, (q.args, q.kwargs))) is None


def step(solver, params, state, prob):
  return solver.update(params, state, *prob.args, **prob.kwargs)


def ddmin_ops(ops):
  """Candidate smaller op lists."""
  n = len(ops)
  size = n // 2
  while size >= 1:
    for i in range(0, n, size):
      c = ops[:i] + ops[i + size:]
      if c and len(c) < n:
        yield c
    size //= 2


def leaf_types(pair):
  return jax.tree_util.tree_map(lambda x: str(np.asarray(x).dtype), pair)


ALL = list(C.REG)
# Relative cost of one eager (jit=False) step, used to size jobs.
EAGER_OK = ["GradientDescent", "ProximalGradient", "ProjectedGradient", "MirrorDescent", "BFGS", "LBFGS", "NonlinearCG", "LBFGSB", "PolyakSGD",
            "ArmijoSGD", "OptaxSolver", "GaussNewton", "LevenbergMarquardt", "FixedPointIteration", "AndersonAcceleration",
            "AndersonWrapper", "Broyden", "Bisection", "IterativeRefinement", "BlockCoordinateDescent", "BoxCDQP", "BoxOSQP"]
EAGER_SLOW = {"LBFGS", "LBFGSB", "BFGS", "NonlinearCG", "AndersonAcceleration", "BoxOSQP", "LevenbergMarquardt", "BlockCoordinateDescent", "GaussNewton", "Broyden", "AndersonWrapper"}


# ---------------------------------------------------------------------------------------- comparisons across compilations
def perturbed(tree, rng, eps):
  """Floating leaves multiplied by 1 + eps * noise."""
  r = rng.np()

  def f(x):
    a = np.asarray(x)
    if a.dtype.kind != "f":
      return x
    return jnp.asarray(a * (1.0 + eps * r.standard_normal(a.shape)), dtype=a.dtype)
  return jax.tree_util.tree_map(f, tree)


def loose_diff(a, b, rtol, atol):
  """tree_diff where two non-finite numbers (NaN or infinity) count as equal."""
  def fix(x):
    v = np.asarray(x)
    if v.dtype.kind == "f":
      return np.where(np.isfinite(v), v, np.nan)
    return v
  ta, tb = (jax.tree_util.tree_structure(x) for x in (a, b))
  if ta != tb:
    return f"structures differ: {ta} vs {tb}"
  return tree_diff(jax.tree_util.tree_map(fix, a), jax.tree_util.tree_map(fix, b), rtol, atol)


def history(solver, p, s, prob, n, stop=None, data=None):
  """[(params, state)] of n updates; stops after the first update for which stop(params, state) holds."""
  out = [(p, s)]
  for k in range(n):
    p, s = step(solver, p, s, prob if data is None else data(k))
    out.append((p, s))
    if stop is not None and stop(p, s):
      break
  return out


def chaotic(t, solver, prob, n, ref, rng, x64=True, data=None, limit=None):
  """Largest relative change of the history when the initial point is perturbed at rounding level.

  Decides whether a difference between two compilations of one computation can be rounding: True when rounding-level noise in the
  starting point changes the history by a comparable amount (a comparison or a branch sits on a knife's edge).
  """
  eps = 1e-12 if x64 else 3e-6
  limit = limit if limit is not None else (1e-7 if x64 else 1e-2)
  for j in range(4):
    q = prob._replace(init=perturbed(prob.init, rng, eps), args=perturbed(prob.args, rng, eps), kwargs=perturbed(prob.kwargs, rng, eps))
    try:
      p, s = t.start(solver, q)
      h = history(solver, p, s, q, n, data=None if data is None else (lambda k, j=j: data(k)))
    except Exception:  # pylint: disable=broad-except
      return True
    for (a, b) in zip(ref, h):
      if loose_diff(a, b, limit, limit) is not None:
        return True
  return False


def sensitivity(t, solver, prob, n, ref, rng, x64=True, data=None):
  """Smallest power of ten that bounds the change of the history under rounding-level noise in the problem (inf when it cannot be measured)."""
  eps = 1e-12 if x64 else 3e-6
  level = 1e-10 if x64 else 1e-5
  for j in range(4):
    q = prob._replace(init=perturbed(prob.init, rng, eps), args=perturbed(prob.args, rng, eps), kwargs=perturbed(prob.kwargs, rng, eps))
    try:
      p, s = t.start(solver, q)
      h = history(solver, p, s, q, n, data=None if data is None else (lambda k, j=j: data(k)))
    except Exception:  # pylint: disable=broad-except
      return float("inf")
    for (a, b) in zip(ref, h):
      while level <= 1 and loose_diff(a, b, level, level) is not None:
        level *= 10
      if level > 1:
        return float("inf")
  return level


def blow_up(prob, g):
  """Data scaled so that evaluations overflow part-way."""
  f = lambda x: x * g if np.asarray(x).dtype.kind == "f" else x
  return prob._replace(args=jax.tree_util.tree_map(f, prob.args), kwargs=jax.tree_util.tree_map(f, prob.kwargs))


def poison(prob, rng, val=np.nan):
  """One entry of the floating-point data replaced by NaN or infinity."""
  ls, td = jax.tree_util.tree_flatten((prob.args, prob.kwargs))
  idx = [i for i, l in enumerate(ls) if np.asarray(l).dtype.kind == "f" and np.asarray(l).size > 1] or \
        [i for i, l in enumerate(ls) if np.asarray(l).dtype.kind == "f"]
  if not idx:
    return prob
  i = idx[rng.randrange(len(idx))]
  a = np.array(ls[i])
  a.reshape(-1)[rng.randrange(a.size)] = val
  ls[i] = jnp.asarray(a)
  args, kwargs = jax.tree_util.tree_unflatten(td, ls)
  return prob._replace(args=args, kwargs=kwargs)


def cast(prob, x64):
  """Arrays in the working precision (nothing to do with x64)."""
  return prob
