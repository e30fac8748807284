"""Problem families: objectives as pure JAX functions of (params, *args), data generators, host references."""
import functools

import numpy as np
import jax
import jax.numpy as jnp
import scipy.optimize


# ---------------------------------------------------------------------------------------------- parameter structures
def to_tree(v, pt):
  """Flat vector (numpy or jax) -> pytree of the given structure."""
  n = v.shape[0]
  if pt == "flat":
    return v
  if pt == "dict":
    return {"w": v[:n - 1], "b": v[n - 1]}
  if pt == "nest":
    return ({"a": v[:2]}, [v[2:3].reshape((1, 1)), v[3:]])
  if pt == "mat":
    assert n % 2 == 0
    return v.reshape((n // 2, 2))
  raise ValueError(pt)


def vec(tree):
  """pytree -> flat vector in the order used by to_tree."""
  if isinstance(tree, dict) and "w" in tree:
    parts = [jnp.ravel(tree["w"]), jnp.ravel(tree["b"])]
  elif isinstance(tree, tuple):
    parts = [jnp.ravel(tree[0]["a"]), jnp.ravel(tree[1][0]), jnp.ravel(tree[1][1])]
  else:
    return jnp.ravel(tree)
  return jnp.concatenate(parts)


def vec_np(tree):
  if isinstance(tree, dict) and "w" in tree:
    parts = [np.ravel(tree["w"]), np.ravel(tree["b"])]
  elif isinstance(tree, tuple):
    parts = [np.ravel(tree[0]["a"]), np.ravel(tree[1][0]), np.ravel(tree[1][1])]
  else:
    return np.ravel(np.asarray(tree))
  return np.concatenate(parts)


# ---------------------------------------------------------------------------------------------- evaluation seam
TAP = [None]


def tap(out):
  """Every evaluation of a user function passes here; a world may park the thread, raise, or corrupt the value."""
  return out if TAP[0] is None else TAP[0](out)


def tapped(fun):
  @functools.wraps(fun)
  def f(*a, **kw):
    return tap(fun(*a, **kw))
  return f


# ---------------------------------------------------------------------------------------------- smooth objectives
@tapped
def f_lsq(p, l2, data):
  X, y = data
  v = vec(p)
  r = X @ v - y
  return 0.5 * jnp.mean(r * r) + 0.5 * l2 * jnp.sum(v * v)


@tapped
def f_logistic(p, l2, data):
  X, y = data
  v = vec(p)
  s = jnp.where(y > 0, 1.0, -1.0)
  return jnp.mean(jnp.logaddexp(0.0, -s * (X @ v))) + 0.5 * l2 * jnp.sum(v * v)


@tapped
def f_logcosh(p, l2, data):
  X, y = data
  v = vec(p)
  r = X @ v - y
  a = jnp.abs(r)
  return jnp.mean(a + jnp.log1p(jnp.exp(-2.0 * a)) - jnp.log(2.0)) + 0.5 * l2 * jnp.sum(v * v)


@tapped
def f_rosen(p, l2, data):
  X, y = data
  v = vec(p) + 0.1 * y[:vec(p).shape[0]]
  return jnp.sum(4.0 * (v[1:] - v[:-1] ** 2) ** 2 + (1.0 - v[:-1]) ** 2) + 0.5 * l2 * jnp.sum(v * v)


@tapped
def f_barrier(p, l2, data):
  """Convex with a domain: NaN (log of a negative number) outside of it."""
  X, y = data
  v = vec(p)
  r = X @ v - y
  return 0.5 * jnp.mean(r * r) + 0.5 * l2 * jnp.sum(v * v) - 0.05 * jnp.sum(jnp.log(1.5 - v))


FUNS = {"lsq": f_lsq, "logistic": f_logistic, "logcosh": f_logcosh, "rosen": f_rosen, "barrier": f_barrier}
CONVEX = ("lsq", "logistic", "logcosh")


def residual_aux(p, l2, data):
  X, y = data
  v = vec(p)
  return {"res": X @ v - y, "nrm": jnp.sum(v * v)}


def with_aux(fun):
  def f(p, l2, data):
    return fun(p, l2, data), residual_aux(p, l2, data)
  return f


def gen_data(rng, m=10, n=5, cond=8.0, noise=0.3, dtype=np.float64, scale=1.0):
  r = rng.np()
  X = r.randn(m, n)
  u, s, vt = np.linalg.svd(X, full_matrices=False)
  s = np.sqrt(m) * np.geomspace(1.0, 1.0 / np.sqrt(cond), len(s)) * scale
  X = (u * s) @ vt
  w = r.randn(n)
  y = X @ w + noise * r.randn(m)
  return X.astype(dtype), y.astype(dtype)


def grad_np(fam):
  """Host gradient of a family at a flat vector (float64)."""
  f = FUNS[fam]

  @jax.jit
  def g(v, l2, X, y):
    return jax.grad(lambda u: f(u, l2, (X, y)))(v)

  @jax.jit
  def h(v, l2, X, y):
    return jax.hessian(lambda u: f(u, l2, (X, y)))(v)
  return g, h


@functools.lru_cache(maxsize=None)
def _gh(fam):
  return grad_np(fam)


def optimum(fam, l2, data, n):
  """Unconstrained minimiser by damped Newton on the host (convex families)."""
  X, y = [np.asarray(a, np.float64) for a in data]
  l2 = float(np.asarray(l2))
  m = X.shape[0]
  if fam == "lsq":
    return np.linalg.solve(X.T @ X / m + l2 * np.eye(n), X.T @ y / m)

  def val(v):
    if fam == "logistic":
      s = np.where(y > 0, 1.0, -1.0)
      return np.mean(np.logaddexp(0, -s * (X @ v))) + 0.5 * l2 * v @ v
    r = X @ v - y
    a = np.abs(r)
    return np.mean(a + np.log1p(np.exp(-2 * a)) - np.log(2)) + 0.5 * l2 * v @ v

  def gr(v):
    if fam == "logistic":
      s = np.where(y > 0, 1.0, -1.0)
      z = -s * (X @ v)
      q = 1.0 / (1.0 + np.exp(-z))
      return X.T @ (-s * q) / m + l2 * v, (X.T * (q * (1 - q))) @ X / m + l2 * np.eye(n)
    t = np.tanh(X @ v - y)
    return X.T @ t / m + l2 * v, (X.T * (1 - t * t)) @ X / m + l2 * np.eye(n)
  v = np.zeros(n)
  for _ in range(200):
    g, H = gr(v)
    if np.linalg.norm(g) < 1e-13:
      break
    d = np.linalg.solve(H, g)
    t = 1.0
    while val(v - t * d) > val(v) - 1e-4 * t * (g @ d) and t > 1e-12:
      t *= 0.5
    v = v - t * d
  return v


def lasso_like(fam, l2, data, n, prox_kind, hp):
  """Reference minimiser of fam + non-smooth term by long-run ISTA in numpy float64."""
  X, y = [np.asarray(a, np.float64) for a in data]
  m = X.shape[0]
  l2 = float(np.asarray(l2))
  L = np.linalg.norm(X, 2) ** 2 / m + l2
  if fam == "logistic":
    L = 0.25 * np.linalg.norm(X, 2) ** 2 / m + l2

  def gr(v):
    if fam == "lsq":
      return X.T @ (X @ v - y) / m + l2 * v
    if fam == "logistic":
      s = np.where(y > 0, 1.0, -1.0)
      q = 1.0 / (1.0 + np.exp(s * (X @ v)))
      return X.T @ (-s * q) / m + l2 * v
    return X.T @ np.tanh(X @ v - y) / m + l2 * v
  v = np.zeros(n)
  z, t = v.copy(), 1.0
  for it in range(20000):
    nv = np_prox(prox_kind, z - gr(z) / L, hp, 1.0 / L)
    nt = 0.5 * (1 + np.sqrt(1 + 4 * t * t))
    if (z - nv) @ (nv - v) > 0:
      nt, z = 1.0, nv.copy()
    else:
      z = nv + (t - 1) / nt * (nv - v)
    if np.linalg.norm(nv - v) < 1e-15 and it > 20:
      v = nv
      break
    v, t = nv, nt
  return v


def np_simplex(v, s=1.0):
  u = np.sort(v)[::-1]
  c = (np.cumsum(u) - s) / np.arange(1, len(v) + 1)
  k = np.nonzero(u > c)[0][-1]
  return np.maximum(v - c[k], 0)


def np_prox(kind, v, hp, scale=1.0):
  if kind == "none":
    return v
  if kind == "lasso":
    lam = float(np.asarray(hp)) * scale
    return np.sign(v) * np.maximum(np.abs(v) - lam, 0)
  if kind == "elastic":
    lam, gam = [float(np.asarray(h)) for h in hp]
    return np.sign(v) * np.maximum(np.abs(v) - scale * lam, 0) / (1 + scale * lam * gam)
  if kind == "nonneg":
    return np.maximum(v, 0)
  if kind == "box":
    return np.clip(v, np.asarray(hp[0]), np.asarray(hp[1]))
  if kind == "simplex":
    return np_simplex(v, float(np.asarray(hp)))
  if kind == "l2ball":
    r = float(np.asarray(hp))
    nv = np.linalg.norm(v)
    return v if nv <= r else v * (r / nv)
  if kind == "l1ball":
    r = float(np.asarray(hp))
    if np.sum(np.abs(v)) <= r:
      return v
    return np.sign(v) * np_simplex(np.abs(v), r)
  raise ValueError(kind)


def infeasibility(kind, v, hp):
  v = np.asarray(v, np.float64)
  if not np.all(np.isfinite(v)):
    return np.inf
  if kind == "nonneg":
    return float(np.max(np.maximum(-v, 0)))
  if kind == "box":
    lo, hi = np.asarray(hp[0]), np.asarray(hp[1])
    return float(max(np.max(np.maximum(lo - v, 0)), np.max(np.maximum(v - hi, 0))))
  if kind == "simplex":
    s = float(np.asarray(hp))
    return float(max(np.max(np.maximum(-v, 0)), abs(np.sum(v) - s) / max(1.0, s)))
  if kind == "l2ball":
    return float(max(0.0, np.linalg.norm(v) - float(np.asarray(hp))))
  if kind == "l1ball":
    return float(max(0.0, np.sum(np.abs(v)) - float(np.asarray(hp))))
  return None
