"""Core of the deterministic simulator: seeded PRNG, event log, fault counters, comparisons.

One integer decides everything: every run is described by a JSON "spec" drawn from Rng(seed, ...) and the execution of
a spec is a pure function of the spec and of the code under test.
"""
import hashlib
import json
import math
import os
import random
import traceback

import numpy as np

REPO = os.environ.get("DST_REPO", "/repo")


def derive(*parts):
  h = hashlib.sha256(json.dumps(parts, sort_keys=True, default=str).encode()).digest()
  return int.from_bytes(h[:8], "big") >> 1


class Rng(random.Random):
  """Seeded PRNG; the only source of choices in a simulation."""

  def __new__(cls, *parts):
    return random.Random.__new__(cls)

  def __init__(self, *parts):
    super().__init__(derive(*parts))
    self.parts = parts

  def np(self):
    return np.random.RandomState(self.getrandbits(31))

  def chance(self, p):
    return self.random() < p

  def weighted(self, pairs):
    tot = sum(w for _, w in pairs)
    x = self.random() * tot
    for v, w in pairs:
      x -= w
      if x < 0:
        return v
    return pairs[-1][0]

  def loguniform(self, a, b):
    return math.exp(self.uniform(math.log(a), math.log(b)))


class Violation(Exception):
  """The property does not hold on this run."""

  def __init__(self, cls, msg):
    super().__init__(f"{cls}: {msg}")
    self.cls = cls
    self.msg = msg


class SimFault(Exception):
  """An exception injected by the simulator (never raised by the code under test on its own)."""


class HarnessError(Exception):
  pass


class Sim:
  """Per-run context: event log, fault counters, probes, simulated time (steps and evaluations)."""

  def __init__(self):
    self.events = []
    self.faults = {}
    self.probes = {}
    self.steps = 0
    self.evals = 0
    self.checks = 0
    self.known = []

  def log(self, *ev):
    self.events.append(ev)

  def fault(self, kind, n=1):
    self.faults[kind] = self.faults.get(kind, 0) + n
    self.events.append(("fault", kind))

  def probe(self, name, n=1):
    self.probes[name] = self.probes.get(name, 0) + n

  def check(self, ok, cls, msg):
    self.checks += 1
    if not ok:
      raise Violation(cls, msg() if callable(msg) else msg)

  def digest(self):
    return hashlib.sha256(repr(self.events).encode()).hexdigest()[:16]


# ------------------------------------------------------------------------------------------------ pytrees and comparisons
def leaves(tree):
  import jax
  return jax.tree_util.tree_leaves(tree)


def np_tree(tree):
  """Host copy of a pytree; Python scalars are kept as they are."""
  import jax

  def conv(x):
    if isinstance(x, (bool, int, float, str)):
      return x
    if hasattr(x, "dtype") and jax.dtypes.issubdtype(x.dtype, jax.dtypes.prng_key):
      return x
    return np.array(x)
  return jax.tree_util.tree_map(conv, tree)


def flat(tree):
  ls = [np.asarray(l, dtype=np.float64).ravel() for l in leaves(tree)]
  return np.concatenate(ls) if ls else np.zeros((0,))


def digest_tree(tree):
  h = hashlib.sha256()
  for l in leaves(tree):
    a = np.asarray(l)
    h.update(str(a.dtype).encode())
    h.update(str(a.shape).encode())
    h.update(a.tobytes())
  return h.hexdigest()[:12]


def all_finite(tree):
  for l in leaves(tree):
    a = np.asarray(l)
    if a.dtype.kind in "fc" and not np.all(np.isfinite(a)):
      return False
  return True


def close(a, b, rtol, atol):
  """Elementwise closeness with equal non-finite values counted as close."""
  a = np.asarray(a)
  b = np.asarray(b)
  if a.shape != b.shape:
    return False
  if a.dtype.kind not in "fc" and b.dtype.kind not in "fc":
    return bool(np.array_equal(a, b))
  a = a.astype(np.float64) if a.dtype.kind != "c" else a
  b = b.astype(np.float64) if b.dtype.kind != "c" else b
  with np.errstate(all="ignore"):
    same = (a == b) | (np.isnan(a) & np.isnan(b))
    fin = np.isfinite(a) & np.isfinite(b)
    ok = np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))
  return bool(np.all(same | (fin & ok)))


def named_leaves(tree, prefix=""):
  import jax
  out = []
  for path, leaf in jax.tree_util.tree_flatten_with_path(tree)[0]:
    out.append((prefix + jax.tree_util.keystr(path), leaf))
  return out


def tree_diff(a, b, rtol=0.0, atol=0.0, dtypes=False):
  """None when the trees agree, else a description of the first difference."""
  import jax
  ta = jax.tree_util.tree_structure(a)
  tb = jax.tree_util.tree_structure(b)
  if ta != tb:
    return f"structures differ: {ta} vs {tb}"
  for (na, la), (_, lb) in zip(named_leaves(a), named_leaves(b)):
    if isinstance(la, str) or callable(la):
      continue
    xa, xb = np.asarray(la), np.asarray(lb)
    if xa.shape != xb.shape:
      return f"{na}: shapes {xa.shape} vs {xb.shape}"
    if dtypes and xa.dtype != xb.dtype:
      return f"{na}: dtypes {xa.dtype} vs {xb.dtype}"
    if not close(xa, xb, rtol, atol):
      with np.errstate(all="ignore"):
        d = np.max(np.abs(xa.astype(np.float64) - xb.astype(np.float64))) if xa.size else 0.0
      return f"{na}: {np.array2string(xa.ravel()[:6], precision=8)} vs {np.array2string(xb.ravel()[:6], precision=8)} (max diff {d:.3g})"
  return None


def sanitize(obj):
  """JSON-serialisable version of obj."""
  if isinstance(obj, dict):
    return {str(k): sanitize(v) for k, v in obj.items()}
  if isinstance(obj, (list, tuple)):
    return [sanitize(v) for v in obj]
  if isinstance(obj, (np.integer,)):
    return int(obj)
  if isinstance(obj, (np.floating,)):
    return float(obj)
  if isinstance(obj, (np.bool_,)):
    return bool(obj)
  if isinstance(obj, np.ndarray):
    return obj.tolist()
  return obj


def from_repo(exc):
  """True if the traceback of exc passes through the code under test."""
  root = os.path.join(os.path.realpath(REPO), "jaxopt") + os.sep
  seen = set()
  while exc is not None and id(exc) not in seen:
    seen.add(id(exc))
    for fr in traceback.extract_tb(exc.__traceback__):
      if os.path.realpath(fr.filename).startswith(root):
        return True
    exc = exc.__cause__ or exc.__context__
  return False
