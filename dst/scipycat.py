"""SciPy-backed solvers as templates (not step-wise: only run)."""
import numpy as np
import jax
import jax.numpy as jnp
import jaxopt

from dst import problems as P
from dst.catalog import J, Prob, RES, root_map, box_hyper

MIN_METHODS = ["BFGS", "L-BFGS-B", "CG", "SLSQP", "TNC", "Nelder-Mead", "Powell", "trust-constr", "COBYLA", None]
BOUND_METHODS = ["L-BFGS-B", "SLSQP", "TNC", "Powell", "Nelder-Mead", "trust-constr"]
ROOT_METHODS = ["hybr", "lm", "broyden1", "krylov", "df-sane", "anderson"]


class SciMin:
  name = "ScipyMinimize"
  n = 4

  def cfg(self, rng):
    return {"method": rng.choice(MIN_METHODS[:5]), "fam": rng.choice(["lsq", "logcosh", "rosen", "logistic"]),
            "pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.3), "vg": rng.choice(["no", "no", "yes"]),
            "maxiter": rng.choice([3, 6, 100]), "opts": rng.chance(0.6)}

  def options(self, cfg):
    if not cfg["opts"]:
      return None
    return {"disp": False}

  def problem(self, rng, cfg):
    X, y = P.gen_data(rng, m=8, n=self.n, cond=rng.choice([2.0, 10.0]))
    l2 = np.float64(rng.choice([0.05, 0.3]))
    v = rng.np().randn(self.n)
    return Prob(J(P.to_tree(v, cfg["pt"])), (jnp.asarray(l2), J((X, y))), {}, dict(l2=l2, data=(X, y)))

  def fun(self, cfg):
    f = P.FUNS[cfg["fam"]]
    f = P.with_aux(f) if cfg["aux"] else f
    return f if cfg["vg"] == "no" else jax.value_and_grad(f, has_aux=cfg["aux"])

  def make(self, cfg, options="own", **kw):
    o = self.options(cfg) if options == "own" else options
    return jaxopt.ScipyMinimize(fun=self.fun(cfg), method=cfg["method"], has_aux=cfg["aux"], value_and_grad=cfg["vg"] != "no",
                                maxiter=cfg["maxiter"], options=o, **kw)


class SciBMin(SciMin):
  name = "ScipyBoundedMinimize"

  def cfg(self, rng):
    return dict(super().cfg(rng), method=rng.choice(BOUND_METHODS[:3]))

  def problem(self, rng, cfg):
    p = super().problem(rng, cfg)
    lo, hi = box_hyper(rng, self.n, "flat")
    lo, hi = np.where(lo == hi, lo - 0.1, lo), hi
    v = np.clip(P.vec_np(p.init), lo, hi)
    b = J((P.to_tree(lo, cfg["pt"]), P.to_tree(hi, cfg["pt"])))
    return Prob(J(P.to_tree(v, cfg["pt"])), (b,) + p.args, {}, dict(p.meta, hp=(lo, hi)))

  def make(self, cfg, options="own", **kw):
    o = self.options(cfg) if options == "own" else options
    return jaxopt.ScipyBoundedMinimize(fun=self.fun(cfg), method=cfg["method"], has_aux=cfg["aux"], value_and_grad=cfg["vg"] != "no",
                                       maxiter=cfg["maxiter"], options=o, **kw)


class SciRoot:
  name = "ScipyRootFinding"
  n = 4

  def cfg(self, rng):
    return {"method": rng.choice(["hybr", "lm", "broyden1"]), "pt": rng.choice(["flat", "dict", "nest"]), "aux": rng.chance(0.3),
            "opts": rng.chance(0.5), "jacrev": rng.chance(0.5)}

  def options(self, cfg):
    if not cfg["opts"]:
      return None
    return {"maxiter": 50} if cfg["method"] == "broyden1" else {"xtol": 1e-9}

  def problem(self, rng, cfg):
    r = rng.np()
    A = np.eye(self.n) + 0.25 * r.randn(self.n, self.n) / np.sqrt(self.n)
    b = r.randn(self.n)
    return Prob(J(P.to_tree(0.5 * r.randn(self.n), cfg["pt"])), (J(A), J(b)), {}, dict(A=A, b=b))

  def make(self, cfg, options="own", **kw):
    o = self.options(cfg) if options == "own" else options
    f = (lambda p, A, b: (root_map(p, A, b), {"s": jnp.sum(P.vec(p))})) if cfg["aux"] else root_map
    return jaxopt.ScipyRootFinding(optimality_fun=f, method=cfg["method"], has_aux=cfg["aux"], options=o, use_jacrev=cfg["jacrev"],
                                   tol=1e-8, **kw)


class SciLS:
  name = "ScipyLeastSquares"
  n = 4
  bounded = False

  def cfg(self, rng):
    c = {"method": rng.choice(["trf", "dogbox"] + ([] if self.bounded else ["lm"])), "res": rng.choice(["linear", "tanh", "curve"]),
         "aux": rng.chance(0.3), "opts": rng.chance(0.6), "jacrev": rng.chance(0.5), "xs": rng.choice(["no", "jac", "arr", "num"])}
    c["loss"] = "linear" if c["method"] == "lm" else rng.choice(["linear", "soft_l1", "huber", "cauchy", "arctan"])
    return c

  def options(self, cfg):
    if not cfg["opts"]:
      return None
    o = {"max_nfev": 40}
    if cfg["xs"] != "no":
      o["x_scale"] = {"jac": "jac", "arr": np.array([1.0, 2.0, 0.5, 1.0]), "num": 2.0}[cfg["xs"]]
    return o

  def problem(self, rng, cfg):
    X, y = P.gen_data(rng, m=9, n=self.n, cond=rng.choice([2.0, 10.0]), noise=0.2)
    x0 = np.array([1.0, 0.5, 0.3, 1.0]) + 0.3 * rng.np().randn(self.n)
    if self.bounded:
      lo, hi = x0 - np.abs(rng.np().randn(self.n)) - 0.05, x0 + np.abs(rng.np().randn(self.n)) + 0.05
      return Prob(J(x0), (J((lo, hi)), J((X, y))), {}, dict(data=(X, y), hp=(lo, hi)))
    return Prob(J(x0), (J((X, y)),), {}, dict(data=(X, y)))

  def make(self, cfg, options="own", **kw):
    o = self.options(cfg) if options == "own" else options
    f = RES[cfg["res"]]
    g = (lambda x, data: (f(x, data), {"s": jnp.sum(x)})) if cfg["aux"] else f
    cls = jaxopt.ScipyBoundedLeastSquares if self.bounded else jaxopt.ScipyLeastSquares
    return cls(fun=g, method=cfg["method"], loss=cfg["loss"], has_aux=cfg["aux"], options=o, use_jacrev=cfg["jacrev"], **kw)


class SciBLS(SciLS):
  name = "ScipyBoundedLeastSquares"
  bounded = True


SCI = {c.name: c() for c in (SciMin, SciBMin, SciRoot, SciLS, SciBLS)}
