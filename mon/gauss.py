"""Test functions with closed-form Gaussian expectations and gradients."""
import math

import numpy as np

from mon.env import F, jax, jnp, optax


def closed_forms(ctx, d, only_smooth=True, near=None):
  """name -> (function, expectation, gradient wrt mean, wrt log std)."""
  rng = ctx.rng
  a = rng.normal(size=d)
  A = rng.normal(size=(d, d)) * .5
  c = rng.normal(size=d) * .3
  b = rng.normal(size=d) * .3
  w = rng.normal(size=d)
  k, c0 = float(rng.normal() * .5), float(rng.normal() * 2)
  if near is not None:
    # A threshold that samples do cross, both ways.
    k = float(near[0][0] + near[1][0] * np.clip(k * 2, -1.8, 1.8))
  J = lambda x: jnp.asarray(x, F)
  S = (A + A.T) / 2

  def exp_(m, s):
    return math.exp(b @ m + .5 * (b ** 2 * s ** 2).sum())

  def cosf(m, s):
    e = math.exp(-.5 * (w ** 2 * s ** 2).sum())
    return math.cos(w @ m) * e, math.sin(w @ m) * e

  def phi(z):
    return math.exp(-.5 * z * z) / math.sqrt(2 * math.pi)
  out = {
      'linear': (lambda x: J(a) @ x + c0, lambda m, s: a @ m + c0,
                 lambda m, s: a, lambda m, s: 0 * a),
      'quadratic': (lambda x: x @ J(A) @ x,
                    lambda m, s: m @ A @ m + (np.diag(A) * s ** 2).sum(),
                    lambda m, s: 2 * S @ m, lambda m, s: 2 * np.diag(A) * s ** 2),
      'cubic': (lambda x: J(c) @ x ** 3, lambda m, s: c @ (m ** 3 + 3 * m * s ** 2),
                lambda m, s: c * (3 * m ** 2 + 3 * s ** 2),
                lambda m, s: c * 6 * m * s ** 2),
      'exp': (lambda x: jnp.exp(J(b) @ x), exp_,
              lambda m, s: b * exp_(m, s), lambda m, s: b ** 2 * s ** 2 * exp_(m, s)),
      'cos': (lambda x: jnp.cos(J(w) @ x), lambda m, s: cosf(m, s)[0],
              lambda m, s: -w * cosf(m, s)[1],
              lambda m, s: -w ** 2 * s ** 2 * cosf(m, s)[0]),
  }
  if not only_smooth:
    e0 = np.eye(d)[0]
    out['step'] = (lambda x: jnp.where(x[0] > k, 1., 0.).astype(F),
                   lambda m, s: .5 * math.erfc(-(m[0] - k) / s[0] / math.sqrt(2)),
                   lambda m, s: e0 * phi((m[0] - k) / s[0]) / s[0],
                   lambda m, s: -e0 * phi((m[0] - k) / s[0]) * (m[0] - k) / s[0])
  return out


def gaussian_params(ctx, d):
  m = np.asarray(ctx.rng.normal(size=d), F)
  ls = np.asarray(ctx.rng.uniform(-1., .3, size=d), F)
  return (jnp.asarray(m), jnp.asarray(ls)), m.astype(np.float64), np.exp(ls.astype(np.float64))


def unbiased(ctx, jac, truth, what, z=6.5, count='samples'):
  """The rows of jac are iid with mean `truth`."""
  j = np.asarray(jac, np.float64)
  n = j.shape[0]
  ctx.count(count, n)
  se = j.std(0) / math.sqrt(n)
  # Rows far out in the tail make the normal approximation slow.
  tail = np.abs(j - j.mean(0)).max(0) / n
  tol = z * se + 2 * tail + 1e-5 * (1 + np.abs(truth))
  ctx.ok(np.all(np.abs(j.mean(0) - truth) <= tol), f'{what}: mean of the estimates',
         got=j.mean(0), want=truth, se=se)
  ctx.seen(what, j.mean(0).tobytes())
