"""A traceable probe transformation and its numpy model.

The probe's output mixes update, own memory, own step number and params, so
that a lost, repeated or misdirected call changes everything after it.
"""
import numpy as np

from mon.core import tree_leaves, tree_map
from mon.env import F, jax, jnp, optax


def probe(a=1.5, b=.25, c=.125, d=.0625, seen=None):
  """u -> a*u + b*m + c*p + d*n; the state holds n, m and what was seen."""

  def init(p):
    return {'n': jnp.zeros([], jnp.int32),
            'm': tree_map(jnp.zeros_like, p),
            'p0': tree_map(jnp.asarray, p)}

  def update(u, s, p=None):
    if seen is not None:
      seen.append((u, s, p))
    m = tree_map(lambda m, x: (.5 * m + x).astype(m.dtype), s['m'], u)
    n = s['n']
    out = tree_map(lambda x, y: a * x + b * y + d * n, u, m)
    if p is not None:
      out = tree_map(lambda x, w: x + c * w, out, p)
    out = tree_map(lambda x, y: jnp.asarray(x).astype(jnp.asarray(y).dtype), out, u)
    return out, {'n': n + 1, 'm': m, 'p0': s['p0']}
  return optax.GradientTransformation(init, update)


class ProbeModel:
  """The same over lists of float64 leaves."""

  def __init__(self, leaves, a=1.5, b=.25, c=.125, d=.0625):
    self.co = (a, b, c, d)
    self.p0 = [np.array(x, np.float64) for x in leaves]
    self.reset(leaves)

  def reset(self, leaves):
    self.n = 0
    self.m = [np.zeros(np.shape(x)) for x in leaves]
    self.p0 = [np.array(x, np.float64) for x in leaves]

  def step(self, u, p=None):
    a, b, c, d = self.co
    self.m = [.5 * m + x for m, x in zip(self.m, u)]
    out = [a * x + b * m + d * self.n for x, m in zip(u, self.m)]
    if p is not None:
      out = [x + c * w for x, w in zip(out, p)]
    self.n += 1
    return out

  def check(self, ctx, state, what, rtol=1e-9):
    ctx.ok(int(state['n']) == self.n, f'{what}: times the inner ran',
           got=int(state['n']), want=self.n)
    ctx.close(list(tree_leaves(state['m'])), self.m, f'{what}: inner memory',
              rtol=rtol, scale=1.)
    ctx.close(list(tree_leaves(state['p0'])), self.p0,
              f'{what}: params the inner was initialised with', rtol=rtol)
