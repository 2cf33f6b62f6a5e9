"""Half precision: the rules hold for it too, up to its rounding.

The oracle is the same transformation at single precision, where the property's
other scenarios compare it with its formula, run on the same (representable)
numbers.
"""
import numpy as np

from mon import work
from mon.core import tree_leaves, tree_map
from mon.env import jax, jnp

DTYPES = [jnp.bfloat16, jnp.float16]


def _numbers(ctx, like, dt, lo=.25, hi=4.):
  """Signed numbers of ordinary size that the low precision represents."""
  def leaf(x):
    n = np.shape(x)
    v = np.exp(ctx.rng.uniform(np.log(lo), np.log(hi), n)) * ctx.rng.choice([-1, 1], n)
    return jnp.asarray(jnp.asarray(v, dt), jnp.float32)
  return tree_map(leaf, like)


def agree(ctx, makes, steps=6, slack=14., kinds=None, ready=None, floor=.25, warp=None):
  name = ctx.cycle(makes)
  make = makes[name]
  dt = ctx.cycle(DTYPES, len(makes))
  kind = ctx.pick(kinds or work.PLAIN)
  ctx.describe(which=name, dtype=np.dtype(dt).name, tree=kind)
  like = work.params(ctx, kind, jnp.float32)
  low = lambda t: tree_map(lambda x: x.astype(dt), t)
  ready = ready or (lambda p: p)
  p = _numbers(ctx, like, dt)
  a, b = make(), make()
  sa, sb = a.init(ready(p)), b.init(ready(low(p)))
  if warp:
    sa, sb = warp(sa), warp(sb)
  ua, ub = jax.jit(a.update), jax.jit(b.update) if ctx.coin(.8) else b.update
  eps = float(jnp.finfo(dt).eps)
  worst, top = 0., floor
  for t in range(steps):
    g = _numbers(ctx, like, dt)
    x, sa = ua(g, sa, ready(p))
    y, sb = ub(low(g), sb, ready(low(p)))
    ctx.structure(y, ready(low(g)), f'updates {t}')
    # What cancels was of the size of earlier updates, and of other entries.
    top = max([top] + [float(np.abs(m).max(initial=0.)) for m in tree_leaves(x)])
    for i, (m, n) in enumerate(zip(tree_leaves(x), tree_leaves(y))):
      m, n = np.asarray(m, np.float64), np.asarray(n, np.float64)
      err = np.abs(m - n).max(initial=0.) / top / eps
      worst = max(worst, err)
      ctx.ok(np.all(np.isfinite(n)) and err <= slack,
             f'update {t} at half precision, leaf {i}', got=n, want=m)
    ctx._observe('half', y)
    ctx.count('half precision steps')
    p = _numbers(ctx, like, dt)
  return worst
