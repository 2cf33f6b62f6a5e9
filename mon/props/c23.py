"""C23: differentially private aggregation bounds every example's influence."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Per-example gradients of many shapes, batch sizes and magnitudes are '
        'aggregated; with the noise switched off the result is compared with '
        'the mean of globally clipped per-example gradients in float64, and '
        'for neighbouring batches run from the same state the difference of '
        'the noised results is measured against 2C/B.')
ASSUMPTIONS = ['Gradients are finite; the clipping norm is positive.']
MIN_EVALS = 2000
MIN_DISTINCT = 500
MIN_COUNTERS = {'aggregations': 300, 'neighbouring batches': 150,
                'clipped examples': 120, 'unclipped examples': 120}


def examples(ctx, kind):
  """How many examples there are in a batch."""
  return int(ctx.pick([1, 2, 3, 5, 8] + [40, 130, 300] * (kind not in work.LARGE)))


def batch(ctx, kind, b, style=None, dtype=None):
  """A tree with leading dimension b, in numpy."""
  style = style or ctx.pick(['normal', 'spread', 'tiny', 'large', 'zeros',
                             'one_leaf', 'ties', 'outlier', 'minute', 'vast'])
  rng = ctx.rng
  size = np.exp(rng.normal(size=b) * 2) if style == 'spread' else np.ones(b)
  if style == 'outlier':
    size[int(rng.integers(b))] = 1e4
  if style == 'zeros':
    size[rng.random(b) < .5] = 0.
  m = {'tiny': 1e-3, 'large': 1e3, 'minute': 1e-9, 'vast': 1e9}.get(style, 1.)
  hot = int(rng.integers(3))

  def leaf(shape, i):
    x = rng.normal(size=(b,) + shape)
    if style == 'ties':
      x = np.sign(x)
    if style == 'one_leaf' and i != hot:
      x = x * 0.
    return np.asarray(x * m * size.reshape((b,) + (1,) * len(shape)), dtype or F)
  return style, work.build(kind, leaf)


def norms(tree, b):
  ls = [x.reshape(b, -1) for x in seq.leaves64(tree)]
  return np.sqrt(sum((x ** 2).sum(1) for x in ls)) if ls else np.zeros(b)


def clipped_mean(tree, b, clip):
  n = norms(tree, b)
  f = np.minimum(1., clip / np.maximum(n, 1e-300))
  return [(x * f.reshape((b,) + (1,) * (x.ndim - 1))).sum(0) / b
          for x in seq.leaves64(tree)]


def dist(a, b):
  return float(np.sqrt(sum(((x - y) ** 2).sum() for x, y in
                           zip(seq.leaves64(a), seq.leaves64(b)))))


def _mean(ctx, rtol):
  kind = ctx.cycle(work.KINDS + ['tower'])
  b = examples(ctx, kind)
  style, g = batch(ctx, kind, b)
  n = norms(g, b)
  clip = float(ctx.pick([.1, 1., 10., np.median(n) or 1., n.max() * 1.01 or 1.,
                         work.logu(ctx, 1e-3, 1e3), work.logu(ctx, 1e-10, 1e-4),
                         work.logu(ctx, 1e4, 1e10)]))
  clip = max(clip, 1e-12)
  ctx.describe(tree=kind, batch=b, style=style, clip=clip)
  opt = optax.differentially_private_aggregate(clip, 0., int(ctx.rng.integers(99)))
  s = opt.init(None)
  upd = jax.jit(opt.update) if ctx.coin(.5) or b > 8 else opt.update
  u, s2 = upd(work.to_jax(g), s)
  want = clipped_mean(g, b, clip)
  ctx.structure(u, g, 'aggregate')
  ctx.close(list(tree_leaves(u)), want, 'mean of clipped gradients', rtol=rtol,
            scale=min(clip, n.max()))
  ctx.count('aggregations')
  ctx.count('clipped examples', int((n > clip).sum()))
  ctx.count('unclipped examples', int(((n <= clip) & (n > 0)).sum()))
  total = np.sqrt(sum((x ** 2).sum() for x in seq.leaves64(u)))
  ctx.ok(total <= clip * (1 + 1e-5), 'norm of the aggregate', got=total, clip=clip)
  # The order of the examples does not matter.
  perm = ctx.rng.permutation(b)
  v, _ = upd(tree_map(lambda x: jnp.asarray(x[perm]), g), s)
  ctx.close(list(tree_leaves(v)), want, 'permuted batch', rtol=rtol,
            scale=min(clip, n.max()))


@scenario(env='x64', quick=120, thorough=1500)
def mean(ctx):
  _mean(ctx, 1e-10)


@scenario(env='x32', quick=60, thorough=600)
def mean32(ctx):
  _mean(ctx, 2e-5)


def _neighbours(ctx, slack):
  kind = ctx.cycle(work.PLAIN)
  b = int(ctx.pick([1, 2, 4, 7, 16] + [90, 256] * (kind not in work.LARGE)))
  clip = work.logu(ctx, 1e-8, 1e6) if ctx.coin(.4) else work.logu(ctx, 1e-2, 1e2)
  mult = float(ctx.pick([0., .5, 1.1]))
  style, g = batch(ctx, kind, b)
  how = ctx.pick(['opposite', 'huge', 'zero', 'random', 'overflow', 'same_direction'])
  i = int(ctx.rng.integers(b))
  _, other = batch(ctx, kind, b, 'normal')
  big = 1e300 if F == np.float64 else 1e30

  def swap(x, y):
    x, y = np.array(x), np.array(y)
    x[i] = {'opposite': -x[i] * 3, 'huge': y[i] * 1e6, 'zero': y[i] * 0,
            'random': y[i], 'overflow': np.sign(y[i]) * big,
            'same_direction': x[i] * 50}[how]
    return x
  h = tree_map(swap, g, other)
  ctx.describe(tree=kind, batch=b, style=style, how=how, clip=clip, mult=mult)
  opt = optax.differentially_private_aggregate(clip, mult, int(ctx.rng.integers(99)))
  s = opt.init(None)
  upd = jax.jit(opt.update) if b > 8 else opt.update
  for t in range(2):
    u, s1 = upd(work.to_jax(g), s)
    v, s2 = upd(work.to_jax(h), s)
    ctx.finite([u, v], f'aggregates at {t}')
    d = dist(u, v)
    noise = mult * clip / b * np.sqrt(sum(x.size for x in tree_leaves(u)))
    ctx.ok(d <= 2 * clip / b * (1 + slack) + slack * (noise + clip), 'influence of one example',
           distance=d, bound=2 * clip / b)
    ctx.ok(dist(s1, s2) == 0, 'state does not depend on the gradients')
    ctx.count('neighbouring batches')
    ctx.seen(kind, b, how, t, d)
    s = s1


@scenario(env='x64', quick=90, thorough=1200)
def neighbours(ctx):
  _neighbours(ctx, 1e-9)


@scenario(env='x32', quick=50, thorough=500)
def neighbours32(ctx):
  _neighbours(ctx, 1e-4)


@scenario(env='x32', quick=20, thorough=200)
def low_precision(ctx):
  """bfloat16 gradients are still clipped to the bound."""
  kind = ctx.pick(work.PLAIN)
  b = int(ctx.pick([2, 4, 8]))
  clip = float(ctx.pick([.5, 1., 4., 2.**-20, 2.**-10, 2.**12]))
  style, g = batch(ctx, kind, b, ctx.pick(['normal', 'large', 'spread']),
                   dtype=jnp.bfloat16)
  ctx.describe(tree=kind, batch=b, style=style, clip=clip)
  opt = optax.differentially_private_aggregate(clip, 0., 0)
  u, _ = opt.update(work.to_jax(g), opt.init(None))
  total = np.sqrt(sum((x ** 2).sum() for x in seq.leaves64(u)))
  ctx.ok(total <= clip * 1.05, 'norm of the aggregate', got=total, clip=clip)
  ctx.close(list(tree_leaves(u)), clipped_mean(g, b, clip), 'mean', rtol=.03,
            scale=clip)
  ctx.count('aggregations')


@scenario(env='x64', quick=40, thorough=400)
def alias(ctx):
  """dpsgd is the aggregate, then momentum, then the learning rate."""
  kind = ctx.pick(work.KINDS)
  b, clip = int(ctx.pick([1, 3, 4])), float(ctx.pick([.3, 1., 5., 1e-4, 1e3]))
  mom, nest = ctx.pick([None, 0., .5, .9]), ctx.coin()
  sched = ctx.coin()
  lr = (lambda c: .1 / (c + 1)) if sched else .1
  ctx.describe(tree=kind, batch=b, clip=clip, momentum=mom, nesterov=nest)
  opt = optax.dpsgd(lr, l2_norm_clip=clip, noise_multiplier=0., seed=3,
                    momentum=mom, nesterov=nest)
  p = work.params(ctx, kind)
  s = opt.init(p)
  upd = jax.jit(opt.update)
  m = None
  for t in range(4):
    _, g = batch(ctx, kind, b, 'normal')
    u, s = upd(work.to_jax(g), s, p)
    w = clipped_mean(g, b, clip)
    if mom is not None:
      m = w if m is None else [x + mom * y for x, y in zip(w, m)]
      out = [x + mom * y for x, y in zip(w, m)] if nest else m
    else:
      out = w
    r = .1 / (t + 1) if sched else .1
    ctx.close(list(tree_leaves(u)), [-r * x for x in out], f'update {t}',
              rtol=1e-6, scale=clip * .1)
    ctx.count('aggregations')
