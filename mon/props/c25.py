"""C25: non-negativity is preserved and NaNs are removed exactly."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Non-negative parameters are driven through chains ending in the '
        'constraint with updates that cross zero, land exactly on it, stay '
        'tiny or are huge: after every application each element must be >= 0 '
        'and each update that keeps it so must pass bit-identical. NaNs are '
        'scattered over trees: each must come out as zero, everything else '
        '(infinities and signed zeros included) bit-identical, and the '
        'per-leaf report must say exactly where NaNs were.')
ASSUMPTIONS = ['Parameters start non-negative and share the dtype of the updates.']
MIN_EVALS = 5000
MIN_DISTINCT = 700
MIN_COUNTERS = {'elements kept from going negative': 1000,
                'updates left alone': 1000, 'NaNs removed': 500,
                'leaves reported': 100}


def hostile_update(ctx, p):
  """Updates around the boundary -p."""
  rng = ctx.rng
  x = np.asarray(p)
  big = 1e6 if x.dtype != np.float16 else 2e4
  fi = np.finfo(x.dtype) if x.dtype != jnp.bfloat16 else jnp.finfo(jnp.bfloat16)
  choices = [
      rng.normal(size=x.shape), -x, np.nextafter(-x.astype(F), -np.inf, dtype=F)
      if x.dtype == F else -x, np.nextafter(-x.astype(F), np.inf, dtype=F)
      if x.dtype == F else -x, -2 * x, rng.normal(size=x.shape) * 1e-6,
      np.zeros(x.shape), -np.full(x.shape, float(fi.tiny)), -big * np.ones(x.shape),
      big * rng.random(x.shape), -0.5 * x]
  which = rng.integers(len(choices), size=x.shape)
  out = np.zeros(x.shape)
  for i, c in enumerate(choices):
    out = np.where(which == i, c, out)
  return np.asarray(out, x.dtype)


def _drive(ctx, dtype):
  kind = ctx.cycle(work.KINDS + ['tower'])
  style = ctx.pick(['positive', 'zeros', 'positive'])
  p = work.params(ctx, kind, dtype, scale=ctx.pick([1., 1e-3, 1e3]), style=style)
  if style == 'positive' and ctx.coin():
    p = tree_map(lambda x: jnp.where(jnp.asarray(ctx.rng.random(x.shape) < .3), 0, x)
                 .astype(x.dtype), p)
  opt = optax.keep_params_nonnegative()
  jitted = ctx.coin(.6)
  upd = jax.jit(opt.update) if jitted else opt.update
  s = opt.init(p)
  ctx.describe(tree=kind, style=style, dtype=np.dtype(dtype).name, jit=jitted)
  for t in range(5):
    g = tree_map(lambda x: hostile_update(ctx, x), p)
    u, s = upd(work.to_jax(g), s, p)
    ctx.structure(u, g, f'updates at {t}')
    q = optax.apply_updates(p, u)
    for i, (a, b, c, d) in enumerate(zip(*map(tree_leaves, (p, g, u, q)))):
      a, b, c, d = map(np.asarray, (a, b, c, d))
      ctx.ok(c.dtype == b.dtype and c.shape == b.shape, f'leaf {i} keeps its dtype')
      ctx.ok(np.all(d >= 0), f'params after {t}, leaf {i}', before=a, update=b, after=d)
      bad = (a + b) < 0
      ctx.ok(np.array_equal(c[~bad], b[~bad]), f'allowed updates at {t}, leaf {i}',
             got=c, want=b)
      ctx.ok(np.all(d[bad] == 0), f'crossing elements land on zero at {t}', got=d)
      ctx.count('elements kept from going negative', int(bad.sum()))
      ctx.count('updates left alone', int((~bad).sum()))
    ctx.seen(kind, t, ctx.rep, core.digest(q))
    p = q


@scenario(env='x64', quick=60, thorough=900)
def nonnegative(ctx):
  _drive(ctx, F)


@scenario(env='x32', quick=30, thorough=300)
def nonnegative32(ctx):
  _drive(ctx, F)


@scenario(env='x32', quick=20, thorough=200)
def nonnegative_low(ctx):
  _drive(ctx, ctx.cycle([jnp.bfloat16, jnp.float16], len(work.KINDS) + 1))


@scenario(env='x64', quick=30, thorough=300)
def trained(ctx):
  """At the end of a chain, with optimisers pulling towards negative values."""
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind, style='positive')
  opt = optax.chain(ctx.cycle([lambda: optax.adam(.3), lambda: optax.sgd(.5, .9),
                               lambda: optax.rmsprop(.2), lambda: optax.yogi(.3),
                               lambda: optax.noisy_sgd(.3, 1.)])(),
                    optax.keep_params_nonnegative())
  s = opt.init(p)
  upd = jax.jit(opt.update)
  ctx.describe(tree=kind, which=ctx.rep % 5)
  target = tree_map(lambda x: jnp.asarray(ctx.rng.normal(size=x.shape)), p)
  for t in range(25):
    g = tree_map(lambda x, y: 2 * (x - y), p, target)
    u, s = upd(g, s, p)
    p = optax.apply_updates(p, u)
    for i, x in enumerate(tree_leaves(p)):
      ctx.ok(np.all(np.asarray(x) >= 0), f'params after {t}, leaf {i}', got=x)
      ctx.count('elements kept from going negative', int((np.asarray(x) == 0).sum()))


@scenario(env='x64', quick=40, thorough=400)
def outside(ctx):
  """Parameters that start negative and updates that are not finite.

  What would end below zero is moved onto zero, from wherever it started;
  everything else passes, bit by bit, also when it is not a number.
  """
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  opt = optax.keep_params_nonnegative()
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  s = opt.init(p)
  ctx.describe(tree=kind)
  for t in range(4):
    g = tree_map(lambda x: hostile_update(ctx, x), p)
    if t % 2:
      g = tree_map(lambda x: np.where(
          ctx.rng.random(x.shape) < .3,
          ctx.rng.choice([np.nan, np.inf, -np.inf], size=x.shape), x), g)
    u, s = upd(work.to_jax(g), s, p)
    q = optax.apply_updates(p, u)
    for i, (a, b, c, d) in enumerate(zip(*map(tree_leaves, (p, g, u, q)))):
      a, b, c, d = map(np.asarray, (a, b, c, d))
      bad = (a + b) < 0
      ctx.ok(np.array_equal(c[~bad], b[~bad], equal_nan=True),
             f'allowed updates at {t}, leaf {i}', got=c, want=b)
      ctx.ok(np.all(d[bad] == 0), f'elements below zero land on it at {t}', got=d,
             before=a, update=b)
      ctx.count('elements moved from outside', int((bad & (a < 0)).sum()))
    ctx.seen(kind, t, ctx.rep, core.digest(u))


@scenario(env='x64', quick=24, thorough=240)
def masked(ctx):
  """Constraining part of the model leaves the rest alone."""
  kind = ctx.pick(['matrix_bias', 'nested', 'many', 'custom', 'conv'])
  p = work.params(ctx, kind, style='positive')
  flags = [ctx.coin() for _ in tree_leaves(p)]
  mask = core.tree_structure(p).unflatten(flags)
  opt = optax.masked(optax.keep_params_nonnegative(), mask)
  s = opt.init(p)
  ctx.describe(tree=kind, flags=flags)
  g = tree_map(lambda x: hostile_update(ctx, x), p)
  u, s = opt.update(work.to_jax(g), s, p)
  q = optax.apply_updates(p, u)
  for f, a, b, c, d in zip(flags, *map(tree_leaves, (p, g, u, q))):
    if f:
      ctx.ok(np.all(np.asarray(d) >= 0), 'constrained leaf', got=d)
    else:
      ctx.same(c, b, 'unconstrained leaf')


def _nans(ctx, dtype):
  kind = ctx.cycle(work.KINDS + ['tower'])
  p = work.params(ctx, kind, dtype)
  opt = optax.zero_nans()
  upd = jax.jit(opt.update) if ctx.coin(.6) else opt.update
  s = opt.init(p)
  ctx.describe(tree=kind, dtype=np.dtype(dtype).name)
  ctx.ok(not any(bool(x) for x in tree_leaves(s.found_nan)), 'report at init')
  ctx.structure(s.found_nan, p, 'report at init')
  for t in range(5):
    g = tree_map(lambda x: np.asarray(x), work.params(ctx, kind, dtype))
    rate = ctx.pick([0., .05, .4, 1.])
    only = ctx.coin(.4)
    hot = int(ctx.rng.integers(3))
    ls, d = jax.tree_util.tree_flatten(g)
    out = []
    for i, x in enumerate(ls):
      x = np.array(x, np.float64)
      r = ctx.rng.random(x.shape)
      if not only or i == hot:
        x = np.where(r < rate, np.nan, x)
      x = np.where(ctx.rng.random(x.shape) < .1, ctx.rng.choice(
          [np.inf, -np.inf, -0., 1e30, -1e30], size=x.shape), x)
      out.append(np.asarray(x, dtype))
    g = d.unflatten(out)
    u, s = upd(work.to_jax(g), s)
    ctx.structure(u, g, f'updates at {t}')
    ctx.structure(s.found_nan, g, f'report at {t}')
    for i, (a, b, f) in enumerate(zip(tree_leaves(g), tree_leaves(u),
                                      tree_leaves(s.found_nan))):
      b, f = np.asarray(b), np.asarray(f)
      isn = np.isnan(np.asarray(a, np.float64))
      ctx.ok(f.shape == () and f.dtype == bool and bool(f) == bool(isn.any()),
             f'report for leaf {i} at {t}', got=f, want=isn.any())
      ctx.ok(b.dtype == a.dtype and b.shape == a.shape, f'leaf {i} keeps its dtype')
      ctx.ok(np.all(b[isn] == 0), f'NaNs of leaf {i} at {t}', got=b)
      ctx.ok(np.array_equal(b[~isn], a[~isn]) and np.array_equal(
          np.signbit(b[~isn].astype(np.float64)), np.signbit(a[~isn].astype(np.float64))),
             f'other values of leaf {i} at {t}', got=b, want=a)
      ctx.count('NaNs removed', int(isn.sum()))
      ctx.count('leaves reported', int(isn.any()))
    ctx.seen(kind, t, ctx.rep)


@scenario(env='x64', quick=60, thorough=900)
def nans(ctx):
  _nans(ctx, F)


@scenario(env='x32', quick=20, thorough=200)
def nans_low(ctx):
  _nans(ctx, ctx.pick([jnp.bfloat16, jnp.float16]))


@scenario(env='x32', quick=20, thorough=200)
def nans_half(ctx):
  _nans(ctx, np.float32)


@scenario(env='x64', quick=20, thorough=200)
def nans_shield(ctx):
  """In front of an optimiser: NaN elements act as zero gradients."""
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  mk = ctx.cycle([lambda: optax.adam(.1), lambda: optax.sgd(.1, .9),
                  lambda: optax.clip_by_global_norm(1.), lambda: optax.lamb(.1)])
  opt, plain = optax.chain(optax.zero_nans(), mk()), mk()
  s1, s2 = opt.init(p), plain.init(p)
  ctx.describe(tree=kind, which=ctx.rep % 4)
  for t, g in enumerate(work.grad_history(ctx, p, 4, 'normal')):
    holes = tree_map(lambda x: ctx.rng.random(x.shape) < .3, g)
    a = tree_map(lambda x, h: jnp.asarray(np.where(h, np.nan, x)), g, holes)
    b = tree_map(lambda x, h: jnp.asarray(np.where(h, 0., x)), g, holes)
    u1, s1 = opt.update(a, s1, p)
    u2, s2 = plain.update(b, s2, p)
    ctx.same(u1, u2, f'update {t}')
    ctx.same(s1[1], s2, f'state {t}')
    ctx.count('NaNs removed', int(sum(h.sum() for h in tree_leaves(holes))))
