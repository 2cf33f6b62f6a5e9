"""C14: clipping bounds what it should and leaves the rest alone."""
import numpy as np

from mon import core, half, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Gradients of every tree kind, with magnitudes around and far from the '
        'bound, are clipped; the monitor checks the bound, that smaller '
        'gradients pass bit-identical, that larger ones keep their direction '
        'and end on the bound, and compares with float64 models. Adaptive '
        'clipping is checked per unit for each parameter layout.')
ASSUMPTIONS = ['Gradients are finite and their squares are representable.']
MIN_EVALS = 3000
MIN_DISTINCT = 500
MIN_COUNTERS = {'overflowing': 100, 'clipped': 50, 'untouched': 50}
EPS = 1e-12 if X64 else 1e-5


def _grads(ctx, p, target=None):
  """A gradient tree, optionally of a given global norm."""
  g = work.grad_history(ctx, p, 1, ctx.pick(
      ['normal', 'sparse', 'lognormal', 'ties', 'integers', 'small', 'large']))[0]
  if target is None:
    return g
  n = np.sqrt(sum((np.asarray(x, np.float64) ** 2).sum() for x in tree_leaves(g)))
  if n == 0:
    return g
  return tree_map(lambda x: (np.asarray(x) * (target / n)).astype(x.dtype), g)


def _norm(t):
  return float(np.sqrt(sum((np.asarray(x, np.float64) ** 2).sum()
                           for x in tree_leaves(t))))


@scenario(env='x64', quick=60, thorough=1000)
def elementwise(ctx):
  kind = ctx.cycle(work.KINDS + ['tower'])
  p = work.params(ctx, kind)
  d = float(ctx.pick([0., 1e-3, .1, .5, 1., 10., 1e8, np.inf,
                      work.logu(ctx, 1e-9, 1e9)]))
  opt = optax.clip(d) if ctx.coin() else optax.clip(max_delta=d)
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  s = opt.init(p)
  ctx.describe(tree=kind, delta=d)
  for _ in range(6):
    g = _grads(ctx, p)
    if d and ctx.coin():  # the same gradients at the scale of a remote bound
      f = d if np.isfinite(d) else 1e12
      g = tree_map(lambda x: (np.asarray(x) * f).astype(x.dtype), g)
    u, s = upd(work.to_jax(g), s, *([p] if ctx.coin() else []))
    ctx.same(u, tree_map(lambda x: np.clip(x, -d, d), g), 'clipped elements')
    for x, y in zip(tree_leaves(u), tree_leaves(g)):
      x, y = np.asarray(x), np.asarray(y)
      ctx.ok(np.all(np.abs(x) <= d), 'bound of elements', got=x, bound=d)
      ctx.ok(np.all(x[np.abs(y) <= d] == y[np.abs(y) <= d]), 'elements in bounds')
      ctx.count('clipped', int((np.abs(y) > d).sum()))
      ctx.count('untouched', int((np.abs(y) <= d).sum()))


def _global(ctx, tol):
  kind = ctx.cycle(work.KINDS + ['tower'])
  p = work.params(ctx, kind)
  b = float(ctx.pick([.1, 1., 5., work.logu(ctx, 1e-3, 1e3), work.logu(ctx, 1e-9, 1e9)]))
  opt = (optax.clip_by_global_norm(b) if ctx.coin() else
         optax.clip_by_global_norm(max_norm=b))
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  s = opt.init(p)
  ctx.describe(tree=kind, bound=b)
  for _ in range(8):
    ratio = ctx.pick([None, 0., .1, .9, 1. - 1e-3, 1.001, 1.1, 10., 1e4, 1e-6])
    g = _grads(ctx, p, None if ratio is None else b * ratio)
    n = _norm(g)
    u, s = upd(work.to_jax(g), s, *([p] if ctx.coin() else []))
    ctx.ok(_norm(u) <= b * (1 + tol), 'global norm after clipping',
           got=_norm(u), bound=b)
    if n < b * (1 - tol):
      ctx.same(u, g, 'gradients below the bound')
      ctx.count('untouched')
    elif n > b * (1 + tol):
      ctx.ok(abs(_norm(u) - b) <= 10 * tol * b, 'norm is not on the bound',
             got=_norm(u), bound=b)
      ctx.close(u, tree_map(lambda x: np.asarray(x, np.float64) * (b / n), g),
                'direction after clipping', rtol=20 * tol)
      ctx.count('clipped')
    ctx._observe('global', u)
  # A bound of zero lets nothing through.
  g = _grads(ctx, p)
  if _norm(g):
    u, _ = optax.clip_by_global_norm(0.).update(work.to_jax(g), s)
    ctx.same(tree_map(jnp.abs, u), tree_map(jnp.zeros_like, p), 'bound of zero')
  # Zero stays zero.
  u, _ = upd(tree_map(jnp.zeros_like, p), s)
  ctx.same(u, tree_map(jnp.zeros_like, p), 'zero gradients')


@scenario(env='x64', quick=60, thorough=1000)
def global_norm(ctx):
  _global(ctx, 1e-12)


@scenario(env='x32', quick=30, thorough=500)
def global_norm32(ctx):
  _global(ctx, 1e-5)


def unit_axes(shape):
  """Axes that one output unit spans, from the documented layouts."""
  squeezed = [n for n in shape if n != 1]
  if len(squeezed) <= 1:
    return tuple(range(len(shape)))  # scalars, vectors: one unit
  if len(shape) in (2, 3):
    return (0,)  # linear and multi-head linear layers, IO
  if len(shape) == 4:
    return (0, 1, 2)  # convolutions, HWIO
  raise AssertionError(shape)


def _unit_norm(x, axes):
  return np.sqrt((np.asarray(x, np.float64) ** 2).sum(axis=axes, keepdims=True))


SHAPES = [(), (1,), (5,), (4, 3), (1, 5), (5, 1), (1, 1), (2, 3, 4), (1, 3, 4),
          (3, 1, 4), (2, 3, 2, 5), (1, 1, 4, 3), (1, 1, 1, 6), (2, 2, 1, 1),
          (3, 2, 2, 1), (40, 3), (3, 40), (33,), (0, 3), (3, 3, 9, 17)]


def _adaptive(ctx, tol):
  n = int(ctx.rng.integers(1, 5))
  shapes = [SHAPES[ctx.rep % len(SHAPES)]] + [ctx.pick(SHAPES) for _ in range(n)]
  names = [f'p{i}' for i in range(len(shapes))]
  c = float(ctx.pick([.01, .1, 1., 30., work.logu(ctx, 1e-6, 2.)]))
  eps = ctx.pick([None, 1e-3, .5, 1e-2, 10., 1e-7])
  pscale = ctx.pick([1., 1., 1e-6, 100., 0.])
  p = {k: np.asarray(ctx.rng.normal(size=s) * pscale, F)
       for k, s in zip(names, shapes)}
  opt = (optax.adaptive_grad_clip(c) if eps is None else
         optax.adaptive_grad_clip(c, eps))
  eps = 1e-3 if eps is None else eps
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  state = opt.init(p)
  ctx.describe(shapes=shapes, clipping=c, eps=eps, params=pscale)
  for _ in range(5):
    g = {}
    for k, s in zip(names, shapes):
      x = ctx.rng.normal(size=s)
      # Units on both sides of their bound.
      ax = unit_axes(s)
      lim = c * np.maximum(_unit_norm(p[k], ax), eps)
      un = np.maximum(_unit_norm(x, ax), 1e-12)
      r = np.exp(ctx.rng.normal(size=un.shape) * 2.)
      r = np.where(np.abs(np.log(r)) < 1e-2, 1.5, r)
      g[k] = np.asarray(x / un * lim * r, F)
      if ctx.coin(.15):
        g[k] = np.zeros_like(g[k])
    u, state = upd(work.to_jax(g), state, work.to_jax(p))
    for k, s in zip(names, shapes):
      ax = unit_axes(s)
      lim = c * np.maximum(_unit_norm(p[k], ax), eps)
      gn = _unit_norm(g[k], ax)
      small = np.broadcast_to(gn < lim * (1 - tol), s)
      got = np.asarray(u[k])
      ctx.ok(np.all(_unit_norm(got, ax) <= lim * (1 + tol)),
             f'unit norms of a {s} parameter', got=_unit_norm(got, ax), bound=lim)
      ctx.ok(np.all(got[small] == g[k][small]), f'units in bounds, {s}',
             got=got, want=g[k])
      f = np.where(gn < lim, 1., lim / np.maximum(gn, 1e-6))
      ctx.close([got], [np.asarray(g[k], np.float64) * f], f'clipped units, {s}',
                rtol=20 * tol)
      ctx.count('clipped', int((gn >= lim).sum()))
      ctx.count('untouched', int((gn < lim).sum()))


@scenario(env='x64', quick=75, thorough=1000)
def adaptive(ctx):
  _adaptive(ctx, 1e-10)


@scenario(env='x32', quick=30, thorough=400)
def adaptive32(ctx):
  _adaptive(ctx, 1e-5)


@scenario(env='x32', quick=40, thorough=400)
def overflowing(ctx):
  """Finite gradients whose squares overflow are still bounded."""
  kind = ctx.cycle(work.PLAIN)
  p = work.params(ctx, kind)
  b = float(ctx.pick([.1, 1., 50.]))
  which = ctx.cycle(['global', 'elements', 'adaptive'])
  if which == 'adaptive' and kind == 'rank5':
    kind = 'conv'
    p = work.params(ctx, kind)
  opt = {'global': lambda: optax.clip_by_global_norm(b),
         'elements': lambda: optax.clip(b),
         'adaptive': lambda: optax.adaptive_grad_clip(b)}[which]()
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  s = opt.init(p)
  ctx.describe(tree=kind, bound=b, clip=which)
  for top in (1e18, 1e19, 3e19, 1e25, 1e37):
    g = tree_map(lambda x: np.asarray(np.sign(ctx.rng.normal(size=x.shape)) *
                                      ctx.rng.uniform(.5, 1, x.shape) * top, F), p)
    if ctx.coin(.4):  # only one entry is that large
      k = [0]
      def one(x):
        k[0] += 1
        y = ctx.rng.normal(size=x.shape)
        if k[0] == 1:
          y.reshape(-1)[0] = top
        return np.asarray(y, F)
      g = tree_map(one, p)
    u, s = upd(work.to_jax(g), s, p)
    ctx.finite(u, f'clipped, magnitude {top}')
    if which == 'global':
      ctx.ok(_norm(u) <= b * (1 + 1e-5), 'global norm', got=_norm(u), bound=b)
    elif which == 'elements':
      ctx.same(u, tree_map(lambda x: np.clip(x, -np.float32(b), np.float32(b)), g),
               'clipped elements')
    else:
      for x, w in zip(tree_leaves(u), tree_leaves(p)):
        ax = unit_axes(np.shape(w))
        lim = b * np.maximum(_unit_norm(w, ax), 1e-3)
        ctx.ok(np.all(_unit_norm(x, ax) <= lim * (1 + 1e-5)), 'unit norms',
               got=_unit_norm(x, ax), bound=lim)
    ctx.count('overflowing')


@scenario(env='x32', quick=20, thorough=200)
def infinite_elements(ctx):
  """Element clipping maps infinities onto the bound, one by one."""
  b = float(ctx.pick([.1, 1., 50.]))
  x = np.asarray(ctx.rng.normal(size=(4, 3)) * b * 2, F)
  x[ctx.rng.random((4, 3)) < .3] = np.inf
  x[ctx.rng.random((4, 3)) < .2] = -np.inf
  opt = optax.clip(b)
  u, _ = opt.update(jnp.asarray(x), opt.init(x))
  ctx.same(u, np.clip(x, -np.float32(b), np.float32(b)), 'clipped elements')


@scenario(env='x32', quick=24, thorough=240)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  half.agree(ctx, {
      'elements': lambda: optax.clip(1.5),
      'norm': lambda: optax.clip_by_global_norm(.5),
      'large norm': lambda: optax.clip_by_global_norm(1e4),
      'adaptive': lambda: optax.adaptive_grad_clip(.25)},
             kinds=['vector', 'matrix_bias', 'nested', 'custom', 'scalar', 'conv',
                    'one', 'many', 'crowd'])
