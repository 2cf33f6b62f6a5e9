"""C17: apply_every emits the accumulated updates every k-th step."""
import numpy as np

from mon import core, half, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Update histories, some with NaN or Inf inside a window, run through '
        'accumulation periods 1 to 12; every emitted tree is compared with '
        'the sum over its own window, every other with zero, and the totals '
        'are conserved.')
ASSUMPTIONS = ['Periods are at least one.']
MIN_EVALS = 2000
MIN_DISTINCT = 200
MIN_COUNTERS = {'emitted': 300, 'held back': 600}


def _drive(ctx, rtol):
  k = 1 + ctx.rep % 12
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  n = 3 * k + int(ctx.rng.integers(0, k + 1)) + 4
  gs = work.grad_history(ctx, p, n, ctx.pick(['normal', 'lognormal', 'integers',
                                              'sparse', 'large']))
  unit = float(ctx.pick([1., 1., 1e-9, 1e-20]))
  gs = [tree_map(lambda x: np.asarray(x * unit, x.dtype), g) for g in gs]
  faulty = ctx.coin(.4)
  if faulty:
    t = int(ctx.rng.integers(0, k))  # in the first window only
    v = ctx.pick([np.nan, np.inf, -np.inf])
    gs[t] = tree_map(lambda x: np.full_like(x, v), gs[t])
  ctx.describe(tree=kind, k=k, faulty=faulty)
  opt = (optax.apply_every(k) if ctx.coin() else optax.apply_every(k=k))
  upd = jax.jit(opt.update) if ctx.coin(.7) else opt.update
  s = opt.init(p)
  acc = [np.zeros(x) for x in seq.shapes(p)]
  for t, g in enumerate(gs):
    u, s = upd(work.to_jax(g), s, *([p] if ctx.coin() else []))
    with np.errstate(all='ignore'):
      acc = [a + x for a, x in zip(acc, seq.leaves64(g))]
    top = max([unit] + [np.abs(a)[np.isfinite(a)].max(initial=0.) for a in acc] +
              [np.abs(x)[np.isfinite(x)].max(initial=0.) for h in gs[max(0, t - k):t + 1]
               for x in seq.leaves64(h)])
    if t % k == k - 1:
      ctx.close(list(tree_leaves(u)), acc, f'emission at step {t}', rtol=rtol,
                scale=top)
      acc = [np.zeros(x) for x in seq.shapes(p)]
      ctx.count('emitted')
    else:
      ctx.close(list(tree_leaves(u)), [np.zeros(x) for x in seq.shapes(p)],
                f'step {t} between emissions', rtol=0., atol=0.)
      ctx.count('held back')
    ctx.structure(u, g, f'structure at {t}')
    ctx.seen(k, t, kind, ctx.rep)


@scenario(env='x64', quick=72, thorough=1000)
def windows(ctx):
  _drive(ctx, 1e-12)


@scenario(env='x32', quick=36, thorough=400)
def windows32(ctx):
  _drive(ctx, 1e-5)


@scenario(env='x64', quick=24, thorough=240)
def in_chain(ctx):
  """After a preconditioner, the net displacement is the sum of its updates."""
  k = 1 + ctx.rep % 6
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  m = 4
  gs = work.grad_history(ctx, p, m * k, 'normal')
  pre = ctx.pick([lambda: optax.adam(.1), lambda: optax.sgd(.1, .9),
                  lambda: optax.rmsprop(.1)])
  ctx.describe(k=k, tree=kind)
  opt = optax.chain(pre(), optax.apply_every(k))
  s, q = opt.init(p), p
  ref = pre()
  rs, total = ref.init(p), tree_map(np.zeros_like, p)
  upd, rupd = jax.jit(opt.update), jax.jit(ref.update)
  for t, g in enumerate(gs):
    g = work.to_jax(g)
    u, s = upd(g, s, p)
    q = work.add(q, u)
    r, rs = rupd(g, rs, p)
    total = tree_map(lambda a, b: a + np.asarray(b), total, r)
    if t % k == k - 1:
      ctx.close(q, tree_map(lambda a, b: np.asarray(a) + b, p, total),
                f'displacement after step {t}', rtol=1e-9, scale=1.)
      ctx.count('emitted')
    else:
      ctx.count('held back')


@scenario(env='x64', quick=46, thorough=300)
def long_periods(ctx):
  """Every period up to 130, then any, in one compiled loop."""
  for i in range(3):
    k = 3 * ctx.rep + i + 1
    if k > 130:
      k = int(ctx.rng.integers(1, 1000))
    n = 2 * k + int(ctx.rng.integers(0, k)) + 1
    opt = optax.apply_every(k)
    ctx.describe(k=k)
    g = jnp.asarray(ctx.rng.integers(-5, 6, size=(n, 3)), F)
    s0 = opt.init(jnp.zeros(3, F))
    _, us = jax.jit(lambda g: jax.lax.scan(
        lambda s, x: opt.update(x, s)[::-1], s0, g))(g)
    want = np.zeros((n, 3))
    for i in range(n // k):
      want[i * k + k - 1] = np.asarray(g[i * k:(i + 1) * k]).sum(0)
    ctx.close(us, want, f'emissions of period {k}', rtol=0., atol=0.)
    ctx.count('emitted', n // k)
    ctx.count('held back', n - n // k)


@scenario(env='x32', quick=16, thorough=160)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  k = int(ctx.pick([1, 2, 3]))
  half.agree(ctx, {'every': lambda: optax.apply_every(k)})
