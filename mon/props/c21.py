"""C21: lookahead equals its two nested loops."""
import numpy as np

from mon import core, half, ref, seq, spies, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Lookahead around probes and library optimisers is driven over '
        'gradient histories next to the two nested loops of the paper run in '
        'float64; fast and slow parameters, the fast state and the '
        'synchronisation counter are compared after every step.')
ASSUMPTIONS = ['Updates are applied unmodified.']
MIN_EVALS = 4000
MIN_DISTINCT = 500
MIN_COUNTERS = {'synchronisations': 200, 'fast steps': 800}


def _drive(ctx, rtol, k=None):
  long = k is not None
  k = int(ctx.pick([1, 2, 3, 4, 5, 7, 11])) if k is None else k
  a = float(ctx.pick([0., .2, .5, .8, 1., 1.5, -.4, ctx.rng.random()]))
  reset = ctx.coin()
  kind = ctx.cycle(['matrix_bias', 'custom', 'nested'] if long else work.KINDS)
  p0 = work.params(ctx, kind)
  apart = ctx.coin(.3)
  p = optax.LookaheadParams.init_synced(p0)
  if apart:
    p = optax.LookaheadParams(fast=p0, slow=work.params(ctx, kind))
  plain_init = ctx.coin(.2)
  co = dict(a=-.1, b=-.05, c=-.01, d=.001)
  ctx.describe(tree=kind, period=k, slow_step=a, reset=reset, apart=apart)
  opt = (optax.lookahead(spies.probe(**co), k, a, reset) if ctx.coin() else
         optax.lookahead(spies.probe(**co), sync_period=k, slow_step_size=a,
                         reset_state=reset))
  upd = jax.jit(opt.update) if ctx.coin(.7) or long else opt.update
  state = opt.init(p.fast if plain_init else p)
  model = spies.ProbeModel(seq.leaves64(p.fast), **co)
  fast, slow = seq.leaves64(p.fast), seq.leaves64(p.slow)
  since = 0
  n = 300 if long and k < 10 else 3 * k + 5
  for t, g in enumerate(work.grad_history(ctx, p0, n, ctx.pick(
      ['normal', 'sparse', 'ties', 'alternating', 'constant']))):
    ctx.ok(int(state.steps_since_sync) == since, f'steps since sync before {t}',
           got=state.steps_since_sync, want=since)
    u, state = upd(work.to_jax(g), state, p)
    p = optax.apply_updates(p, u)
    before = fast
    step = model.step(seq.leaves64(g), fast)
    fast = [f + x for f, x in zip(fast, step)]
    since += 1
    ctx.count('fast steps')
    if since == k:
      slow = [s + a * (f - s) for s, f in zip(slow, fast)]
      fast = [s.copy() for s in slow]
      since = 0
      if reset:
        model.reset(before)
      ctx.count('synchronisations')
      ctx.close(tree_leaves(p.fast), [np.asarray(x) for x in tree_leaves(p.slow)],
                f'fast and slow after synchronising at {t}', rtol=rtol * 10,
                scale=1.)
    ctx.close(tree_leaves(p.fast), fast, f'fast params after {t}', rtol=rtol,
              scale=1.)
    ctx.close(tree_leaves(p.slow), slow, f'slow params after {t}', rtol=rtol,
              scale=1.)
    ctx.ok(int(state.fast_state['n']) == model.n, f'fast state after {t}',
           got=state.fast_state['n'], want=model.n)
    ctx.close(tree_leaves(state.fast_state['m']), model.m, f'fast memory after {t}',
              rtol=rtol, scale=1.)
    ctx.seen(k, t, ctx.rep)


@scenario(env='x64', quick=70, thorough=1000)
def machine(ctx):
  _drive(ctx, 1e-9)


@scenario(env='x32', quick=40, thorough=400)
def machine32(ctx):
  _drive(ctx, 1e-4)


@scenario(env='x64', quick=14, thorough=140)
def long_history(ctx):
  """Long periods, and many short ones."""
  _drive(ctx, 1e-8, ctx.cycle([2, 16, 33, 1, 100, 128, 256]))


@scenario(env='x64', quick=40, thorough=400)
def library(ctx):
  """Around library optimisers, against hand-written nested loops."""
  mk = ctx.cycle([lambda: optax.adam(.1), lambda: optax.sgd(.1, .9),
                  lambda: optax.adamw(.1, weight_decay=.1),
                  lambda: optax.lamb(.05, weight_decay=.1),
                  lambda: optax.yogi(.1), lambda: optax.rmsprop(.05, eps=1e-3),
                  lambda: optax.sgd(optax.linear_schedule(.1, .01, 7))])
  k, a, reset = int(ctx.pick([1, 2, 3, 5])), float(ctx.pick([.5, .8, 1.])), ctx.coin()
  kind = ctx.pick(work.PLAIN)
  p0 = work.params(ctx, kind)
  ctx.describe(tree=kind, period=k, slow_step=a, reset=reset, which=ctx.rep % 7)
  opt, inner = optax.lookahead(mk(), k, a, reset), mk()
  p = optax.LookaheadParams.init_synced(p0)
  s = opt.init(p)
  fast = slow = p0
  si = inner.init(fast)
  upd, iupd = jax.jit(opt.update), jax.jit(inner.update)
  gs = work.grad_history(ctx, p0, 3 * k + 2, 'normal')
  for t, g in enumerate(gs):
    g = work.to_jax(g)
    u, s = upd(g, s, p)
    p = optax.apply_updates(p, u)
    w, si = iupd(g, si, fast)
    fast = work.add(fast, w)
    ctx.count('fast steps')
    if t % k == k - 1:
      slow = tree_map(lambda x, y: x + a * (y - x), slow, fast)
      fast = slow
      if reset:
        si = inner.init(fast)
      ctx.count('synchronisations')
    ctx.close(p.fast, fast, f'fast params after {t}', rtol=1e-8, atol=1e-10)
    ctx.close(p.slow, slow, f'slow params after {t}', rtol=1e-8, atol=1e-10)


@scenario(env='x64', quick=20, thorough=200)
def contained(ctx):
  """A diverging slow copy or fast step does not leak where it should not."""
  k = int(ctx.pick([2, 3, 4]))
  kind = ctx.pick(work.PLAIN)
  p0 = work.params(ctx, kind)
  bad = ctx.pick([np.inf, np.nan, -np.inf])
  where = ctx.cycle(['update', 'slow'])
  p = optax.LookaheadParams.init_synced(p0)
  if where == 'slow':
    p = p._replace(slow=tree_map(lambda x: jnp.full_like(x, bad), p0))
  opt = optax.lookahead(optax.sgd(.1), k, .5)
  s = opt.init(p)
  ctx.describe(tree=kind, where=where, value=bad, period=k)
  g = work.to_jax(work.grad_history(ctx, p0, 1, 'normal')[0])
  if where == 'update':
    u, s = opt.update(tree_map(lambda x: jnp.full_like(x, bad), g), s, p)
    ctx.same(u.slow, tree_map(jnp.zeros_like, p0),
             'slow updates between synchronisations')
    ctx.count('fast steps')
  else:
    for t in range(k - 1):
      u, s = opt.update(g, s, p)
      ctx.close(u.fast, tree_map(lambda x: -.1 * np.asarray(x), g),
                'fast updates between synchronisations')
      p = optax.LookaheadParams(fast=work.add(p.fast, u.fast), slow=p.slow)
      ctx.count('fast steps')


@scenario(env='x32', quick=16, thorough=160)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  k = int(ctx.pick([1, 2, 3]))
  half.agree(ctx, {
      'kept': lambda: optax.lookahead(optax.sgd(.5, .5), k, .5),
      'reset': lambda: optax.lookahead(optax.sgd(.5, .5), k, .25, True)},
             ready=lambda p: optax.LookaheadParams(
                 fast=p, slow=jax.tree_util.tree_map(lambda x: x / 2, p)))
