"""C32: step counters saturate at the end of their range."""
import numpy as np

from mon import catalog, core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax
from optax._src import numerics

RULE = ('Every transformation that counts steps is moved to the last few '
        'steps of the integer range by editing the counters of its state, '
        'then driven past the end: counters must stop at the maximum, updates '
        'must stay finite and equal to those of a fresh state at any other '
        'huge count, and schedules, predicates and accumulation periods log '
        'the steps they were asked about.')
ASSUMPTIONS = ['Reaching the end by stepping is replaced by editing the state.']
MIN_EVALS = 2500
MIN_DISTINCT = 350
MIN_COUNTERS = {'steps at the end': 500, 'increments': 300}

COUNTERS = ('count', 'gradient_step', 'step', 'total_notfinite')


def edit(state, fn, path=''):
  """Applies fn to every step counter of a state."""
  if hasattr(state, '_fields'):
    if type(state).__name__ == 'ApplyEvery':
      return state
    return type(state)(*[
        fn(v) if k in COUNTERS else edit(v, fn) for k, v in
        zip(state._fields, state)])
  if isinstance(state, (tuple, list)):
    return type(state)(edit(v, fn) for v in state)
  if isinstance(state, dict):
    return type(state)((k, edit(v, fn)) for k, v in state.items())
  return state


def counters(state):
  out = []
  edit(state, lambda v: out.append(v) or v)
  return out


COUNTING = [
    'ema', 'scale_by_adam', 'scale_by_belief', 'scale_by_yogi', 'scale_by_radam',
    'scale_by_schedule', 'add_noise', 'adam', 'adamw', 'adabelief', 'lamb',
    'noisy_sgd', 'radam', 'yogi', 'chain', 'masked', 'flatten', 'apply_if_finite',
    'inject_hyperparams', 'inject_constant', 'deep', 'multi_steps',
    'multi_steps_schedule', 'maybe_update', 'lookahead']


def top(v):
  return int(np.iinfo(np.asarray(v).dtype).max)


def _catalog(ctx):
  name = ctx.cycle(COUNTING)
  e = catalog.CATALOG[name]
  kind, p, gs = catalog.problem(ctx, e, kind=ctx.pick(work.PLAIN), steps=7)
  opt = e.build(int(ctx.rng.integers(1000)))
  state = opt.init(p)
  cs = counters(state)
  ctx.describe(optimiser=name, tree=kind)
  ctx.ok(len(cs) > 0 or ('sgd' in name), 'the state has a counter')
  left = int(ctx.pick([0, 1, 3]))
  moved = edit(state, lambda v: jnp.asarray(top(v) - left, v.dtype))
  upd = jax.jit(opt.update)
  prev = counters(moved)
  s, ups = moved, []
  for t, g in enumerate(gs):
    u, s = upd(work.to_jax(g), s, p)
    now = counters(s)
    for a, b in zip(prev, now):
      reset = name == 'lookahead' and int(b) == 0
      ctx.ok(reset or int(a) <= int(b) <= min(top(a), int(a) + 1) and
             np.asarray(a).dtype == np.asarray(b).dtype, f'counter after {t}', before=a, after=b)
    ctx.finite(u, f'updates at {t}')
    ups.append(u)
    prev = now
    ctx.count('steps at the end')
    ctx.seen(name, left, t, ctx.rep)
  if name not in ('add_noise', 'lookahead', 'noisy_sgd', 'maybe_update', 'multi_steps_schedule'):
    for c in prev:
      if name in ('multi_steps', 'apply_if_finite', 'deep', 'lookahead'):
        continue
      ctx.ok(int(c) == top(c), 'counter stops at the top', got=c)
    far = edit(state, lambda v: jnp.asarray(top(v) - 10 ** 6, v.dtype))
    for t, g in enumerate(gs):
      u, far = upd(work.to_jax(g), far, p)
      ctx.close(ups[t], u, f'updates at the end and shortly before, {t}', rtol=2e-4,
                atol=1e-7)


@scenario(env='x32', quick=75, thorough=800)
def library(ctx):
  _catalog(ctx)


@scenario(env='x64', quick=25, thorough=300)
def library64(ctx):
  _catalog(ctx)


def _increment(ctx):
  fn = numerics.safe_int32_increment
  fn = jax.jit(fn) if ctx.coin() else fn
  m = 2 ** 31 - 1
  for v in [0, 1, m, m - 1, m - 2, 46340, int(ctx.rng.integers(m))] + [
      int(2 ** ctx.rng.integers(31)) for _ in range(3)]:
    out = fn(jnp.asarray(v, jnp.int32))
    ctx.ok(int(out) == min(v + 1, m) and out.dtype == jnp.int32 and out.shape == (),
           'increment', of=v, got=out)
    ctx.count('increments')
    ctx.seen(v)
  vs = np.asarray([0, 5, m - 1, m], np.int32)
  ctx.same(jax.vmap(fn)(jnp.asarray(vs)), jnp.asarray([1, 6, m, m], jnp.int32),
           'vectorised increment')


@scenario(env='x32', quick=20, thorough=100)
def increment(ctx):
  _increment(ctx)


@scenario(env='x64', quick=20, thorough=100)
def increment64(ctx):
  _increment(ctx)


def _asked(ctx):
  """What user functions see at the end of the range."""
  which = ctx.cycle(['schedule', 'inject', 'multi', 'maybe', 'finite'])
  log = []

  def spy(ret):
    def f(c):
      jax.debug.callback(lambda c: log.append(int(c)), c, ordered=True)
      return ret(c)
    return f
  p = work.params(ctx, ctx.pick(work.PLAIN))
  g = work.to_jax(work.grad_history(ctx, p, 1, 'normal')[0])
  ctx.describe(which=which)
  if which == 'schedule':
    opt = optax.scale_by_schedule(spy(lambda c: 1. + 0. * c))
  elif which == 'inject':
    opt = optax.inject_hyperparams(optax.scale)(spy(lambda c: 1. + 0. * c))
  elif which == 'multi':
    opt = optax.MultiSteps(optax.identity(), spy(lambda c: 1 + (c < 0) * 5)
                           ).gradient_transformation()
  elif which == 'maybe':
    opt = optax.maybe_update(optax.scale(2.), spy(lambda c: c >= 0))
  else:
    opt = optax.apply_if_finite(optax.identity(), 2)
  s = opt.init(p)
  left = int(ctx.pick([0, 1, 2]))
  limit = top(counters(s)[0])
  start = limit - left
  s = edit(s, lambda v: jnp.asarray(start, v.dtype))
  log.clear()
  if which == 'finite':
    s = s._replace(notfinite_count=jnp.asarray(start, s.notfinite_count.dtype))
    bad = tree_map(lambda x: x + jnp.nan, g)
    for t in range(5):
      u, s = opt.update(bad, s, p)
      ctx.ok(int(s.total_notfinite) == min(start + 1 + t, limit) and
             int(s.notfinite_count) == min(start + 1 + t, limit),
             f'error counters after {t}', got=(s.total_notfinite, s.notfinite_count))
      ctx.same(u, bad, 'given up on rejecting')
      ctx.count('steps at the end')
    u, s = opt.update(g, s, p)
    ctx.ok(int(s.notfinite_count) == 0, 'consecutive errors are reset')
    ctx.ok(int(s.total_notfinite) == limit, 'total is kept', got=s.total_notfinite)
    return
  upd = jax.jit(opt.update)
  for t in range(5):
    u, s = upd(g, s, p)
    jax.block_until_ready(u)
    jax.effects_barrier()
    want = 2. if which == 'maybe' else 1.
    ctx.close(u, tree_map(lambda x: want * np.asarray(x, np.float64), g), f'update {t}',
              rtol=1e-6)
    ctx.count('steps at the end')
  first = start + 1 if which == 'inject' else start
  seen = [int(v) for v in log]
  ctx.ok(len(seen) == 5 and seen == [min(first + t, limit) for t in range(5)],
         'steps the function was asked about', got=seen)


@scenario(env='x32', quick=30, thorough=200)
def asked(ctx):
  _asked(ctx)


@scenario(env='x64', quick=10, thorough=100)
def asked64(ctx):
  _asked(ctx)
