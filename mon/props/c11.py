"""C11: schedules are read once per applied step, at the step's number."""
import numpy as np

from mon import catalog, core, half, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Recording schedules (in eager runs) and arbitrary lookup tables with '
        'poison beyond the run (in compiled ones) are given to every place '
        'that takes a schedule; the monitor checks the counts asked for and '
        'compares each update with the one at learning rate one, times the '
        'scheduled value.')
ASSUMPTIONS = ['Hyperparameter injection reads its schedules at a count of '
               'its own, decided by C22.']
MIN_EVALS = 1500
MIN_DISTINCT = 300
MIN_COUNTERS = {'schedule reads': 300}


def table_schedule(tab):
  """Any sequence of values; NaN outside of it."""
  arr = jnp.asarray(np.concatenate([tab, [np.nan]]), F)
  n = len(tab)

  def f(count):
    c = jnp.asarray(count)
    return arr[jnp.where((c >= 0) & (c < n), c, n)]
  return f


class Recorder:
  """A schedule that logs the counts it is asked for."""

  def __init__(self, tab):
    self.tab, self.log = tab, []

  def __call__(self, count):
    self.log.append(int(count))
    return float(self.tab[self.log[-1]]) if 0 <= self.log[-1] < len(
        self.tab) else float('nan')


ALIASES = {
    'sgd': lambda s: optax.sgd(s),
    'sgd_momentum': lambda s: optax.sgd(s, .9),
    'sgd_nesterov': lambda s: optax.sgd(s, .9, True),
    'adam': lambda s: optax.adam(s),
    'adamw': lambda s: optax.adamw(s, weight_decay=.1),
    'adabelief': lambda s: optax.adabelief(s, eps=1e-5),
    'adagrad': lambda s: optax.adagrad(s),
    'lamb': lambda s: optax.lamb(s, weight_decay=.1),
    'radam': lambda s: optax.radam(s),
    'rmsprop': lambda s: optax.rmsprop(s, eps=1e-4),
    'rmsprop_centered': lambda s: optax.rmsprop(s, eps=1e-2, centered=True),
    'yogi': lambda s: optax.yogi(s),
    'dpsgd': lambda s: optax.dpsgd(s, 1., 0., 3),
    'noisy_sgd': lambda s: optax.noisy_sgd(s, .1, .55, 7),
}
NAMES = list(ALIASES)


def _problem(ctx, name, steps):
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  like = p
  if name == 'dpsgd':
    like = tree_map(lambda a: np.zeros((3,) + np.shape(a)), p)
  return kind, p, work.grad_history(ctx, like, steps, ctx.pick(
      ['normal', 'lognormal', 'ties', 'alternating']))


def _values(ctx, n):
  """Values with no pattern: zeros, repeats, jumps, negatives, tiny."""
  v = ctx.rng.normal(size=n) * np.exp(2 * ctx.rng.normal(size=n))
  v[ctx.rng.random(n) < .15] = 0.
  return v


@scenario(env='x64', quick=70, thorough=700)
def compiled(ctx):
  """update at step t is the update at learning rate one times schedule(t)."""
  name = ctx.cycle(NAMES)
  n = 12
  kind, p, gs = _problem(ctx, name, n)
  tab = _values(ctx, n)
  ctx.describe(optimiser=name, tree=kind, table=tab)
  opt, one = ALIASES[name](table_schedule(tab)), ALIASES[name](1.)
  u1, u2 = jax.jit(opt.update), jax.jit(one.update)
  s1, s2 = opt.init(p), one.init(p)
  for t, g in enumerate(gs):
    g = work.to_jax(g)
    a, s1 = u1(g, s1, p)
    b, s2 = u2(g, s2, p)
    ctx.close(a, tree_map(lambda x: np.asarray(x) * tab[t], b),
              f'step {t} at its scheduled value', rtol=1e-8)
    p = work.add(p, b if ctx.coin() else a)
    ctx.count('scheduled steps')


@scenario(env='x64', quick=42, thorough=420)
def counts_asked(ctx):
  """Eagerly, the schedule is called once per update, with 0, 1, 2, ..."""
  name = ctx.cycle(NAMES)
  n = 8
  kind, p, gs = _problem(ctx, name, n)
  rec = Recorder(_values(ctx, n))
  ctx.describe(optimiser=name, tree=kind)
  opt = ALIASES[name](rec)
  state = opt.init(p)
  del rec.log[:]
  for t, g in enumerate(gs):
    _, state2 = opt.update(work.to_jax(g), state, p)
    ctx.ok(rec.log and set(rec.log) == {t}, f'counts asked for at step {t}',
           got=rec.log)
    ctx.count('schedule reads', len(rec.log))
    del rec.log[:]
    if ctx.coin(.3):  # Replaying a state asks for the same count again.
      opt.update(work.to_jax(g), state, p)
      ctx.ok(set(rec.log) == {t}, f'count asked for when replaying {t}',
             got=rec.log)
      del rec.log[:]
    state = state2
    ctx.seen(name, t, ctx.rep)


@scenario(env='x64', quick=40, thorough=400)
def scale_by_schedule(ctx):
  """Alone, and several in one chain, each at its own count."""
  n = 10
  k = 1 + ctx.rep % 3
  tabs = [_values(ctx, n) for _ in range(k)]
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  gs = work.grad_history(ctx, p, n)
  ctx.describe(tree=kind, tables=k)
  opt = optax.chain(*[optax.scale_by_schedule(table_schedule(t)) for t in tabs])
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  s = opt.init(p)
  for t, g in enumerate(gs):
    u, s = upd(work.to_jax(g), s, p)
    m = float(np.prod([tab[t] for tab in tabs]))
    ctx.close(u, tree_map(lambda x: m * np.asarray(x), g), f'step {t}', rtol=1e-9)
    ctx.count('scheduled steps')


@scenario(env='x64', quick=48, thorough=480)
def under_wrappers(ctx):
  """Only applied steps advance a wrapped optimiser's schedule."""
  n = 14
  which = ctx.cycle(['finite', 'multi', 'maybe', 'masked', 'flatten', 'lookahead'])
  kind = ctx.pick([k for k in work.PLAIN])
  p = work.params(ctx, kind)
  gs = work.grad_history(ctx, p, n, 'normal')
  tab = _values(ctx, n)
  inner = optax.sgd(table_schedule(tab))
  ctx.describe(wrapper=which, tree=kind)
  applied = 0
  if which == 'finite':
    opt = optax.apply_if_finite(inner, 100)
    bad = ctx.rng.random(n) < .4
    gs = [tree_map(lambda x: np.full_like(x, np.nan), g) if b else g
          for g, b in zip(gs, bad)]
    upd = jax.jit(opt.update)
    s = opt.init(p)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, p)
      want = tree_map(np.zeros_like, g) if bad[t] else tree_map(
          lambda x: -tab[applied] * x, g)
      ctx.close(u, want, f'step {t}', rtol=1e-9)
      applied += not bad[t]
  elif which == 'multi':
    k = ctx.pick([2, 3, 4])
    opt = optax.MultiSteps(inner, k)
    upd = jax.jit(opt.update)
    s = opt.init(p)
    acc = tree_map(np.zeros_like, gs[0])
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, p)
      acc = tree_map(lambda a, b: a + b, acc, g)
      if t % k == k - 1:
        want = tree_map(lambda x: -tab[applied] * x / k, acc)
        acc = tree_map(np.zeros_like, acc)
        applied += 1
      else:
        want = tree_map(np.zeros_like, g)
      ctx.close(u, want, f'step {t}', rtol=1e-8, atol=1e-14)
  elif which == 'maybe':
    on = ctx.rng.random(n) < .5
    arr = jnp.asarray(on)
    opt = optax.maybe_update(inner, lambda c: arr[c])
    upd = jax.jit(opt.update)
    s = opt.init(p)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, p)
      want = tree_map(lambda x: -tab[applied] * x, g) if on[t] else g
      ctx.close(u, want, f'step {t}', rtol=1e-9)
      applied += bool(on[t])
  elif which == 'masked':
    opt = optax.masked(inner, lambda t: tree_map(lambda x: x.ndim != 1, t))
    upd = jax.jit(opt.update)
    s = opt.init(p)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, p)
      ctx.close(u, tree_map(lambda x: -tab[t] * x if x.ndim != 1 else x, g),
                f'step {t}', rtol=1e-9)
  elif which == 'flatten':
    opt = optax.flatten(inner)
    upd = jax.jit(opt.update)
    s = opt.init(p)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, p)
      ctx.close(u, tree_map(lambda x: -tab[t] * x, g), f'step {t}', rtol=1e-9)
  else:
    opt = optax.lookahead(inner, 100, .5)
    upd = jax.jit(opt.update)
    q = optax.LookaheadParams.init_synced(p)
    s = opt.init(q)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, q)
      ctx.close(u.fast, tree_map(lambda x: -tab[t] * x, g), f'step {t}', rtol=1e-9)
      q = work.add(q, u)
  ctx.count(f'wrapped: {which}')


@scenario(env='x32', quick=20, thorough=200)
def counts_late(ctx):
  """The count a schedule sees is exact arbitrarily late in a run."""
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  g = work.to_jax(work.grad_history(ctx, p, 1, 'normal')[0])
  start = int(ctx.pick([1000, 2**16 - 2, 2**24 - 2, 2**24 + 3, 2**30 + 1,
                        2**31 - 8]))
  log = []

  def sch(c):
    log.append(int(c))
    return 1.
  opt = optax.scale_by_schedule(sch)
  s = opt.init(p)
  s = tree_map(lambda x: jnp.asarray(start, x.dtype), s)
  ctx.describe(start=start)
  for t in range(5):
    _, s = opt.update(g, s, p)
  ctx.ok(log == list(range(start, start + 5)), 'counts', got=log)
  ctx.count('schedule reads', 5)
  ctx.seen('late', start, ctx.rep)


KINDS = {
    'int': lambda t: int(t), 'float': lambda t: float(t), 'bool': lambda t: bool(t > 1),
    'np.float32': lambda t: np.float32(t), 'np.int64': lambda t: np.int64(t),
    'np.array': lambda t: np.asarray(t, np.float64), 'float16': lambda t: jnp.asarray(t, jnp.float16),
    'bfloat16': lambda t: jnp.asarray(t, jnp.bfloat16), 'int32': lambda t: jnp.asarray(t, jnp.int32),
    'float64': lambda t: jnp.asarray(t, jnp.float64),
}


def _kinds(ctx):
  """Schedules may return numbers of any kind."""
  name = ctx.pick(['scale_by_schedule', 'sgd', 'adam', 'sgd_momentum'])
  kind = ctx.cycle(KINDS)
  tab = [2, 0, -3, 1, 4]
  if kind == 'bool':
    tab = [0, 1, 1, 0, 1]
  conv = KINDS[kind]
  if kind == 'bool':
    conv = lambda v: bool(v)
  sch = lambda c: conv(tab[int(c)])
  make = optax.scale_by_schedule if name == 'scale_by_schedule' else ALIASES[name]
  p = work.params(ctx, ctx.pick(work.PLAIN))
  ctx.describe(optimiser=name, returns=kind)
  opt, one = make(sch), make(1. if name in ALIASES else (lambda c: 1.))
  s1, s2 = opt.init(p), one.init(p)
  for t, g in enumerate(work.grad_history(ctx, p, len(tab), 'normal')):
    g = work.to_jax(g)
    a, s1 = opt.update(g, s1, p)
    b, s2 = one.update(g, s2, p)
    ctx.structure(a, p, f'updates at step {t}')
    ctx.close(a, tree_map(lambda x: np.asarray(x) * float(tab[t]), b),
              f'step {t} with a value of type {kind}', rtol=1e-9 if X64 else 1e-5)
    ctx.count('scheduled steps')


@scenario(env='x64', quick=20, thorough=200)
def kinds(ctx):
  _kinds(ctx)


@scenario(env='x32', quick=20, thorough=200)
def kinds32(ctx):
  _kinds(ctx)


@scenario(env='x32', quick=20, thorough=200)
def half_precision(ctx):
  """The same rules at bfloat16 and float16, where counts are not rounded."""
  start = int(ctx.pick([0, 0, 300, 2049, 99999]))
  odd = lambda n: jnp.where(n % 2 == 1, 1., -.3)
  half.agree(ctx, {
      'linear': lambda: optax.scale_by_schedule(optax.linear_schedule(1., .5, 4, start)),
      'steps': lambda: optax.scale_by_schedule(lambda n: jnp.where(n < start + 3, 1., -.3)),
      'odd': lambda: optax.scale_by_schedule(odd),
      'sgd': lambda: optax.chain(optax.scale_by_schedule(odd), optax.trace(.5))},
             warp=lambda s: tree_map(
                 lambda x: jnp.asarray(start, x.dtype)
                 if jnp.issubdtype(x.dtype, jnp.integer) else x, s))
