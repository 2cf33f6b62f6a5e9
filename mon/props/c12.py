"""C12: elementary schedules equal their documented closed forms."""
import math

import numpy as np

from mon import core, sched, work
from mon.core import scenario, tree_leaves
from mon.env import F, X64, jax, jnp, optax

RULE = ('Elementary schedules with random and degenerate arguments are read at '
        'every count of a run and around every boundary, with python, numpy '
        'and traced counts up to 2^31-1, and compared with the closed forms '
        'in float64; bounds and monotonicity are checked on the whole trace.')
ASSUMPTIONS = ['Counts are non-negative. Values agree to single precision.']
MIN_EVALS = 4000
MIN_DISTINCT = 400
MIN_COUNTERS = {'counts': 20000}


def counts_for(ctx, marks, span):
  c = set(range(0, 12))
  for m in marks:
    c |= {m - 2, m - 1, m, m + 1, m + 2}
  c |= set(int(x) for x in ctx.rng.integers(0, max(2, span), 60))
  c |= {10**4, 10**6, 2**24 + 1, 2**31 - 1}
  return sorted(x for x in c if 0 <= x <= 2**31 - 1)


def read(ctx, f, counts, mode=None):
  mode = mode or ctx.cycle(['vmap', 'jit', 'python', 'eager', 'numpy'])
  ctx.describe(mode=mode)
  ctx.count('counts', len(counts))
  arr = jnp.asarray(counts, jnp.int32)
  if mode == 'vmap':
    out = jax.vmap(lambda c: jnp.asarray(f(c), F))(arr)
  elif mode == 'jit':
    out = jax.jit(jax.vmap(lambda c: jnp.asarray(f(c), F)))(arr)
  elif mode == 'python':
    out = [float(f(int(c))) for c in counts]
  elif mode == 'numpy':
    out = [float(f(np.int32(c))) for c in counts]
  else:
    out = [float(f(jnp.asarray(c, jnp.int32))) for c in counts]
  return np.asarray(out, np.float64)


def compare(ctx, f, model, counts, scale, rtol=2e-6, mode=None):
  got = read(ctx, f, counts, mode)
  want = np.array([model(c) for c in counts], np.float64)
  bad = ~(np.abs(got - want) <= rtol * np.maximum(np.abs(want), scale) + 1e-37)
  ctx.evals += len(counts)
  ctx._observe('schedule', got)
  if np.any(bad):
    i = int(np.argwhere(bad)[0])
    ctx.fail('value of the schedule', count=counts[i], got=got[i], want=want[i])
  return got


def between(ctx, got, lo, hi, what):
  eps = 3e-6 * max(abs(lo), abs(hi))
  ctx.ok(np.all(got >= min(lo, hi) - eps) and np.all(got <= max(lo, hi) + eps),
         f'{what} leaves [{min(lo, hi)}, {max(lo, hi)}]',
         got=(got.min(), got.max()))


def monotone(ctx, got, sign, what):
  d = np.diff(got) * sign
  eps = 3e-6 * np.abs(got).max(initial=0.)
  ctx.ok(np.all(d >= -eps), f'{what} is not monotone')


def value(ctx):
  return float(ctx.pick([0., 1., 1e-3, .1, 3., 1e-6, -1., ctx.rng.normal(),
                         work.logu(ctx, 1e-5, 1e2)]))


def steps(ctx):
  return int(ctx.pick([1, 2, 3, 7, 10, 41, 47, 55, 100, 1000, 99991,
                       ctx.rng.integers(1, 500), ctx.rng.integers(1, 10**6)]))


def begin(ctx):
  return int(ctx.pick([0, 0, 1, 5, -3, 100, ctx.rng.integers(0, 500)]))


def scalar(ctx, v):
  """Values are passed as python numbers, numpy or JAX scalars."""
  return ctx.pick([lambda: v, lambda: v, lambda: np.float32(v),
                   lambda: jnp.asarray(v, jnp.float32)])()


def _f32(v):
  return float(np.float32(v))


@scenario(env='x64', quick=120, thorough=2000)
def polynomial(ctx):
  a, b = value(ctx), value(ctx)
  power = float(ctx.pick([1, 1, 2, 3, .5, 1.5, 2.5, .25, 4.2, 8, .1, 20]))
  n, b0 = steps(ctx), begin(ctx)
  ctx.describe(init=a, end=b, power=power, steps=n, begin=b0)
  kind = ctx.cycle(['polynomial', 'linear'], 3)
  if kind == 'linear':
    power = 1
    f = (optax.linear_schedule(a, b, n, b0) if ctx.coin() else
         optax.linear_schedule(init_value=a, end_value=b, transition_steps=n,
                               transition_begin=b0))
  else:
    f = optax.polynomial_schedule(scalar(ctx, a), scalar(ctx, b), power, n, b0)
  s = max(abs(a), abs(b))
  cs = counts_for(ctx, [b0, b0 + n, max(b0, 0) + n, b0 + n // 2], 2 * n)
  # Close to the end a fractional power amplifies the rounding of its base.
  got = compare(ctx, f, sched.polynomial(a, b, power, n, b0), cs, s,
                rtol=3e-6 * max(1., power))
  between(ctx, got, a, b, 'polynomial schedule')
  monotone(ctx, got, np.sign(b - a), 'polynomial schedule')
  ctx.sample(init=a, end=b, power=power, steps=n, begin=b0)


@scenario(env='x32', quick=60, thorough=800)
def polynomial32(ctx):
  polynomial(ctx)


@scenario(env='x64', quick=120, thorough=2000)
def exponential(ctx):
  a = abs(value(ctx)) or 1.
  rate = float(ctx.pick([.5, .9, .99, .1, 1., 1.5, 1.01, 2., ctx.rng.uniform(.05, 1)]))
  n, b0 = steps(ctx), begin(ctx)
  st = ctx.coin()
  end = ctx.pick([None, None, a * .3, a * 4., a * .01])
  if end is not None and rate >= 1.:
    end = ctx.pick([a * 4., a * 100.])
  elif end is not None:
    end = ctx.pick([a * .3, a * .01, 0.])
  ctx.describe(init=a, steps=n, rate=rate, begin=b0, staircase=st, end=end)
  if ctx.coin():
    f = optax.exponential_decay(a, n, rate, b0, st, end)
  else:
    f = optax.exponential_decay(init_value=a, transition_steps=n,
                                decay_rate=rate, transition_begin=b0,
                                staircase=st, end_value=end)
  base = max(b0, 0)
  marks = [b0] + [base + n * k for k in range(1, 8)]
  cs = counts_for(ctx, marks, 6 * n)
  # Keep growth representable, and small the rounding the exponent amplifies.
  cs = [c for c in cs if abs((c - base) / n * math.log(rate)) < 40 and
        (c - base) / n < 200]
  got = compare(ctx, f, sched.exponential(a, n, rate, b0, st, end), cs, 0.,
                rtol=3e-5)
  monotone(ctx, got, 1. if rate > 1. else -1., 'exponential schedule')
  if end is not None:
    if rate < 1.:
      ctx.ok(np.all(got >= end * (1 - 1e-6)), 'lower bound', got=got.min())
    else:
      ctx.ok(np.all(got <= end * (1 + 1e-6)), 'upper bound', got=got.max())
  ctx.sample(init=a, steps=n, rate=rate, begin=b0, staircase=st, end=end)


@scenario(env='x32', quick=60, thorough=800)
def exponential32(ctx):
  exponential(ctx)


@scenario(env='x32', quick=24, thorough=240)
def staircase_steps(ctx):
  """The steps of a staircase fall on the documented counts, compiled or not."""
  mode = ctx.cycle(['jit', 'vmap', 'jit', 'jit'])
  for _ in range(6):
    n = int(ctx.rng.integers(1, 400))
    b0 = int(ctx.rng.integers(0, 20))
    f = optax.exponential_decay(1., n, .5, b0, True)
    cs = sorted({b0 + k * n + d for k in range(1, 20) for d in (-1, 0, 1)})
    ctx.describe(steps=n, begin=b0)
    compare(ctx, f, sched.exponential(1., n, .5, b0, True), cs, 0., mode=mode)


@scenario(env='x32', quick=24, thorough=240)
def transition_ends(ctx):
  """A transition has ended exactly at its last count, compiled or not."""
  mode = ctx.cycle(['jit', 'vmap', 'jit', 'jit'])
  for _ in range(6):
    n = int(ctx.rng.integers(1, 2000))
    b0 = int(ctx.rng.integers(0, 20))
    power = float(ctx.pick([.25, .5, 1., 1.5, 2.]))
    end = ctx.pick([0., .1, 2.])
    f = optax.polynomial_schedule(1., end, power, n, b0)
    ctx.describe(steps=n, begin=b0, power=power, end=end)
    got = compare(ctx, f, sched.polynomial(1., end, power, n, b0),
                  [0, b0, b0 + n, b0 + n + 1, b0 + n + 1000], 1., mode=mode)
    ctx.ok(np.all(np.abs(got[2:] - end) <= 1e-6 * end), 'end value', got=got)


@scenario(env='x64', quick=60, thorough=1000)
def cosine(ctx):
  a = value(ctx)
  n = steps(ctx)
  alpha = float(ctx.pick([0., 0., .1, .5, 1., 2., 10., -.5, ctx.rng.random()]))
  ctx.describe(init=a, steps=n, alpha=alpha)
  f = (optax.cosine_decay_schedule(a, n, alpha) if ctx.coin() else
       optax.cosine_decay_schedule(init_value=a, decay_steps=n, alpha=alpha))
  cs = counts_for(ctx, [n, n // 2, n // 3], 2 * n)
  got = compare(ctx, f, sched.cosine(a, n, alpha), cs, abs(a), rtol=2e-6)
  between(ctx, got, a, a * alpha, 'cosine schedule')
  monotone(ctx, got, np.sign(a * (alpha - 1)), 'cosine schedule')
  ctx.sample(init=a, steps=n, alpha=alpha)


@scenario(env='x64', quick=40, thorough=400)
def fractional_counts(ctx):
  """The closed forms hold between the steps, too (epochs as counts)."""
  which = ctx.cycle(['linear', 'poly', 'exp', 'cosine', 'steps'])
  a, b = value(ctx), value(ctx)
  n, b0 = int(ctx.rng.integers(1, 60)), int(ctx.rng.integers(0, 9))
  power = float(ctx.pick([1., 2., .5]))
  rate = float(ctx.pick([.5, .9, 1.3]))
  f, m = {
      'linear': (lambda: optax.linear_schedule(a, b, n, b0),
                 sched.polynomial(a, b, 1, n, b0)),
      'poly': (lambda: optax.polynomial_schedule(a, b, power, n, b0),
               sched.polynomial(a, b, power, n, b0)),
      'exp': (lambda: optax.exponential_decay(a, n, rate, b0),
              sched.exponential(a, n, rate, b0, False, None)),
      'cosine': (lambda: optax.cosine_decay_schedule(a, n, .1),
                 sched.cosine(a, n, .1)),
      'steps': (lambda: optax.piecewise_constant_schedule(a, {b0 + 3: .5, b0 + n + 4: 3.}),
                sched.piecewise_constant(a, {b0 + 3: .5, b0 + n + 4: 3.})),
  }[which]
  f = f()
  if ctx.coin():
    f = jax.jit(f)
  ctx.describe(which=which, init=a, end=b, steps=n, begin=b0, power=power, rate=rate)
  cs = [b0 + .5, b0 + .25, .125, b0 + n - .5, b0 + n + .5, b0 + n / 2 + .75,
        b0 + 2.5, b0 + 3.5] + [float(x) for x in np.round(ctx.rng.uniform(0, b0 + n, 12) * 64) / 64]
  for c in cs:
    got = float(f(jnp.float32(c) if ctx.rep % 2 else c))
    want = m(c)
    s = max(abs(a), abs(b) if which in ('linear', 'poly') else 0.)
    ctx.ok(abs(got - want) <= 2e-5 * max(s, abs(want)), f'value at {c}', got=got, want=want)
    ctx.seen(which, c, got)
  ctx.count('counts', len(cs))


@scenario(env='x64', quick=80, thorough=1000)
def piecewise_constant(ctx):
  a = value(ctx)
  k = int(ctx.rng.integers(0, 7))
  keys = [int(x) for x in ctx.rng.choice(200, k, replace=False)]
  if ctx.coin(.3):
    keys = [x * 5003 for x in keys]
  table = {b: float(ctx.pick([0., .1, .5, 1., 2., 1e-8, 1e3, ctx.rng.random()]))
           for b in keys}
  if ctx.coin(.1):
    table = None
  ctx.describe(init=a, table=str(table))
  f = (optax.piecewise_constant_schedule(a, table) if ctx.coin() else
       optax.piecewise_constant_schedule(init_value=a,
                                         boundaries_and_scales=table))
  cs = counts_for(ctx, keys, 250)
  compare(ctx, f, sched.piecewise_constant(a, table), cs, 0., rtol=2e-6)
  ctx.sample(init=a, table=str(table))


@scenario(env='x64', quick=24, thorough=200)
def held_constant(ctx):
  """Constant schedules and disabled transitions never move."""
  a = value(ctx) or 1.
  which = ctx.cycle(['constant', 'poly0', 'poly-', 'linear0', 'exp0', 'exp-',
                     'rate0', 'none'])
  z = -int(ctx.rng.integers(1, 100))
  f = {'constant': lambda: optax.constant_schedule(a),
       'poly0': lambda: optax.polynomial_schedule(a, 7., 2., 0, begin(ctx)),
       'poly-': lambda: optax.polynomial_schedule(a, 7., .5, z),
       'linear0': lambda: optax.linear_schedule(a, 7., 0),
       'exp0': lambda: optax.exponential_decay(a, 0, .5, end_value=100.),
       'exp-': lambda: optax.exponential_decay(a, z, .5, 3, True),
       'rate0': lambda: optax.exponential_decay(a, 5, 0., end_value=100.),
       'none': lambda: optax.piecewise_constant_schedule(a)}[which]()
  ctx.describe(which=which, value=a)
  cs = counts_for(ctx, [100], 200)
  compare(ctx, f, lambda c: a, cs, 0., rtol=1e-7)
  ctx.seen(which, a)
