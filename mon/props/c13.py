"""C13: composed schedules join and interpolate their pieces as documented."""
import math

import numpy as np

from mon import core, sched, work
from mon.core import scenario, tree_leaves
from mon.env import F, X64, jax, jnp, optax
from mon.props.c12 import between, compare, counts_for, monotone, value

RULE = ('Joined, warm-up, restarting, one-cycle and interpolated schedules with '
        'random and degenerate arguments are read at every boundary and '
        'across the run and compared with the documented definitions in '
        'float64; recorders inside a join log the counts its parts see.')
ASSUMPTIONS = ['Boundaries are non-decreasing. Values agree to single '
               'precision.']
MIN_EVALS = 4000
MIN_DISTINCT = 300
MIN_COUNTERS = {'counts': 15000}


def _pos(ctx):
  return float(ctx.pick([1., .1, 3., 1e-3, work.logu(ctx, 1e-4, 10.)]))


@scenario(env='x64', quick=80, thorough=1000)
def join(ctx):
  """Each part gets the steps since its boundary, and only its part counts."""
  k = 1 + ctx.rep % 5
  bounds = sorted(int(x) for x in ctx.rng.integers(0, 120, k - 1))
  if ctx.coin(.3) and k > 2:  # parts that last no time
    i = int(ctx.rng.integers(0, k - 2))
    bounds[i] = bounds[i + 1]
  if ctx.coin(.2):
    bounds = [b * 10007 for b in bounds]
  fs, ms, top = [], [], 0.
  for _ in range(k):
    a, b = value(ctx), value(ctx)
    top = max(top, abs(a), abs(b))
    n = int(ctx.rng.integers(1, 40))
    which = ctx.pick(['linear', 'constant', 'cosine', 'exp', 'own'])
    if which == 'linear':
      fs.append(optax.linear_schedule(a, b, n)); ms.append(sched.polynomial(a, b, 1, n))
    elif which == 'constant':
      fs.append(optax.constant_schedule(a)); ms.append(lambda c, a=a: a)
    elif which == 'cosine':
      fs.append(optax.cosine_decay_schedule(a, n)); ms.append(sched.cosine(a, n))
    elif which == 'exp':
      fs.append(optax.exponential_decay(a, n, .9)); ms.append(sched.exponential(a, n, .9))
    else:
      fs.append(lambda c, a=a: a / (1. + abs(c))); ms.append(fs[-1])
  ctx.describe(bounds=bounds, parts=k)
  f = optax.join_schedules(tuple(fs) if ctx.coin() else fs, bounds)
  cs = counts_for(ctx, bounds, 200)
  cs = [c for c in cs if c < 2**20]
  compare(ctx, f, sched.join(ms, bounds), cs, top, rtol=3e-6)
  ctx.sample(bounds=bounds, parts=k)


@scenario(env='x64', quick=40, thorough=400)
def warmup_cosine(ctx):
  init, peak, end = ctx.pick([0., .01, _pos(ctx)]), _pos(ctx), ctx.pick([0., 1e-3, .05])
  if ctx.coin(.25):
    init, peak, end = -init, -peak, end * ctx.pick([-1., 1.])
  w = int(ctx.rng.integers(0, 50))
  d = w + int(ctx.rng.integers(1, 200))
  ctx.describe(init=init, peak=peak, warmup=w, decay=d, end=end)
  if ctx.coin():
    f = optax.warmup_cosine_decay_schedule(init, peak, w, d, end)
  else:
    f = optax.warmup_cosine_decay_schedule(
        init_value=init, peak_value=peak, warmup_steps=w, decay_steps=d,
        end_value=end)
  cs = counts_for(ctx, [w, d, (w + d) // 2], 2 * d)
  got = compare(ctx, f, sched.warmup_cosine(init, peak, w, d, end), cs,
                max(abs(init), abs(peak), abs(end)), rtol=3e-6)
  between(ctx, got, min(init if w else peak, peak, end),
          max(init if w else peak, peak, end), 'warm-up and cosine')
  after = [g for c, g in zip(cs, got) if c >= d]
  ctx.ok(np.all(np.abs(np.array(after) - end) <= 3e-6 * max(abs(peak), end, -end)),
         'end value after the run', got=after)
  at = [g for c, g in zip(cs, got) if c == w]
  ctx.ok(abs(at[0] - peak) <= 3e-6 * abs(peak), 'peak at the end of the warm-up',
         got=at)
  ctx.sample(init=init, peak=peak, warmup=w, decay=d, end=end)


@scenario(env='x64', quick=50, thorough=500)
def warmup_exponential(ctx):
  init, peak = ctx.pick([0., .01, _pos(ctx)]), _pos(ctx)
  if ctx.coin(.25):
    init, peak = -init, -peak
  w = int(ctx.rng.integers(0, 50))
  n = int(ctx.rng.integers(1, 50))
  rate = float(ctx.pick([.5, .9, .99, 1.1]))
  b = int(ctx.pick([0, 0, 3, 17]))
  st = ctx.coin()
  end = ctx.pick([None, peak * .2 if rate < 1 else peak * 3.])
  ctx.describe(init=init, peak=peak, warmup=w, steps=n, rate=rate, begin=b,
               staircase=st, end=end)
  f = (optax.warmup_exponential_decay_schedule(init, peak, w, n, rate, b, st, end)
       if ctx.coin() else optax.warmup_exponential_decay_schedule(
           init_value=init, peak_value=peak, warmup_steps=w, transition_steps=n,
           decay_rate=rate, transition_begin=b, staircase=st, end_value=end))
  cs = counts_for(ctx, [w, w + b, w + b + n, w + b + 2 * n], w + b + 5 * n)
  cs = [c for c in cs if c - w - b < 200 * n]
  compare(ctx, f, sched.warmup_exponential(init, peak, w, n, rate, b, st, end),
          cs, max(abs(peak), abs(init)), rtol=1e-5)
  ctx.sample(init=init, peak=peak, warmup=w, steps=n, rate=rate)


@scenario(env='x64', quick=40, thorough=400)
def restarts(ctx):
  k = 1 + ctx.rep % 5
  cycles, marks, at = [], [], 0
  for _ in range(k):
    w = int(ctx.rng.integers(0, 20))
    d = w + int(ctx.rng.integers(1, 60))
    c = dict(init_value=float(ctx.pick([0., .01])), peak_value=_pos(ctx),
             warmup_steps=w, decay_steps=d)
    if ctx.coin():
      c['end_value'] = float(ctx.pick([0., 1e-3]))
    if ctx.coin(.15):
      c['init_value'], c['peak_value'] = -c['init_value'], -c['peak_value']
    cycles.append(c)
    marks += [at, at + w]
    at += d
    marks.append(at)
  ctx.describe(cycles=str(cycles))
  arg = ctx.pick([lambda: cycles, lambda: tuple(cycles), lambda: iter(cycles),
                  lambda: (c for c in cycles)])()
  f = optax.sgdr_schedule(arg)
  cs = counts_for(ctx, marks, at + 30)
  compare(ctx, f, sched.sgdr(cycles), cs, max(abs(c['peak_value']) for c in cycles),
          rtol=3e-6)
  # Reading it a second time gives the same: the iterable is not kept.
  compare(ctx, f, sched.sgdr(cycles), cs[:10],
          max(abs(c['peak_value']) for c in cycles), rtol=3e-6)


@scenario(env='x64', quick=80, thorough=1000)
def interpolated(ctx):
  kind = ctx.cycle(['linear', 'cosine'])
  a = value(ctx)
  k = int(ctx.rng.integers(0, 7))
  span = int(ctx.pick([200, 200, 5000, 10 ** 6]))
  keys = [int(x) for x in ctx.rng.choice(span, k, replace=False)]
  if ctx.coin(.2) and k:
    keys[0] = 0
    keys = list(dict.fromkeys(keys))
  table = {b: float(ctx.pick([0., .1, .5, 1., 2., 1e-8, 1e3, ctx.rng.random()]))
           for b in keys}
  if not table and ctx.coin():
    table = None
  ctx.describe(kind=kind, init=a, table=str(table))
  f = optax.piecewise_interpolate_schedule(kind, a, table)
  cs = counts_for(ctx, keys, span + 50)
  m = sched.interpolate(kind, a, table)
  # Each stretch is exact to the resolution of its own two ends.
  ks = sorted(set([0] + keys))

  def ends(c):
    i = max(i for i, b in enumerate(ks) if b <= c)
    return max(abs(m(ks[i])), abs(m(ks[min(i + 1, len(ks) - 1)])))
  compare(ctx, f, m, cs, np.array([ends(c) for c in cs]), rtol=3e-6)
  ctx.sample(kind=kind, init=a, table=str(table))


@scenario(env='x64', quick=60, thorough=600)
def onecycle(ctx):
  which = ctx.cycle(['linear', 'cosine'])
  n = int(ctx.pick([1, 2, 3, 5, 10, 100, 1000, 7919, ctx.rng.integers(1, 500)]))
  peak = _pos(ctx)
  s = float(ctx.pick([.3, .1, .5, 0., .9]))
  e = float(ctx.pick([max(s, .85), s, 1., s + (1 - s) / 2]))
  div, fin = float(ctx.pick([25., 10., 2., 1.])), float(ctx.pick([1e4, 10., 1.]))
  default = ctx.coin(.3)
  ctx.describe(which=which, steps=n, peak=peak, start=s, final=e, div=div,
               final_div=fin, default=default)
  if which == 'linear':
    if default:
      f, m, e, s, div, fin = (optax.linear_onecycle_schedule(n, peak),
                              sched.linear_onecycle(n, peak), .85, .3, 25., 1e4)
    else:
      f = optax.linear_onecycle_schedule(n, peak, s, e, div, fin)
      m = sched.linear_onecycle(n, peak, s, e, div, fin)
    marks = [int(s * n), int(e * n), n]
    last = peak / div / fin
  else:
    if default:
      f, m, s, div, fin = (optax.cosine_onecycle_schedule(n, peak),
                           sched.cosine_onecycle(n, peak), .3, 25., 1e4)
    else:
      f = optax.cosine_onecycle_schedule(n, peak, s, div, fin)
      m = sched.cosine_onecycle(n, peak, s, div, fin)
    marks = [int(s * n), n]
    last = peak / div / fin
  cs = counts_for(ctx, marks, 2 * n)
  got = compare(ctx, f, m, cs, peak, rtol=3e-6)
  between(ctx, got, 0., peak, 'one-cycle schedule')
  after = np.array([g for c, g in zip(cs, got) if c >= n])
  ctx.ok(np.all(np.abs(after - last) <= 1e-5 * last), 'final value', got=after[:3],
         want=last)
  if len(set(marks)) == len(marks):
    at = [g for c, g in zip(cs, got) if c == marks[0]]
    ctx.ok(abs(at[0] - peak) <= 3e-6 * peak, 'peak', got=at)
  monotone(ctx, np.array([g for c, g in zip(cs, got) if c <= marks[0]]), 1., 'rise')
  monotone(ctx, np.array([g for c, g in zip(cs, got) if c >= marks[0]]), -1., 'fall')


@scenario(env='x32', quick=24, thorough=240)
def parts_see(ctx):
  """The part in charge is asked for the steps since its boundary."""
  k = 2 + ctx.rep % 4
  bounds = sorted(int(x) for x in ctx.rng.choice(40, k - 1, replace=False) + 1)
  logs = [[] for _ in range(k)]

  def part(i):
    def f(c):
      logs[i].append(int(c))
      return jnp.asarray(100. * i + int(c))
    return f
  f = optax.join_schedules([part(i) for i in range(k)], bounds)
  ctx.describe(bounds=bounds)
  for c in range(0, 60):
    for l in logs:
      del l[:]
    out = float(f(c))
    i = sum(c >= b for b in bounds)
    local = c - (bounds[i - 1] if i else 0)
    ctx.ok(local in logs[i], 'count the part in charge saw', count=c, got=logs[i])
    ctx.ok(out == 100. * i + local, 'value of the part in charge', count=c,
           got=out)
  ctx.count('counts', 60)
  ctx.seen(*bounds)


@scenario(env='x32', quick=40, thorough=400)
def single(ctx):
  """The same definitions with 64-bit types off."""
  {0: join, 1: warmup_cosine, 2: warmup_exponential, 3: restarts,
   4: interpolated, 5: onecycle}[ctx.rep % 6](ctx)
