"""C26: applying, averaging and copying parameters."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Updates of equal and of other dtypes are applied to trees of '
        'parameters and compared with the rounded sum; running averages are '
        'compared with the closed form over whole histories, the periodic '
        'copy with a model that copies at multiples of the period, and the '
        'averaging transformation with its debiased mean.')
ASSUMPTIONS = ['The trees of each call have one structure.']
MIN_EVALS = 4000
MIN_DISTINCT = 700
MIN_COUNTERS = {'applied': 200, 'averaged': 600, 'copied': 150, 'kept': 300}

DTYPES = ['float32', 'float16', 'bfloat16', 'float64', 'int32']


def _dt(name):
  return jnp.bfloat16 if name == 'bfloat16' else np.dtype(name)


def _apply(ctx, dtypes):
  kind = ctx.cycle(work.KINDS + ['tower'])
  pd, ud = ctx.pick(dtypes), ctx.pick(dtypes + dtypes[:1])
  mixed = ctx.coin(.3)
  rng = ctx.rng

  def leaf(name):
    def f(shape, i):
      n = ctx.pick(dtypes) if mixed else name
      x = rng.normal(size=shape) * 10
      return np.asarray(np.round(x) if n == 'int32' else x).astype(_dt(n))
    return f
  p, u = work.build(kind, leaf(pd)), work.build(kind, leaf(ud))
  if ctx.coin(.6):
    p = work.to_jax(p)
  if ctx.coin(.6):
    u = work.to_jax(u)
  ctx.describe(tree=kind, params=pd, updates=ud, mixed=mixed)
  fn = jax.jit(optax.apply_updates) if ctx.coin(.4) else optax.apply_updates
  q = fn(p, u)
  ctx.structure(q, p, 'applied tree')
  for i, (a, b, c) in enumerate(zip(*map(tree_leaves, (p, u, q)))):
    a, b, c = map(np.asarray, (a, b, c))
    ctx.ok(c.shape == a.shape and c.dtype == a.dtype, f'leaf {i} keeps dtype and shape',
           got=f'{c.dtype}{c.shape}', want=f'{a.dtype}{a.shape}')
    want = a.astype(np.float64) + b.astype(np.float64)
    eps = {'float16': 2e-3, 'bfloat16': 2e-2, 'float32': 1e-6, 'float64': 1e-13,
           'int32': 0.}
    tol = 2 * max(eps[a.dtype.name], eps[b.dtype.name] if b.dtype != a.dtype else 0)
    slack = 1. if a.dtype.kind == 'i' and b.dtype.kind != 'i' else 0.
    if slack and b.dtype.name in ('float32', 'float64') and a.size:
      sure = np.abs(want - np.round(want)) > 1e-3
      ctx.ok(np.all((c == np.trunc(want))[sure]), f'integer sum in leaf {i}',
             got=c, want=want)
    if a.size:
      err = np.abs(c.astype(np.float64) - want)
      ctx.ok(np.all(err <= tol * (np.abs(a.astype(np.float64)) +
                                  np.abs(b.astype(np.float64))) + slack),
             f'sum in leaf {i}', got=c, want=want)
    if a.dtype == b.dtype and a.dtype.name in ('float32', 'float64'):
      ctx.ok(np.array_equal(c, a + b), f'rounded sum in leaf {i}', got=c, want=a + b)
  ctx.count('applied')
  ctx.seen(kind, pd, ud, ctx.rep)


@scenario(env='x64', quick=100, thorough=1500)
def applied(ctx):
  _apply(ctx, DTYPES)


@scenario(env='x32', quick=100, thorough=1500)
def applied32(ctx):
  _apply(ctx, ['float32', 'float16', 'bfloat16', 'int32'])


@scenario(env='x32', quick=24, thorough=200)
def far_updates(ctx):
  """Only the sum has to fit the type of the parameters."""
  pd = ctx.cycle(['float16', 'bfloat16', 'int32'])
  kind = ctx.cycle(work.KINDS)
  top = {'float16': 6e4, 'bfloat16': 1e30, 'int32': 1e6}[pd]

  def leaf(shape, i):
    return np.asarray(np.round(ctx.rng.uniform(-1, 1, shape) * top)).astype(_dt(pd))
  p = work.build(kind, leaf)
  aim = work.build(kind, lambda s, i: ctx.rng.uniform(-1, 1, s) * top)
  u = tree_map(lambda a, t: np.asarray(t - a.astype(np.float64), np.float32), p, aim)
  ctx.describe(tree=kind, params=pd)
  fn = jax.jit(optax.apply_updates) if ctx.coin(.4) else optax.apply_updates
  q = fn(work.to_jax(p), work.to_jax(u))
  tol = {'float16': 2e-3, 'bfloat16': 1e-2, 'int32': 2e-6}[pd]
  ctx.close(q, aim, 'parameters after far updates', rtol=tol,
            atol=1.5 if pd == 'int32' else 0., scale=top * 1e-5)
  ctx.count('applied')


@scenario(env='x64', quick=24, thorough=200)
def neutral(ctx):
  """A zero update changes nothing; successive updates accumulate; the
  inputs are not modified."""
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  keep = tree_map(np.array, p)
  zero = tree_map(jnp.zeros_like, p)
  ctx.describe(tree=kind)
  ctx.same(optax.apply_updates(p, zero), p, 'zero update')
  us = [work.params(ctx, kind) for _ in range(6)]
  q, want = p, keep
  for u in us:
    q = optax.apply_updates(q, u)
    want = tree_map(lambda a, b: a + np.asarray(b), want, u)
    ctx.count('applied')
    ctx.same(q, work.to_jax(want), 'accumulated params')
  ctx.same(p, work.to_jax(keep), 'original params')


def _average(ctx, rtol):
  kind = ctx.cycle(work.KINDS)
  how = ctx.pick(['const', 'schedule', 'mean', 'traced', 'ends'])
  old = work.params(ctx, kind)
  a = float(ctx.pick([.001, .1, .5, .9, ctx.rng.random(), 1.5, -.25]))
  within = 0. <= a <= 1.
  step = {'const': lambda t: a, 'schedule': lambda t: a / (t + 1),
          'mean': lambda t: 1. / (t + 1), 'traced': lambda t: a,
          'ends': lambda t: float(t % 2)}[how]
  fn = jax.jit(optax.incremental_update) if how == 'traced' or ctx.coin(.3) else (
      optax.incremental_update)
  ctx.describe(tree=kind, how=how, step_size=a)
  want = seq.leaves64(old)
  seen = []
  top = [np.abs(w) for w in want]  # rounding errors of the past are kept
  for t in range(8):
    new = work.params(ctx, kind, scale=10. ** float(ctx.rng.integers(-2, 3)))
    seen.append(seq.leaves64(new))
    s = step(t)
    top = [np.maximum(x, np.abs(b)) if within else abs(1 - s) * x + abs(s) * np.abs(b)
           for x, b in zip(top, seen[-1])]
    prev = old
    old = fn(new, old, s) if ctx.coin() else fn(new_tensors=new, old_tensors=old,
                                                  step_size=s)
    want = [s * n + (1 - s) * o for n, o in zip(seq.leaves64(new), want)]
    ctx.structure(old, new, f'average at {t}')
    ctx.close(list(tree_leaves(old)), want, f'average at {t}', rtol=rtol,
              scale=top)
    if how == 'mean':
      m = [np.mean([q[i] for q in seen], axis=0) for i in range(len(want))]
      ctx.close(list(tree_leaves(old)), m, f'plain mean at {t}', rtol=rtol,
                scale=[np.max([np.abs(q[i]) for q in seen], axis=0) * 8
                       for i in range(len(want))])
    for i, (x, y, z) in enumerate(zip(*map(tree_leaves, (old, new, prev)))):
      x, y, z = (np.asarray(v, np.float64) for v in (x, y, z))
      lo, hi = np.minimum(y, z), np.maximum(y, z)
      tol = rtol * (np.abs(lo) + np.abs(hi))
      ctx.ok(not 0. <= s <= 1. or np.all((x >= lo - tol) & (x <= hi + tol)),
             f'between old and new, leaf {i}')
    ctx.count('averaged')


@scenario(env='x64', quick=80, thorough=1000)
def average(ctx):
  _average(ctx, 1e-12)


@scenario(env='x32', quick=40, thorough=400)
def average32(ctx):
  _average(ctx, 1e-5)


@scenario(env='x64', quick=60, thorough=800)
def periodic(ctx):
  kind = ctx.cycle(work.KINDS)
  period = int(ctx.pick([1, 2, 3, 5, 7, 10]))
  start = int(ctx.pick([0, 0, 1, 4, 1000, 2**20, 2**24 - 3, 2**28 + 5, 2 ** 31 - 20]))
  how = ctx.pick(['python', 'jnp', 'jit', 'scan'])
  ctx.describe(tree=kind, period=period, start=start, how=how)
  old = work.params(ctx, kind)
  news = [work.params(ctx, kind) for _ in range(13)]
  want = old
  if how == 'scan':
    def body(c, x):
      n, t = x
      c = optax.periodic_update(n, c, t, period)
      return c, c
    stacked = tree_map(lambda *x: jnp.stack(x), *news)
    steps = jnp.arange(start, start + 13, dtype=jnp.int32)
    _, out = jax.lax.scan(body, old, (stacked, steps))
    got = [tree_map(lambda x: x[t], out) for t in range(13)]
  else:
    got = []
    fn = optax.periodic_update
    if how == 'jit':
      fn = jax.jit(lambda n, o, t: optax.periodic_update(n, o, t, period))
    for t, n in enumerate(news):
      s = start + t
      s = s if how == 'python' else jnp.asarray(s, jnp.int32)
      old = fn(n, old, s) if how == 'jit' else fn(n, old, s, period)
      got.append(old)
  for t, (n, g) in enumerate(zip(news, got)):
    if (start + t) % period == 0:
      want = n
      ctx.count('copied')
    else:
      ctx.count('kept')
    ctx.same(g, want, f'slow copy at step {start + t}')
    ctx.seen(period, t, start, ctx.rep)
