"""C15: apply_if_finite rejects non-finite gradients as documented."""
import numpy as np

from mon import catalog, core, seq, spies, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Histories with NaN, +Inf and -Inf injected at random positions, in '
        'bursts around the tolerated length, drive the wrapper around a probe; '
        'a reference state machine predicts each update, counter and flag and '
        'whether the inner transformation ran.')
ASSUMPTIONS = ['Fewer than 2^31 gradients.']
MIN_EVALS = 4000
MIN_DISTINCT = 500
MIN_COUNTERS = {'rejected': 300, 'accepted non-finite': 60, 'finite': 600}


def faults(ctx, n, limit):
  """A fault script: runs of bad gradients around the limit."""
  out = []
  while len(out) < n:
    out += [False] * int(ctx.rng.integers(0, 5))
    out += [True] * int(ctx.pick([0, 1, limit, limit + 1, limit + 2, limit - 1,
                                  ctx.rng.integers(0, 4)])) if limit < 12 else [
                                      True] * int(ctx.rng.integers(0, 6))
  return out[:n]


def poison(ctx, g):
  ls, d = jax.tree_util.tree_flatten(g)
  ls = [np.array(x, copy=True) for x in ls]
  cand = [i for i, x in enumerate(ls) if x.size]
  for i in ctx.rng.choice(cand, ctx.pick([1, 1, 2]) if len(cand) > 1 else 1,
                          replace=False):
    flat = ls[i].reshape(-1)
    flat[int(ctx.rng.integers(flat.size))] = ctx.pick([np.nan, np.inf, -np.inf])
    ls[i] = flat.reshape(ls[i].shape)
  return d.unflatten(ls)


def _drive(ctx, rtol, n=24, limit=None):
  kind = ctx.cycle(work.KINDS if n < 100 else ['matrix_bias', 'custom', 'crowd'])
  long = limit is not None
  limit = int(ctx.pick([0, 1, 2, 3, 5, 1000])) if limit is None else limit
  p = work.params(ctx, kind)
  bad = faults(ctx, n, limit)
  if long:  # runs of faults just short of the limit, at it and beyond
    bad = []
    while len(bad) < n:
      bad += [True] * max(0, limit + int(ctx.rng.integers(-2, 4)))
      bad += [False] * int(ctx.rng.integers(1, 4))
    bad = bad[:n]
  gs = work.grad_history(ctx, p, n, ctx.pick(['normal', 'sparse', 'mostly_zero',
                                              'lognormal']))
  gs = [poison(ctx, g) if b else g for g, b in zip(gs, bad)]
  if ctx.coin(.3) and not X64 and not long:
    # Finite, though their sum or square overflows.
    big = float(np.finfo(np.float32).max) * .75
    k = int(ctx.rng.integers(n))
    if not bad[k]:
      gs[k] = tree_map(lambda x: np.full_like(x, big), gs[k])
      gs = gs[:k + 1]
      bad = bad[:k + 1]
  with_params = ctx.coin(.7)
  ctx.describe(tree=kind, limit=limit, bad=''.join('x' if b else '.' for b in bad))
  co = dict(a=.5, b=.25, c=.125, d=.0625)
  opt = optax.apply_if_finite(spies.probe(**co), limit)
  upd = jax.jit(opt.update) if ctx.coin(.7) or long else opt.update
  state = opt.init(p)
  model = spies.ProbeModel(seq.leaves64(p), **co)
  run = total = 0
  ctx.ok(int(state.notfinite_count) == 0 and int(state.total_notfinite) == 0,
         'initial counters')
  for t, g in enumerate(gs):
    old = state.inner_state
    q = seq.leaves64(p) if with_params else None
    u, state = upd(work.to_jax(g), state, *([p] if with_params else []))
    run = run + 1 if bad[t] else 0
    total += bad[t]
    ctx.ok(int(state.notfinite_count) == run, f'consecutive count at {t}',
           got=state.notfinite_count, want=run)
    ctx.ok(int(state.total_notfinite) == total, f'total count at {t}',
           got=state.total_notfinite, want=total)
    ctx.ok(bool(state.last_finite) == (not bad[t]), f'last_finite at {t}')
    if bad[t] and run <= limit:
      ctx.same(u, tree_map(np.zeros_like, g), f'rejected update at {t}')
      ctx.same(state.inner_state, old, f'inner state after rejection at {t}')
      ctx.count('rejected')
    else:
      with np.errstate(all='ignore'):
        want = model.step(seq.leaves64(g), q)
      over = any(np.abs(w).max(initial=0.) > 1e38 for w in want) and not X64
      if not over:
        ctx.close(list(tree_leaves(u)), want, f'applied update at {t}', rtol=rtol,
                  scale=1.)
      ctx.count('accepted non-finite' if bad[t] else 'finite')
      ctx.ok(int(state.inner_state['n']) == model.n, f'inner ran at {t}')
    ctx.seen(t, run, total, ctx.rep)
    p = tree_map(lambda x: x * .9 + .01, p)


@scenario(env='x64', quick=70, thorough=1000)
def machine(ctx):
  _drive(ctx, 1e-9)


@scenario(env='x32', quick=40, thorough=500)
def machine32(ctx):
  _drive(ctx, 1e-4)


@scenario(env='x64', quick=14, thorough=140)
def long_history(ctx):
  """Long runs of faults around large limits."""
  limit = ctx.cycle([8, 17, 64, 100, 127, 128, 255])
  _drive(ctx, 1e-9, n=3 * limit + 40, limit=limit)


@scenario(env='x64', quick=40, thorough=400)
def as_if_never_happened(ctx):
  """With enough tolerance, bad gradients leave no trace in the training."""
  name = ctx.cycle(['adam', 'sgd', 'rmsprop', 'adamw', 'lamb', 'chain', 'yogi',
                    'adabelief', 'trace', 'ema', 'scale_by_schedule', 'deep'])
  e = catalog.CATALOG[name]
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  gs = work.grad_history(ctx, p, 9, 'normal')
  bad = [ctx.coin(.5) for _ in gs]
  seed = int(ctx.rng.integers(1000))
  ctx.describe(inner=name, tree=kind, bad=bad)
  plain = e.build(seed)
  opt = optax.apply_if_finite(e.build(seed), 100)
  upd = jax.jit(opt.update)
  s, q = opt.init(p), p
  for g, b in zip(gs, bad):
    u, s = upd(work.to_jax(poison(ctx, g) if b else g), s, q)
    q2 = optax.apply_updates(q, u)
    if b:
      ctx.same(q2, q, 'params after a rejected gradient')
      ctx.count('rejected')
    else:
      ctx.count('finite')
    q = q2
  s2, q2 = plain.init(p), p
  upd2 = jax.jit(plain.update)
  for g, b in zip(gs, bad):
    if not b:
      u, s2 = upd2(work.to_jax(g), s2, q2)
      q2 = optax.apply_updates(q2, u)
  ctx.close(q, q2, 'params beside a run without the bad gradients', rtol=1e-9,
            atol=1e-12)
  ctx.close(tree_leaves(s.inner_state), tree_leaves(s2), 'inner state beside it',
            rtol=1e-9, atol=1e-12)


@scenario(env='x32', quick=20, thorough=200)
def dtypes(ctx):
  """Half precision gradients at the edge of their range are not rejected."""
  dt = ctx.cycle([jnp.float16, jnp.bfloat16, jnp.float32])
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind, dtype=dt)
  top = float(jnp.finfo(dt).max)
  opt = optax.apply_if_finite(optax.scale(.5), 2)
  s = opt.init(p)
  g = tree_map(lambda x: jnp.full_like(x, top), p)
  ctx.describe(dtype=np.dtype(dt).name, tree=kind)
  u, s = opt.update(g, s, p)
  ctx.ok(bool(s.last_finite), 'largest finite gradients were rejected')
  ctx.same(u, tree_map(lambda x: .5 * x, g), 'scaled largest gradients')
  ctx.count('finite')


@scenario(env='x64', quick=12, thorough=60)
def nothing(ctx):
  """Gradients without any element have nothing in them that is not finite."""
  g = ctx.cycle([{}, (), [], {'a': {}, 'b': ()}, {'a': jnp.zeros((0, 3))},
                 [jnp.zeros(0), jnp.zeros((2, 0))]])
  calls = []

  def update(u, s, p=None):
    calls.append(1)
    return u, s + 1
  opt = optax.apply_if_finite(
      optax.GradientTransformation(lambda p: jnp.zeros([], jnp.int32), update), 2)
  s = opt.init(g)
  ctx.describe(tree=repr(tree_map(jnp.shape, g)))
  for t in range(3):
    u, s = opt.update(g, s)
    ctx.structure(u, g, 'updates')
    ctx.ok(bool(s.last_finite) and int(s.notfinite_count) == 0
           and int(s.total_notfinite) == 0 and int(s.inner_state) == t + 1,
           f'accepted at {t}', got=s)
    ctx.count('finite')
