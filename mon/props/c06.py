"""C06: momentum traces and moving averages are exact functions of history."""
import numpy as np

from mon import half, ref, seq, work
from mon.core import scenario, tree_leaves
from mon.env import F, X64, jax, jnp, optax

RULE = ('Traces and moving averages are driven over gradient histories; each '
        'output is compared with the explicit weighted sum over the whole '
        'history and with the running float64 model.')
ASSUMPTIONS = ['Float64 comparison at 1e-7; reduced accumulators at the '
               'resolution of their dtype.']
MIN_EVALS = 1500
MIN_DISTINCT = 400


@scenario(env='x64', quick=50)
def trace(ctx):
  d, nest = work.decay_rate(ctx), ctx.coin()
  if ctx.rep % 5 == 0:
    d = ctx.cycle([1., 1.25, -.5, 1, 2., 0], 5)
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  style = ctx.pick(work.GRAD_STYLES)
  gs = work.grad_history(ctx, p, 25, style)
  ctx.describe(decay=d, nesterov=nest, tree=kind, style=style)
  opt = optax.trace(d, nest) if ctx.coin() else optax.trace(decay=d, nesterov=nest)
  big = [max(float(np.abs(x).max(initial=0.)) for x in col) * sum(abs(d) ** s for s in range(26))
         for col in zip(*[seq.leaves64(g) for g in gs])]
  ups, st, _ = seq.follow(ctx, opt, ref.Trace(seq.shapes(p), d, nest), p, gs,
                          {'trace': 'tr'}, needs_params=ctx.coin(),
                          rtol=1e-8, scale_hint=max(big))
  # Closed form over the whole history.
  T = len(gs)
  L = [seq.leaves64(g) for g in gs]
  for i, leaf in enumerate(tree_leaves(st.trace)):
    want = sum(d ** (T - 1 - s) * L[s][i] for s in range(T))
    ctx.close([leaf], [want], 'trace as a sum over the history', scale=big[i])
  ctx.sample(decay=d, nesterov=nest, tree=kind, style=style)


@scenario(env='x64', quick=50)
def ema(ctx):
  d, deb = work.decay_rate(ctx), ctx.coin()
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  style = ctx.pick(work.GRAD_STYLES)
  gs = work.grad_history(ctx, p, 25, style)
  ctx.describe(decay=d, debias=deb, tree=kind, style=style)
  opt = optax.ema(d, deb) if ctx.coin() else optax.ema(decay=d, debias=deb)
  big = max(float(np.abs(x).max(initial=0.)) for g in gs for x in seq.leaves64(g))
  ups, st, _ = seq.follow(ctx, opt, ref.Ema(seq.shapes(p), d, deb), p, gs,
                          {'ema': 'avg'}, needs_params=ctx.coin(), rtol=1e-8,
                          scale_hint=big)
  ctx.ok(int(st.count) == len(gs), 'count of updates', got=st.count)
  T = len(gs)
  L = [seq.leaves64(g) for g in gs]
  for i, leaf in enumerate(tree_leaves(st.ema)):
    w = np.array([(1 - d) * d ** (T - 1 - s) for s in range(T)])
    want = sum(w[s] * L[s][i] for s in range(T))
    ctx.close([leaf], [want], 'average as a sum over the history', scale=big)
    if deb:
      # A debiased average is a convex combination of the history.
      u = np.asarray(tree_leaves(ups[-1])[i])
      lo = np.min([l[i] for l in L], axis=0)
      hi = np.max([l[i] for l in L], axis=0)
      eps = 1e-9 * big
      ctx.ok(np.all((u >= lo - eps) & (u <= hi + eps)),
             'debiased average leaves the range of its inputs', got=u)
  ctx.sample(decay=d, debias=deb, tree=kind, style=style)


@scenario(env='x64', quick=24)
def accumulator_dtype(ctx):
  """A reduced accumulator is stored in its dtype and still tracks the sum."""
  acc = ctx.cycle([jnp.bfloat16, jnp.float16, jnp.float32, jnp.float64, 'bfloat16',
                   np.float32])
  gdt = ctx.cycle([jnp.float32, jnp.float64, jnp.bfloat16], 2)
  kind = ctx.cycle(work.KINDS)
  which = ctx.cycle(['trace', 'ema'])
  d, nest, deb = ctx.pick([.5, .9, .99, .999]), ctx.coin(), ctx.coin()
  p = work.params(ctx, kind, dtype=gdt)
  gs = work.grad_history(ctx, p, 8, ctx.pick(['normal', 'ties', 'constant']))
  ctx.describe(acc=str(acc), grads=str(gdt), which=which, tree=kind)
  opt = (optax.trace(d, nest, acc) if which == 'trace'
         else optax.ema(d, deb, acc))
  state = opt.init(p)
  want_dt = jnp.dtype(acc)
  get = (lambda s: s.trace) if which == 'trace' else (lambda s: s.ema)
  model = (ref.Trace(seq.shapes(p), d, nest) if which == 'trace'
           else ref.Ema(seq.shapes(p), d, deb))
  eps = max(float(jnp.finfo(want_dt).eps), float(jnp.finfo(gdt).eps))
  for t, g in enumerate(gs):
    for leaf in tree_leaves(get(state)):
      ctx.ok(leaf.dtype == want_dt, f'accumulator dtype before step {t}',
             got=str(leaf.dtype))
    # One step from the rounded accumulator, at the resolution of the updates.
    prev = seq.leaves64(get(state))
    u, state = jax.jit(opt.update)(work.to_jax(g), state)
    step = model.step(seq.leaves64(g))
    res = float(jnp.finfo(gdt).eps)
    ctx.close(list(tree_leaves(u)), step, f'updates {t}', rtol=40 * eps, scale=8.)
    L = seq.leaves64(g)
    if which == 'trace':
      m = [x + d * y for x, y in zip(L, prev)]
      one = [x + d * y for x, y in zip(L, m)] if nest else m
      k = 1.
    else:
      one = [(1 - d) * x + d * y for x, y in zip(L, prev)]
      k = 1. / (1 - d ** (t + 1)) if deb else 1.
      one = [x * k for x in one]
    if res <= jnp.finfo(want_dt).eps:
      # The updates are not rounded to the accumulator's narrower type, but
      # for the product of the decay with the accumulator itself.
      rt, acc_eps = 40 * max(res, 1e-8), float(jnp.finfo(want_dt).eps)
      ctx.close(list(tree_leaves(u)), one, f'updates {t} from the accumulator',
                rtol=rt, scale=[4. * k + acc_eps / rt * np.abs(d * y) * k
                                for y in prev])
      ctx.count('fine updates')
    want = model.tr if which == 'trace' else model.avg
    ctx.close(list(tree_leaves(get(state))), want, f'accumulator {t}',
              rtol=40 * eps, scale=8.)
    ctx.count('steps')
  for leaf in tree_leaves(get(state)):
    ctx.ok(leaf.dtype == want_dt, 'final accumulator dtype', got=str(leaf.dtype))


@scenario(env='x32', quick=16)
def single_precision(ctx):
  mode = ctx.cycle(['jit', 'eager'])
  d, nest = ctx.pick([0., .5, .9, .99]), ctx.coin()
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  gs = work.grad_history(ctx, p, 12)
  big = max(float(np.abs(x).max(initial=0.)) for g in gs for x in seq.leaves64(g))
  ctx.describe(tree=kind, mode=mode, decay=d, nesterov=nest)
  seq.follow(ctx, optax.trace(d, nest), ref.Trace(seq.shapes(p), d, nest), p,
             gs, {}, rtol=1e-4, mode=mode, scale_hint=big)
  seq.follow(ctx, optax.ema(d, nest), ref.Ema(seq.shapes(p), d, nest), p,
             gs, {}, rtol=1e-4, mode=mode, scale_hint=big)


@scenario(env='x64', quick=4, cost=2.)
def long_average(ctx):
  n = 4000
  d = ctx.cycle([.99, .999, .9, .5])
  g = ctx.rng.normal(size=(n, 3)) + 1.
  ctx.describe(decay=d, steps=n)
  for name, opt, model in (
      ('ema', optax.ema(d), ref.Ema([(3,)], d)),
      ('trace', optax.trace(d, True), ref.Trace([(3,)], d, True))):
    step = lambda s, x, o=opt: o.update(x, s)[::-1]
    _, ups = jax.jit(lambda s, x: jax.lax.scan(step, s, x))(
        opt.init(jnp.zeros(3)), jnp.asarray(g))
    ctx.close(ups, np.stack([model.step([x])[0] for x in g]), name, rtol=1e-8,
              scale=1.)
    ctx.count('steps', n)


@scenario(env='x32', quick=24, thorough=240)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  half.agree(ctx, {
      'trace': lambda: optax.trace(.5),
      'nesterov': lambda: optax.trace(.75, nesterov=True),
      'ema': lambda: optax.ema(.5),
      'plain ema': lambda: optax.ema(.75, debias=False)})
