"""C05: accumulating preconditioners (Adagrad, SM3)."""
import numpy as np

from mon import half, ref, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Adagrad and SM3 are driven over gradient histories on trees of every '
        'rank and compared step by step with float64 models; the accumulators '
        'in their public state are watched for decrease, and SM3 covers for '
        'domination of the exact sums of squares.')
ASSUMPTIONS = ['Float64 comparison at 1e-7.']
MIN_EVALS = 1500
MIN_DISTINCT = 400


@scenario(env='x64', quick=50)
def adagrad(ctx):
  hp = dict(initial=ctx.pick([.1, 0., 1e-3, 2., 1e3]), eps=ctx.pick([1e-7, 1e-3, .5, 4.]))
  if ctx.rep % 5 == 0:
    hp = dict(initial=.1, eps=1e-7)
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  style = ctx.pick(work.GRAD_STYLES)
  gs = work.grad_history(ctx, p, 20, style)
  ctx.describe(hp=hp, tree=kind, style=style)
  opt = optax.scale_by_rss(hp['initial'], hp['eps'])
  st0 = opt.init(p)
  ctx.close(list(tree_leaves(st0.sum_of_squares)),
            [np.full(s, hp['initial']) for s in seq.shapes(p)], 'initial')
  seq.follow(ctx, opt, ref.Adagrad(seq.shapes(p), **hp), p, gs,
             {'sum_of_squares': 'acc'})
  ctx.sample(tree=kind, style=style, hp=hp)


@scenario(env='x64', quick=8, thorough=60)
def long_runs(ctx):
  """Hundreds of steps with quiet and loud phases: nothing is forgotten."""
  which = ctx.cycle(['adagrad', 'sm3'])
  p = work.params(ctx, ctx.pick(['matrix_bias', 'nested', 'conv']))
  n = 500
  gs = work.grad_history(ctx, p, n, 'normal')
  amp = np.repeat(ctx.rng.choice([0., 1e-4, 1., 1., 1e3], size=n // 25), 25)
  gs = [tree_map(lambda x: x * a, g) for a, g in zip(amp, gs)]
  ctx.describe(which=which, amplitudes=amp[::25])
  if which == 'adagrad':
    opt, model = optax.scale_by_rss(.01, 1e-7), ref.Adagrad(
        seq.shapes(p), initial=.01, eps=1e-7)
  else:
    b2 = ctx.pick([1., .99])
    opt, model = optax.scale_by_sm3(.9, b2), ref.Sm3(seq.shapes(p), b1=.9, b2=b2)
  seq.follow(ctx, opt, model, p, gs, apply=False, scale_hint=1e-6)


def _covers(state):
  """The per-leaf lists of SM3 accumulators, in leaf order."""
  return state.mu


@scenario(env='x64', quick=70)
def sm3(ctx):
  hp = dict(b1=ctx.pick([.9, 0., .5, .99]), b2=ctx.pick([1., 1., .9, .5, 0., .999, .99995]),
            eps=ctx.pick([1e-8, 1e-3, .2]))
  if ctx.rep % 5 == 0:
    hp = {}
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  style = ctx.pick(work.GRAD_STYLES)
  gs = work.grad_history(ctx, p, 20, style)
  ctx.describe(hp=hp, tree=kind, style=style)
  opt = optax.scale_by_sm3(**hp)
  model = ref.Sm3(seq.shapes(p), **hp)
  state = opt.init(p)
  update = jax.jit(opt.update)
  monotone = hp.get('b2', 1.) == 1.
  for t, g in enumerate(gs):
    prev = [np.asarray(a) for a in tree_leaves(_covers(state))]
    u, state = update(work.to_jax(g), state, p)
    want = model.step(seq.leaves64(g))
    ctx.structure(u, g, 'update')
    ctx.close(list(tree_leaves(u)), want, f'update {t}')
    now = [np.asarray(a) for a in tree_leaves(_covers(state))]
    ctx.close(now, [a for c in model.cover for a in c], f'accumulators {t}')
    if monotone:
      for a, b in zip(prev, now):
        ctx.ok(np.all(b >= a), f'accumulator decreased at step {t}',
               before=a, after=b)
      # The bound SM3 divides by dominates the Adagrad sum of squares.
      for acc, ss in zip(model.acc, model.sumsq):
        ctx.ok(np.all(acc >= ss * (1 - 1e-9)), 'model lost domination')
      i = 0
      for ss in model.sumsq:
        for ax in range(max(ss.ndim, 1)):
          red = ss if ss.ndim == 0 else ss.max(
              axis=tuple(a for a in range(ss.ndim) if a != ax), initial=0.)
          ctx.ok(np.all(now[i] >= red * (1 - 1e-9)),
                 f'accumulator {i} does not dominate the sums of squares',
                 got=now[i], want=red)
          i += 1
    ctx.count('steps')
  ctx.sample(tree=kind, style=style, hp=hp)


@scenario(env='x32', quick=24)
def single_precision(ctx):
  mode = ctx.cycle(['jit', 'eager'])
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  style = ctx.pick(['normal', 'small', 'sparse', 'ties', 'burst', 'mostly_zero'])
  gs = work.grad_history(ctx, p, 10, style)
  ctx.describe(tree=kind, style=style, mode=mode)
  seq.follow(ctx, optax.scale_by_rss(), ref.Adagrad(seq.shapes(p)), p, gs,
             {'sum_of_squares': 'acc'}, rtol=1e-4, mode=mode)
  seq.follow(ctx, optax.scale_by_sm3(), ref.Sm3(seq.shapes(p)), p, gs,
             rtol=1e-4, mode=mode, scale_hint=1e-3)


@scenario(env='x32', quick=24, thorough=240)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  half.agree(ctx, {
      'rss': lambda: optax.scale_by_rss(.1, .01),
      'defaults': optax.scale_by_rss,
      'sm3': lambda: optax.scale_by_sm3(.5, .9),
      'sm3 defaults': optax.scale_by_sm3})
