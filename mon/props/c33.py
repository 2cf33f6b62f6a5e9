"""C33: finite training stays finite and differentiable."""
import numpy as np

from mon import catalog, core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Every optimiser is driven with hostile but finite gradients (zeros, '
        'tiny, huge, denormal, constant, one spike) and parameters (zeros '
        'included) and must produce finite updates and state; derivatives of '
        'a training run with respect to the learning rate, the initial '
        'parameters and other hyperparameters must be finite at zero '
        'gradients and equal finite differences elsewhere.')
ASSUMPTIONS = ['Magnitudes stay below 1e6 (float32) so that squares are finite.',
               'The Adam family has eps_root > 0 for derivatives at zero.']
MIN_EVALS = 8000
MIN_DISTINCT = 1000
MIN_COUNTERS = {'hostile steps': 1500, 'derivatives': 150}

HOSTILE = ['zeros', 'tiny', 'denormal', 'huge', 'constant', 'spike', 'mixed',
           'zero_then_big', 'big_then_zero', 'one_element', 'equal']


def hostile(ctx, like, steps, style, top):
  rng = ctx.rng
  out = []
  base = tree_map(lambda x: rng.normal(size=x.shape), like)
  for t in range(steps):
    def leaf(x, b):
      n = rng.normal(size=x.shape)
      r = {'zeros': 0 * n, 'tiny': n * 1e-12, 'denormal': n * 1e-40, 'huge': n * top,
           'constant': b, 'spike': n * (top if t == 2 else 1e-3),
           'mixed': n * 10. ** rng.uniform(-12, np.log10(top), size=x.shape),
           'zero_then_big': n * (top if t > 2 else 0),
           'big_then_zero': n * (top if t < 2 else 0),
           'one_element': np.where(np.arange(n.size).reshape(n.shape) == 0, n, 0.),
           'equal': np.ones(x.shape) * .5}[style]
      return np.asarray(r, x.dtype)
    out.append(tree_map(leaf, like, base))
  return out


def _finite(ctx, dtype, top):
  # Injected hyperparameters are rounded to the dtype of the parameters; .999 is
  # 1 in bfloat16, which is no decay rate.
  name = ctx.cycle([n for n in catalog.NAMES if dtype != jnp.bfloat16
                    or n not in ('inject_hyperparams', 'deep')])
  e = catalog.CATALOG[name]
  style = ctx.cycle(HOSTILE, stride=3)
  kind = ctx.pick([k for k in work.KINDS if k not in e.skip_kinds])
  if name in ('scale_by_yogi', 'yogi'):
    top = top ** .5
  pstyle = ctx.pick(['normal', 'zeros', 'some_zero'])
  p = work.params(ctx, kind, dtype, style='positive' if e.nonneg else pstyle)
  like = tree_map(np.asarray, p)
  if e.per_example:
    like = tree_map(lambda a: np.zeros((3,) + a.shape, a.dtype), like)
  gs = hostile(ctx, like, 6, style, top)
  if e.lookahead:
    p = optax.LookaheadParams.init_synced(p)
  opt = e.build(int(ctx.rng.integers(1000)))
  ctx.describe(optimiser=name, gradients=style, tree=kind, params=pstyle,
               dtype=np.dtype(dtype).name)
  s = opt.init(p)
  upd = jax.jit(opt.update)
  for t, g in enumerate(gs):
    u, s = upd(work.to_jax(g), s, p)
    ctx.finite(u, f'updates at {t}')
    ctx.finite(s, f'state at {t}')
    p = work.add(p, tree_map(lambda x: jnp.clip(x, -1e3, 1e3), u))
    ctx.count('hostile steps')
    ctx.seen(name, style, t, ctx.rep)


@scenario(env='x32', quick=240, thorough=3000)
def finite32(ctx):
  _finite(ctx, np.float32, 1e6)


@scenario(env='x64', quick=100, thorough=1200)
def finite64(ctx):
  _finite(ctx, np.float64, 1e12)


@scenario(env='x32', quick=60, thorough=600)
def finite_low(ctx):
  _finite(ctx, jnp.bfloat16, 1e3)


META = {
    'sgd': lambda r, h: optax.sgd(r, h['decay']),
    'nesterov': lambda r, h: optax.sgd(r, h['decay'], nesterov=True),
    'adam': lambda r, h: optax.adam(r, h['decay'], .95, eps_root=1e-8),
    'adamw': lambda r, h: optax.adamw(r, h['decay'], .95, eps_root=1e-8,
                                      weight_decay=h['wd']),
    'adabelief': lambda r, h: optax.adabelief(r, h['decay'], .95, eps=1e-4),
    'radam': lambda r, h: optax.radam(r, h['decay'], .95, eps_root=1e-8),
    'yogi': lambda r, h: optax.yogi(r, h['decay'], .95, eps=1e-3),
    'rmsprop': lambda r, h: optax.rmsprop(r, h['decay'], eps=1e-4, momentum=.5),
    'rmsprop_centered': lambda r, h: optax.rmsprop(r, h['decay'], eps=1e-4, centered=True),
    'adagrad': lambda r, h: optax.adagrad(r, .1),
    'lamb': lambda r, h: optax.lamb(r, h['decay'], .95, eps_root=1e-8, weight_decay=h['wd']),
    'trust': lambda r, h: optax.chain(optax.scale_by_trust_ratio(), optax.scale(-1 * r)),
    'decay': lambda r, h: optax.chain(optax.add_decayed_weights(h['wd']),
                                      optax.trace(h['decay']), optax.scale(-1 * r)),
    'ema': lambda r, h: optax.chain(optax.ema(h['decay']), optax.scale(-1 * r)),
    'centralize': lambda r, h: optax.chain(optax.centralize(), optax.scale(-1 * r)),
    'clipped': lambda r, h: optax.chain(optax.clip_by_global_norm(.5), optax.sgd(r, h['decay'])),
    'agc': lambda r, h: optax.chain(optax.adaptive_grad_clip(.05, 1e-2), optax.sgd(r)),
    'multi': lambda r, h: optax.MultiSteps(
        optax.sgd(r, h['decay']), 2).gradient_transformation(),
    'masked': lambda r, h: optax.masked(
        optax.sgd(r, h['decay']), lambda t: tree_map(lambda x: x.ndim < 2, t)),
    'inject': lambda r, h: optax.inject_hyperparams(optax.sgd)(r, h['decay']),
    'schedule': lambda r, h: optax.sgd(lambda c: r / (1. + c), h['decay']),
    'finite_guard': lambda r, h: optax.apply_if_finite(optax.sgd(r, h['decay']), 2),
    'flatten': lambda r, h: optax.flatten(optax.sgd(r, h['decay'])),
    'apply_every': lambda r, h: optax.chain(optax.apply_every(2), optax.sgd(r, h['decay'])),
    'sm3': lambda r, h: optax.sm3(r, h['decay']),
    'maybe': lambda r, h: optax.maybe_update(optax.sgd(r, h['decay']), lambda s: s != 1),
}


def trained_loss(make, p, theta, target, A, steps):
  opt = make(theta['lr'], theta)
  p = tree_map(lambda x, d: x + d, p, theta['shift'])
  s = opt.init(p)

  def loss(p):
    return sum(jnp.sum(a * (x - y) ** 2 + .1 * jnp.cos(x)) for a, x, y in zip(
        tree_leaves(A), tree_leaves(p), tree_leaves(target)))
  for _ in range(steps):
    g = jax.grad(loss)(p)
    u, s = opt.update(g, s, p)
    p = optax.apply_updates(p, u)
  return loss(p)


@scenario(env='x64', quick=52, thorough=500)
def meta(ctx):
  """Derivatives through training equal finite differences."""
  name = ctx.cycle(META)
  make = META[name]
  kind = ctx.pick(['vector', 'matrix_bias', 'one', 'scalar', 'nested'])
  p = work.params(ctx, kind)
  target = work.params(ctx, kind)
  A = tree_map(lambda x: jnp.abs(x) + .3, work.params(ctx, kind))
  theta = {'lr': jnp.asarray(.05), 'decay': jnp.asarray(.8), 'wd': jnp.asarray(.05),
           'shift': tree_map(jnp.zeros_like, p)}
  ctx.describe(optimiser=name, tree=kind)
  steps = 4
  f = jax.jit(lambda th: trained_loss(make, p, th, target, A, steps))
  g = jax.jit(jax.grad(f))(theta)
  ctx.finite(g, 'derivative')
  fwd = jax.jvp(f, (theta,), (tree_map(jnp.ones_like, theta),))[1]
  ctx.close(fwd, sum(float(jnp.sum(x)) for x in tree_leaves(g)),
            'forward and reverse derivatives', rtol=1e-7,
            scale=sum(float(jnp.sum(jnp.abs(x))) for x in tree_leaves(g)))
  for _ in range(3):
    d = tree_map(lambda x: jnp.asarray(ctx.rng.normal(size=x.shape)), theta)
    fd = lambda h: (float(f(tree_map(lambda x, y: x + h * y, theta, d)))
                    - float(f(tree_map(lambda x, y: x - h * y, theta, d)))) / (2 * h)
    h1, h2 = fd(1e-6), fd(4e-6)
    got = sum(float(jnp.vdot(x, y)) for x, y in zip(tree_leaves(g), tree_leaves(d)))
    scale = 1e-2 + sum(float(jnp.sum(jnp.abs(x * y))) for x, y in zip(
        tree_leaves(g), tree_leaves(d)))
    if abs(h1 - h2) > 1e-4 * scale:
      ctx.count('kinks skipped')
      continue
    ctx.close(got, h1, 'directional derivative', rtol=5e-4, scale=scale)
    ctx.count('derivatives')
  ctx.seen(name, kind, ctx.rep)


AT_ZERO = ['sgd', 'nesterov', 'adam', 'adamw', 'radam', 'rmsprop', 'rmsprop_centered',
           'lamb', 'trust', 'decay', 'ema', 'centralize', 'multi', 'masked', 'inject',
           'schedule', 'finite_guard', 'flatten', 'apply_every', 'maybe', 'adagrad']


@scenario(env='x32', quick=63, thorough=500)
def at_zero(ctx):
  """Derivatives where gradients (and parameters) are exactly zero."""
  name = ctx.cycle(AT_ZERO)
  make = META[name]
  kind = ctx.pick(['vector', 'matrix_bias', 'one', 'scalar', 'nested'])
  p = work.params(ctx, kind, style=ctx.pick(['zeros', 'some_zero', 'normal']))
  dead = [ctx.coin() for _ in tree_leaves(p)]
  if not any(dead):
    dead[0] = True
  ctx.describe(optimiser=name, tree=kind, dead=dead)
  theta = {'lr': jnp.asarray(.05, F), 'decay': jnp.asarray(.8, F), 'wd': jnp.asarray(.05, F)}

  def run(th, p):
    opt = make(th['lr'], th)
    s = opt.init(p)

    def loss(p):
      return sum(0. * jnp.sum(x) if d else jnp.sum((x - 1.) ** 2)
                 for d, x in zip(dead, tree_leaves(p)))
    for _ in range(3):
      u, s = opt.update(jax.grad(loss)(p), s, p)
      p = optax.apply_updates(p, u)
    return sum(jnp.sum((x - .5) ** 2) for x in tree_leaves(p))
  v, g = jax.jit(jax.value_and_grad(run, argnums=(0, 1)))(theta, p)
  ctx.finite([v, g], 'loss and derivatives')
  ctx.count('derivatives')
  ctx.seen(name, kind, ctx.rep)
