"""C35: update rules have the symmetries of their formulas."""
import numpy as np

from mon import catalog, core, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Pairs and triples of runs related by a symmetry of the rule (signs '
        'flipped, linear combinations, units changed, coordinates permuted or '
        'rotated, gradients held still) are driven side by side; a relational '
        'monitor compares every step, with no reference model in between.')
ASSUMPTIONS = ['Scale symmetries are claimed where the additive epsilons are '
               'zero or scaled along; gradients there are not zero.']
MIN_EVALS = 4000
MIN_DISTINCT = 800
MIN_COUNTERS = {'related steps': 1500}

# Yogi starts its first moment at a positive value, by definition.
NO_FLIP = ('add_noise', 'noisy_sgd', 'keep_params_nonnegative', 'dp_aggregate', 'dpsgd',
           'scale_by_yogi', 'yogi')
ODD = [n for n in catalog.NAMES if n not in NO_FLIP]


def _fast(e, u):
  return u.fast if e.lookahead else u


@scenario(env='x64', quick=132, thorough=1320)
def signs(ctx):
  """Flipping signs of coordinates in gradients and parameters flips the updates."""
  name = ctx.cycle(ODD)
  e = catalog.CATALOG[name]
  kind, p, gs = catalog.problem(ctx, e, steps=6, style=ctx.pick(work.GRAD_STYLES))
  seed = int(ctx.rng.integers(1000))
  whole = name == 'centralize' or ctx.coin(.3)
  like = _fast(e, p)
  signs_ = tree_map(lambda x: -np.ones(x.shape) if whole else
                    ctx.rng.choice([-1., 1.], size=x.shape), like)
  flip = lambda t: tree_map(lambda x, s: jnp.asarray(np.asarray(x) * s, x.dtype), t, signs_)
  ctx.describe(transform=name, tree=kind, hp_seed=seed, whole=whole)
  opt = e.build(seed)
  upd = jax.jit(opt.update)
  q = optax.LookaheadParams(flip(p.fast), flip(p.slow)) if e.lookahead else flip(p)
  a, sa, pa = catalog.run(e, opt, p, gs, update=upd)
  b, sb, pb = catalog.run(e, opt, q, [flip(g) for g in gs], update=upd)
  for t, (x, y) in enumerate(zip(a, b)):
    want = flip(_fast(e, x))
    # Sums over coordinates may associate in another order: a few ulps.
    ctx.close(_fast(e, y), want, f'step {t}', rtol=1e-9, atol=1e-300,
              scale=tree_map(lambda u: float(jnp.max(jnp.abs(jnp.where(
                  jnp.isfinite(u), u, 0.)), initial=0.)) * 1e-3, want))
    ctx.count('related steps')
  if e.lookahead:
    ctx.close(pb.slow, flip(pa.slow), 'slow parameters', rtol=1e-9, atol=1e-12)


def _lr(ctx):
  return ctx.pick([.1, 2., optax.linear_schedule(.3, .01, 4),
                   optax.piecewise_constant_schedule(.2, {2: .5, 4: .1})])


# Rules that are linear in the history of (gradients, parameters).
LINEAR = {
    'scale': lambda c: optax.scale(float(c.rng.normal())),
    'trace': lambda c: optax.trace(work.decay_rate(c), c.coin()),
    'ema': lambda c: optax.ema(c.pick([0., .5, .9, .99]), c.coin()),
    'schedule': lambda c: optax.scale_by_schedule(optax.cosine_decay_schedule(1., 7)),
    'apply_every': lambda c: optax.apply_every(c.pick([1, 2, 3])),
    'centralize': lambda c: optax.centralize(),
    'weights': lambda c: optax.add_decayed_weights(c.pick([.1, .01])),
    'sgd': lambda c: optax.sgd(_lr(c), c.pick([None, .9, .5]), c.coin()),
    'sgd_weights': lambda c: optax.chain(optax.add_decayed_weights(.1),
                                         optax.sgd(_lr(c), .9)),
    'multi_mean': lambda c: optax.MultiSteps(
        optax.sgd(_lr(c), .9), c.pick([1, 2, 3])).gradient_transformation(),
    'multi_sum': lambda c: optax.MultiSteps(
        optax.sgd(_lr(c), .9), c.pick([2, 3]), use_grad_mean=False).gradient_transformation(),
    'multi_vary': lambda c: optax.MultiSteps(
        optax.sgd(.1), lambda s: 1 + s % 3).gradient_transformation(),
    'flatten': lambda c: optax.flatten(optax.chain(optax.trace(.9), optax.scale(-.1))),
    'masked': lambda c: optax.masked(optax.sgd(.1, .9), lambda t: tree_map(
        lambda x: x.ndim != 1, t)),
    'maybe': lambda c: optax.maybe_update(optax.sgd(.1, .9), lambda s: s % 3 != 1),
    'guard': lambda c: optax.apply_if_finite(optax.sgd(_lr(c), .9), 2),
    'inject': lambda c: optax.inject_hyperparams(optax.sgd)(
        learning_rate=optax.linear_schedule(.3, .1, 4), momentum=.9),
    'zero_nans': lambda c: optax.zero_nans(),
    'deep': lambda c: optax.chain(optax.centralize(), optax.ema(.5), optax.flatten(
        optax.trace(.5, True)), optax.apply_every(2), optax.scale(-.3)),
    'lookahead': lambda c: optax.lookahead(optax.sgd(.1, .9), c.pick([1, 2, 3]),
                                           c.pick([.5, .8]), c.coin()),
}


@scenario(env='x64', quick=100, thorough=1000)
def superposition(ctx):
  """Linear rules: the run of a combination is the combination of the runs."""
  name = ctx.cycle(LINEAR)
  seed = int(ctx.rng.integers(1 << 30))
  kind = ctx.pick([k for k in work.KINDS if k != 'empty_leaf'])
  n = 9
  style = ctx.pick(['normal', 'integers', 'sparse', 'lognormal', 'burst'])
  ps = [work.params(ctx, kind) for _ in range(2)]
  gg = [work.grad_history(ctx, ps[0], n, style) for _ in range(2)]
  a, b = [float(x) for x in ctx.rng.normal(size=2)]
  comb = lambda x, y: tree_map(lambda u, v: a * u + b * v, x, y)
  opt = LINEAR[name](ctx)
  look = name == 'lookahead'
  ps.append(comb(*ps))
  gg.append([comb(x, y) for x, y in zip(*gg)])
  if look:
    ps = [optax.LookaheadParams.init_synced(p) for p in ps]
  ctx.describe(rule=name, tree=kind, seed=seed, a=a, b=b)
  upd = jax.jit(opt.update)
  st = [opt.init(p) for p in ps]
  top = 1.
  for t in range(n):
    us = []
    for i in range(3):
      u, st[i] = upd(work.to_jax(gg[i][t]), st[i], ps[i])
      ps[i] = work.add(ps[i], u)
      us.append(u)
    top = max([top] + [float(np.max(np.abs(np.asarray(l)), initial=0.))
                       for l in tree_leaves([us, [g[t] for g in gg], ps])])
    ctx.close(us[2], comb(us[0], us[1]), f'update {t}', rtol=1e-10, scale=10 * top)
    ctx.close(ps[2], comb(ps[0], ps[1]), f'parameters after {t}', rtol=1e-10,
              scale=10 * top)
    ctx.count('related steps')
  ctx.seen(name, kind, seed)


# name: (factory of the rule in units c of the gradient and d of the parameters,
#        exponent of c, exponent of d in the updates)
H = {
    'scale': (lambda c, d: optax.scale(-.3), 1, 0),
    'trace': (lambda c, d: optax.trace(.9, True), 1, 0),
    'ema': (lambda c, d: optax.ema(.9), 1, 0),
    'apply_every': (lambda c, d: optax.apply_every(2), 1, 0),
    'clip': (lambda c, d: optax.clip(.5 * c), 1, 0),
    'clip_by_global_norm': (lambda c, d: optax.clip_by_global_norm(.5 * c), 1, 0),
    'sgd': (lambda c, d: optax.sgd(.1, .9), 1, 0),
    'adam': (lambda c, d: optax.adam(.1, eps=0.), 0, 0),
    'adam_eps': (lambda c, d: optax.adam(.1, .8, .9, eps=.1 * c), 0, 0),
    'adam_eps_root': (lambda c, d: optax.adam(.1, .8, .9, eps=0., eps_root=.1 * c * c), 0, 0),
    'scale_by_adam': (lambda c, d: optax.scale_by_adam(.5, .9, eps=0.), 0, 0),
    'chain_belief': (lambda c, d: optax.chain(optax.scale_by_belief(
        eps=.1 * c, eps_root=1e-3 * c * c), optax.scale(-.1)), 0, 0),
    'scale_by_belief': (lambda c, d: optax.scale_by_belief(eps=0., eps_root=.1 * c * c), 0, 0),
    'radam': (lambda c, d: optax.radam(.1, b2=.9, eps=0., threshold=99.), 1, 0),
    'scale_by_rms': (lambda c, d: optax.scale_by_rms(.9, eps=0.), 0, 0),
    'scale_by_rms_initial': (lambda c, d: optax.scale_by_rms(
        .9, eps=.1 * c * c, initial_scale=.7 * c * c), 0, 0),
    'scale_by_stddev': (lambda c, d: optax.scale_by_stddev(.9, eps=.1 * c * c), 0, 0),
    'rmsprop': (lambda c, d: optax.rmsprop(.1, .9, eps=.1 * c * c, momentum=.9), 0, 0),
    'rmsprop_centered': (lambda c, d: optax.rmsprop(
        .1, .9, eps=.1 * c * c, centered=True, initial_scale=.3 * c * c), 0, 0),
    'scale_by_rss': (lambda c, d: optax.scale_by_rss(.3 * c * c, eps=.1 * c * c), 0, 0),
    'adagrad': (lambda c, d: optax.adagrad(.1, .3 * c * c, eps=0.), 0, 0),
    'scale_by_sm3': (lambda c, d: optax.scale_by_sm3(.5, .9, eps=.1 * c * c), 0, 0),
    # The variance becomes tractable (5.39 > 5) at the sixth step.
    'radam_late': (lambda c, d: optax.radam(.1, b2=.9, eps=.1 * c, threshold=5.),
                   lambda t: int(t < 5), 0),
    'sm3_exact': (lambda c, d: optax.scale_by_sm3(.9, 1., eps=0.), 0, 0),
    'trust_ratio': (lambda c, d: optax.scale_by_trust_ratio(), 0, 1),
    'fromage': (lambda c, d: optax.fromage(.1, min_norm=0.), 0, 1),
    'lamb': (lambda c, d: optax.lamb(.1, eps=.1 * c), 0, 1),
    'adaptive_grad_clip': (lambda c, d: optax.adaptive_grad_clip(.1 * c / d, 1e-3 * d), 1, 0),
    'weights': (lambda c, d: optax.chain(
        optax.add_decayed_weights(.1 * c / d), optax.trace(.9)), 1, 0),
    'adamw': (lambda c, d: optax.adamw(.1 * d, eps=.1 * c, weight_decay=.1 / d), 0, 1),
    'dp_aggregate': (lambda c, d: optax.differentially_private_aggregate(.5 * c, .7, 3), 1, 0),
    'dpsgd': (lambda c, d: optax.dpsgd(.1, .5 * c, .7, 3, .9), 1, 0),
    'flatten': (lambda c, d: optax.flatten(optax.adam(.1, eps=.1 * c)), 0, 0),
    'multi_steps': (lambda c, d: optax.MultiSteps(
        optax.adam(.1, eps=.1 * c), 2).gradient_transformation(), 0, 0),
    'nonneg': (lambda c, d: optax.chain(
        optax.scale(d / c), optax.keep_params_nonnegative()), 0, 1),
}
UNITS = list(H)


@scenario(env='x64', quick=148, thorough=1160)
def units(ctx):
  """Changing the units of loss or parameters changes the updates' units only."""
  name = ctx.cycle(UNITS)
  make, gdeg, pdeg = H[name]
  kind = ctx.pick([k for k in work.KINDS if k != 'rank5'])
  up = 1 if (ctx.rep // len(UNITS)) % 2 else -1  # far up and far down for every rule
  far = 200 if ctx.rep % 3 == 0 else 30
  if name == 'adaptive_grad_clip':
    up = 1  # it treats norms below 1e-6 as 1e-6
  c = float(2. ** (up * ctx.rng.integers(6, far + 1)))
  d = float(2. ** ctx.rng.integers(-20 * far // 30, 20 * far // 30 + 1))
  if ctx.coin(.1):
    c = work.logu(ctx, 1., 1e6) if up > 0 else work.logu(ctx, 1e-6, 1.)
    d = work.logu(ctx, 1e-6, 1e6)
  p = work.params(ctx, kind, style='positive' if name == 'nonneg' else 'normal')
  like = p
  per_example = name in ('dp_aggregate', 'dpsgd')
  if per_example:
    like = tree_map(lambda x: np.zeros((3,) + x.shape), p)
  gs = work.grad_history(ctx, like, 8, ctx.pick(['normal', 'lognormal', 'ties', 'alternating']))
  times = lambda t, k: tree_map(lambda x: x * k, t)
  ctx.describe(rule=name, tree=kind, c=c, d=d)
  runs = []
  for cc, dd in ((1., 1.), (c, d)):
    opt = make(cc, dd)
    upd = jax.jit(opt.update)
    q = times(p, dd)
    s = opt.init(q)
    us = []
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(times(g, cc)), s, q)
      us.append(u)
      if name == 'nonneg':
        q = tree_map(jnp.maximum, work.add(q, u), tree_map(jnp.zeros_like, q))
      elif pdeg:
        q = work.add(q, times(u, .37))  # not onto zero
      else:  # the same parameters, in their unit, for both
        q = times(tree_map(lambda x: x * .9 ** (t + 1), p), dd)
    runs.append(us)
  for t, (x, y) in enumerate(zip(*runs)):
    k = c ** (gdeg(t) if callable(gdeg) else gdeg) * d ** pdeg
    want = times(x, k)
    ctx.close(y, want, f'step {t} in the other units', rtol=1e-7,
              scale=tree_map(lambda u: 1e-2 * float(jnp.max(jnp.abs(u), initial=0.)), want))
    ctx.count('related steps')
  ctx.seen(name, kind, c, d)


ROTATE = {
    'sgd': (lambda: optax.sgd(.1, .9, True), False),
    'ema': (lambda: optax.ema(.9), False),
    'clip_by_global_norm': (lambda: optax.clip_by_global_norm(1.5), False),
    'trust_ratio': (lambda: optax.scale_by_trust_ratio(.1), False),
    'fromage': (lambda: optax.fromage(.1), False),
    'agc': (lambda: optax.adaptive_grad_clip(.3, 1e-2), False),
    'dp_aggregate': (lambda: optax.differentially_private_aggregate(1.5, 0., 1), True),
    'dpsgd': (lambda: optax.dpsgd(.1, 1.5, 0., 1, .9), True),
    'weights': (lambda: optax.chain(optax.add_decayed_weights(.1), optax.trace(.9)), False),
    'flatten_clip': (lambda: optax.flatten(optax.clip_by_global_norm(1.)), False),
    'lookahead': (lambda: optax.lookahead(optax.sgd(.1, .9), 2, .5), False),
}


@scenario(env='x64', quick=66, thorough=660)
def rotations(ctx):
  """Rules that see norms and directions only commute with rotations of a vector."""
  name = ctx.cycle(ROTATE)
  make, per_example = ROTATE[name]
  r = ctx.rng
  n = int(r.integers(1, 7))
  Q = np.linalg.qr(r.normal(size=(n, n)))[0]
  R = lambda x: x @ Q
  shape = (3, n) if per_example else (n,)
  gs = [r.normal(size=shape) * 10. ** r.uniform(-1, 1) for _ in range(6)]
  p = r.normal(size=n)
  look = name == 'lookahead'
  opt = make()
  upd = jax.jit(opt.update)
  a, b = {'w': jnp.asarray(p)}, {'w': jnp.asarray(R(p))}
  if look:
    a, b = [optax.LookaheadParams.init_synced(x) for x in (a, b)]
  sa, sb = opt.init(a), opt.init(b)
  ctx.describe(rule=name, n=n)
  for t, g in enumerate(gs):
    ua, sa = upd({'w': jnp.asarray(g)}, sa, a)
    ub, sb = upd({'w': jnp.asarray(R(g))}, sb, b)
    a, b = work.add(a, ua), work.add(b, ub)
    ctx.close(ub, tree_map(lambda x: R(np.asarray(x)), ua), f'step {t}', rtol=1e-9, scale=10.)
    ctx.count('related steps')
  ctx.seen(name, n, ctx.rep)


STILL = {  # under a constant gradient g: f(t, g)
    'ema': (lambda: optax.ema(.9, debias=True), lambda t, g: g),
    'adam': (lambda: optax.scale_by_adam(.9, .999, eps=0.), lambda t, g: np.sign(g)),
    'adam_fast': (lambda: optax.scale_by_adam(.5, .6, eps=0.), lambda t, g: np.sign(g)),
    'rss': (lambda: optax.scale_by_rss(0., eps=0.),
            lambda t, g: np.sign(g) / np.sqrt(t + 1.)),
    'trace': (lambda: optax.trace(1.), lambda t, g: g * (t + 1)),
    'rms': (lambda: optax.scale_by_rms(.9, eps=0.),
            lambda t, g: np.sign(g) / np.sqrt(1 - .9 ** (t + 1))),
    'multi': (lambda: optax.MultiSteps(optax.scale(2.), 3).gradient_transformation(),
              lambda t, g: 2. * g * (t % 3 == 2)),
    'apply_every': (lambda: optax.apply_every(3), lambda t, g: 3. * g * (t % 3 == 2)),
    'sm3': (lambda: optax.chain(optax.flatten(optax.scale_by_sm3(0., 1., eps=0.))),
            lambda t, g: np.sign(g) / np.sqrt(t + 1.)),
    'zero_decay': (lambda: optax.trace(0.), lambda t, g: g),
    'clip': (lambda: optax.clip(.5), lambda t, g: np.clip(g, -.5, .5)),
}


@scenario(env='x64', quick=44, thorough=440)
def still(ctx):
  """Long runs on a constant gradient follow the fixed-gradient formula."""
  name = ctx.cycle(STILL)
  make, want = STILL[name]
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  g = tree_map(lambda x: ctx.rng.choice([-1, 1], size=x.shape) * np.exp(
      2 * ctx.rng.normal(size=x.shape)), p)
  opt = make()
  n = ctx.pick([40, 300, 3000])

  @jax.jit
  def run(s):
    def body(s, _):
      u, s = opt.update(work.to_jax(g), s, p)
      return s, u
    return jax.lax.scan(body, s, None, length=n)
  _, us = run(opt.init(p))
  ctx.describe(rule=name, tree=kind, steps=n)
  for t in sorted({0, 1, 2, 3, 5, 11, 38, 39, n // 2, n - 2, n - 1}):
    ctx.close(tree_map(lambda u: u[t], us), tree_map(lambda x: np.asarray(want(t, x)), g),
              f'step {t}', rtol=1e-8, atol=1e-12)
    ctx.count('related steps')
  ctx.seen(name, kind, n, ctx.rep)
