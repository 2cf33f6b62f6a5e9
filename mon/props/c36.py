"""C36: steps and averages respect the bounds of their method."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('An online monitor derives, from the hyperparameters alone, the largest '
        'step a rule can take whatever the gradients were, and checks every '
        'coordinate of every update of adversarial histories (silence then a '
        'spike, aligned with the bound\'s worst case, scales over 24 orders) '
        'against it; averages must stay in the hull of what they average.')
ASSUMPTIONS = ['Bounds are those of exact arithmetic plus a rounding margin.']
MIN_EVALS = 4000
MIN_DISTINCT = 800
MIN_COUNTERS = {'bounded steps': 1500, 'steps near the bound': 40}

REL = 1e-9 if X64 else 2e-4


def adversarial(ctx, like, n, worst=None, top=1e6):
  """Histories that push towards extreme ratios."""
  r = ctx.rng
  style = ctx.pick(['silence_then_spike', 'spike_then_small', 'decades', 'normal',
                    'growing', 'shrinking', 'constant', 'flip', 'worst'])
  if style == 'worst' and worst is None:
    style = 'growing'
  rate = r.uniform(1.2, 3.)
  out = []
  for t in range(n):
    def leaf(x):
      z = r.normal(size=x.shape)
      sg = np.where(r.random(x.shape) < .5, -1., 1.)
      v = {'silence_then_spike': z * (top if t == n - 1 else 0),
           'spike_then_small': z * (top if t == 0 else 1e-3),
           'decades': sg * 10. ** r.uniform(-6, np.log10(top), size=x.shape),
           'normal': z, 'growing': np.ones(x.shape) * rate ** t,
           'shrinking': np.ones(x.shape) * rate ** -t, 'constant': np.ones(x.shape) * .3,
           'flip': np.ones(x.shape) * (-1.) ** t,
           'worst': np.ones(x.shape) * (worst(t) if worst else 1.)}[style]
      return np.asarray(v, x.dtype)
    out.append(tree_map(leaf, like))
  return style, out


def _abs_bound(ctx, u, bound, what):
  """Every |coordinate| of u is at most `bound` (number or list of arrays)."""
  ls = seq.leaves64(u)
  bs = bound if isinstance(bound, list) else [bound] * len(ls)
  ctx._observe(what, u)
  for i, (x, b) in enumerate(zip(ls, bs)):
    b = np.broadcast_to(np.asarray(b, np.float64), x.shape)
    ctx.ok(np.all(np.abs(x) <= b * (1 + REL) + 1e-300), f'{what}: leaf {i} exceeds the bound',
           got=x, bound=b)
    if x.size and np.any((np.abs(x) > .9 * b) & (b > 0)):
      ctx.count('steps near the bound')
  ctx.count('bounded steps')


def adam_bound(b1, b2, t):
  """Cauchy-Schwarz: max over histories of |m_hat| / sqrt(v_hat) at step t >= 1."""
  k = np.arange(t, dtype=float)
  a = (1 - b1) * b1 ** k / (1 - b1 ** t)
  b = (1 - b2) * b2 ** k / (1 - b2 ** t)
  return float(np.sqrt(np.sum(a * a / b)))


def _coordinatewise(ctx):
  name = ctx.cycle(['adam', 'adamw_zero', 'adam_eps', 'rms', 'rss', 'adagrad', 'sm3', 'sm3_ema',
                    'clip', 'radam', 'rmsprop', 'multi_adam', 'flatten_adam', 'finite_adam'])
  kind = ctx.pick(work.KINDS)
  p = work.params(ctx, kind)
  b1, b2 = ctx.pick([(.9, .999), (.5, .9), (0., .9), (.9, .99), (.95, .96), (.8, .7)])
  d = ctx.pick([.9, .5, .99, .05])
  lr = ctx.pick([1., .1, 1e-3])
  n = 12
  bounds = {
      'adam': lambda t: lr * adam_bound(b1, b2, t),
      'multi_adam': lambda t: lr * adam_bound(b1, b2, t),
      'rms': lambda t: 1 / np.sqrt(1 - d), 'rmsprop': lambda t: lr / np.sqrt(1 - d),
      'rss': lambda t: 1., 'adagrad': lambda t: lr, 'sm3': lambda t: lr,
      'sm3_ema': lambda t: 1., 'clip': lambda t: lr}
  for a in ('adamw_zero', 'adam_eps', 'flatten_adam', 'finite_adam'):
    bounds[a] = bounds['adam']

  def radam(t):
    inf = 2 / (1 - b2) - 1
    ro = inf - 2 * t * b2 ** t / (1 - b2 ** t)
    if ro < 5.:
      return None
    return lr * adam_bound(b1, b2, t) * np.sqrt(
        (ro - 4) * (ro - 2) * inf / ((inf - 4) * (inf - 2) * ro))
  bounds['radam'] = radam
  make = {
      'adam': lambda: optax.adam(lr, b1, b2, eps=0.),
      'adamw_zero': lambda: optax.adamw(lr, b1, b2, eps=1e-8, weight_decay=0.),
      'adam_eps': lambda: optax.adam(lr, b1, b2, eps=1e-3, eps_root=1e-6),
      'radam': lambda: optax.radam(lr, b1, b2),
      'rms': lambda: optax.scale_by_rms(d, eps=1e-12),
      'rmsprop': lambda: optax.rmsprop(lr, d, eps=1e-12),
      'rss': lambda: optax.scale_by_rss(ctx.pick([0., .1]), eps=1e-12),
      'adagrad': lambda: optax.adagrad(lr, .1),
      'sm3': lambda: optax.sm3(lr, .9), 'sm3_ema': lambda: optax.scale_by_sm3(.5, 1., 1e-12),
      'clip': lambda: optax.clip(lr),
      'multi_adam': lambda: optax.MultiSteps(
          optax.adam(lr, b1, b2, eps=1e-12), 2).gradient_transformation(),
      'flatten_adam': lambda: optax.flatten(optax.adam(lr, b1, b2)),
      'finite_adam': lambda: optax.apply_if_finite(optax.adam(lr, b1, b2), 3),
  }[name]
  # The history that attains Adam's bound at the last step: g_i ~ a_i / b_i.
  worst = lambda t: (b1 / b2) ** (n - 1 - t) if b1 else float(t == n - 1)
  top = 1e6 if name not in ('adam', 'multi_adam') or X64 else 1e3
  style, gs = adversarial(ctx, p, n, worst, top)
  if name in ('adam', 'multi_adam'):  # no epsilon: keep zeros out
    gs = [tree_map(lambda x: np.where(x == 0, 1e-6, x).astype(x.dtype), g) for g in gs]
  ctx.describe(rule=name, tree=kind, history=style, b1=b1, b2=b2, decay=d, lr=lr)
  opt = make()
  upd = jax.jit(opt.update)
  s = opt.init(p)
  for t, g in enumerate(gs):
    u, s = upd(work.to_jax(g), s, p)
    b = bounds[name](t // 2 + 1 if name == 'multi_adam' else t + 1)
    if b is not None:
      _abs_bound(ctx, u, b, f'{name} step {t}')
  ctx.seen(name, style, kind, b1, b2, d, lr)


@scenario(env='x64', quick=140, thorough=2000)
def coordinates(ctx):
  _coordinatewise(ctx)


@scenario(env='x32', quick=84, thorough=1000)
def coordinates32(ctx):
  _coordinatewise(ctx)


@scenario(env='x64', quick=20, thorough=300)
def long_histories(ctx):
  """The bounds of one coordinate over thousands of steps."""
  name = ctx.cycle(['adam', 'radam', 'rms', 'rss', 'sm3', 'radam', 'adagrad', 'sm3_ema',
                    'adam', 'rmsprop'])
  b1, b2 = ctx.pick([(.9, .999), (.5, .9), (0., .9), (.9, .99), (.95, .96), (0., .99)])
  lr = ctx.pick([1., .1])
  n = int(ctx.pick([500, 2000, 6000]))
  t = np.arange(1, n + 1.)
  # Cauchy-Schwarz in closed form: sum of a^2 / b is a geometric sum.
  q = b1 * b1 / b2
  adam = (1 - b1) / (1 - b1 ** t) * np.sqrt(
      (1 - b2 ** t) / (1 - b2) * (1 - q ** t) / (1 - q))
  inf = 2 / (1 - b2) - 1
  ro = inf - 2 * t * b2 ** t / (1 - b2 ** t)
  with np.errstate(all='ignore'):
    rect = np.where(ro < 5, np.inf, np.sqrt((ro - 4) * (ro - 2) * inf / (
        (inf - 4) * (inf - 2) * ro)))
  opt, bound = {
      'adam': (optax.adam(lr, b1, b2), lr * adam),
      'radam': (optax.radam(lr, b1, b2), lr * adam * rect),
      'rms': (optax.scale_by_rms(b2, eps=1e-12), 1 / np.sqrt(1 - b2)),
      'rmsprop': (optax.rmsprop(lr, b2, eps=1e-12), lr / np.sqrt(1 - b2)),
      'rss': (optax.scale_by_rss(0., eps=1e-12), 1.),
      'adagrad': (optax.adagrad(lr, .1), lr), 'sm3': (optax.sm3(lr, .9), lr),
      'sm3_ema': (optax.scale_by_sm3(.5, 1., 1e-12), 1.)}[name]
  style = ctx.pick(['constant', 'normal', 'spikes', 'slow wave', 'fading'])
  z = ctx.rng.normal(size=(n, 4))
  g = {'constant': np.ones((n, 1)) * z[:1], 'normal': z,
       'spikes': np.where(ctx.rng.random((n, 4)) < .003, z * 1e6, 0),
       'slow wave': np.sin(t[:, None] / 100) + .01 * z, 'fading': z * .995 ** t[:, None]}[style]
  ctx.describe(rule=name, steps=n, history=style, b1=b1, b2=b2, lr=lr)
  p = jnp.zeros(4)

  def body(s, x):
    u, s = opt.update(x, s, p)
    return s, u
  _, us = jax.jit(lambda s, x: jax.lax.scan(body, s, x))(opt.init(p), jnp.asarray(g))
  b = np.broadcast_to(np.asarray(bound, np.float64), (n,))[:, None]
  us = np.abs(np.asarray(us, np.float64))
  ctx.ok(np.all(us <= b * (1 + 1e-7)), f'{name}: exceeds the bound',
         step=int(np.argmax((us / b).max(1))) + 1, ratio=(us / b).max())
  ctx._observe(name, us)
  ctx.count('bounded steps', n)
  ctx.count('steps near the bound', int(np.sum(us > .9 * b)))
  ctx.seen(name, style, n, b1, b2, lr)


def _norm(x):
  return float(np.sqrt(np.sum(np.square(np.asarray(x, np.float64)))))


@scenario(env='x64', quick=90, thorough=1000)
def norms(ctx):
  """Rules that tie a leaf's (or the tree's) step to a norm."""
  name = ctx.cycle(['lamb', 'fromage', 'trust', 'global', 'agc', 'dp', 'dpsgd',
                    'lamb_decay', 'sgd_global'])
  r = ctx.rng
  kind = ctx.pick([k for k in work.KINDS if k not in ('rank5',)])
  p = work.params(ctx, kind, scale=10. ** r.uniform(-3, 3))
  lr = ctx.pick([1., .1, 1e-3])
  per_example = name in ('dp', 'dpsgd')
  like = tree_map(lambda x: np.zeros((4,) + x.shape), p) if per_example else p
  style, gs = adversarial(ctx, like, 8)
  c = 10. ** r.uniform(-2, 2)
  opt = {'lamb': lambda: optax.lamb(lr), 'lamb_decay': lambda: optax.lamb(lr, weight_decay=.1),
         'fromage': lambda: optax.fromage(lr), 'trust': lambda: optax.scale_by_trust_ratio(),
         'global': lambda: optax.clip_by_global_norm(c),
         'sgd_global': lambda: optax.chain(optax.clip_by_global_norm(c), optax.sgd(lr, .9)),
         'agc': lambda: optax.adaptive_grad_clip(c, 1e-3),
         'dp': lambda: optax.differentially_private_aggregate(c, 0., 1),
         'dpsgd': lambda: optax.dpsgd(lr, c, 0., 1, .9)}[name]()
  ctx.describe(rule=name, tree=kind, history=style, lr=lr, clip=c)
  upd = jax.jit(opt.update)
  s = opt.init(p)
  for t, g in enumerate(gs):
    u, s = upd(work.to_jax(g), s, p)
    ul, pl = seq.leaves64(u), seq.leaves64(p)
    ctx._observe(f'{name} {t}', u)
    geo = sum(.9 ** i for i in range(t + 1))
    if name in ('lamb', 'lamb_decay', 'trust'):
      k = 1. if name == 'trust' else lr
      for i, (x, y) in enumerate(zip(ul, pl)):
        if _norm(y) > 0 and _norm(x) > 0:
          ctx.close(_norm(x), k * _norm(y), f'norm of leaf {i} at {t}', rtol=1e-9)
          ctx.count('steps near the bound')
    elif name == 'fromage':
      for i, (x, y) in enumerate(zip(ul, pl)):
        m = 1 / np.sqrt(1 + lr * lr)
        ctx.ok(_norm(x) <= (lr * m + 1 - m) * max(_norm(y), 1e-6) * (1 + 1e-9),
               f'leaf {i} moved too far at {t}', got=_norm(x), params=_norm(y))
        ctx.ok(_norm(x + y) <= max(_norm(y), 1e-6) * (1 + lr) * m * (1 + 1e-9),
               f'leaf {i} grew too much at {t}', got=_norm(x + y), params=_norm(y))
    elif name == 'agc':
      for i, (x, y) in enumerate(zip(ul, pl)):
        ctx.ok(_norm(x) <= c * np.sqrt(max(1, y.size)) * max(_norm(y), 1e-3) * (1 + 1e-9),
               f'leaf {i} above the clipped norm at {t}', got=_norm(x))
    else:
      k = {'global': c, 'sgd_global': c * lr * geo, 'dp': c, 'dpsgd': c * lr * geo}[name]
      got = np.sqrt(sum(_norm(x) ** 2 for x in ul))
      ctx.ok(got <= k * (1 + 1e-9), f'{name}: norm above the bound at {t}', got=got, bound=k)
      if got > .9 * k:
        ctx.count('steps near the bound')
    ctx.count('bounded steps')
    p = work.add(p, tree_map(lambda x: .5 * x, u))
  ctx.seen(name, style, kind, ctx.rep)


@scenario(env='x64', quick=108, thorough=1000)
def hulls(ctx):
  """Averages stay between the smallest and the largest of what they average."""
  name = ctx.cycle(['ema', 'ema_biased', 'multi', 'incremental', 'lookahead', 'labels',
                    'normalised_rms', 'accumulator', 'weights'])
  r = ctx.rng
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  n = 12
  style, gs = adversarial(ctx, p, n)
  ctx.describe(rule=name, tree=kind, history=style)

  def inside(x, lo, hi, what):
    ctx._observe(what, x)
    for i, (a, l, h) in enumerate(zip(seq.leaves64(x), lo, hi)):
      m = 1e-9 * np.maximum(np.abs(l), np.abs(h))
      ctx.ok(np.all((a >= l - m) & (a <= h + m)), f'{what}: leaf {i} outside the hull',
             got=a, low=l, high=h)
    ctx.count('bounded steps')
  G = [seq.leaves64(g) for g in gs]
  cum = lambda f, t, start=0: [f.reduce([g[i] for g in G[start:t + 1]]) for i in range(len(G[0]))]
  if name in ('ema', 'ema_biased'):
    opt = optax.ema(work.decay_rate(ctx), name == 'ema')
    s = opt.init(p)
    upd = jax.jit(opt.update)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s)
      lo, hi = cum(np.minimum, t), cum(np.maximum, t)
      if name == 'ema_biased':
        lo, hi = [np.minimum(x, 0) for x in lo], [np.maximum(x, 0) for x in hi]
      inside(u, lo, hi, f'average at {t}')
  elif name == 'multi':
    k = ctx.pick([2, 3, 4])
    opt = optax.MultiSteps(optax.identity(), k)
    s = opt.init(p)
    upd = jax.jit(opt.update)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, p)
      if t % k == k - 1:
        inside(u, cum(np.minimum, t, t - k + 1), cum(np.maximum, t, t - k + 1), f'mean at {t}')
  elif name == 'incremental':
    for t, g in enumerate(gs):
      step = float(r.choice([0., 1., r.uniform()]))
      a, b = seq.leaves64(g), seq.leaves64(p)
      q = optax.incremental_update(work.to_jax(g), p, step)
      inside(q, [np.minimum(x, y) for x, y in zip(a, b)],
             [np.maximum(x, y) for x, y in zip(a, b)], f'new parameters {t}')
      p = q
  elif name == 'lookahead':
    k = ctx.pick([1, 2, 3])
    opt = optax.lookahead(optax.sgd(.1), k, ctx.pick([.1, .5, 1.]), ctx.coin())
    q = optax.LookaheadParams.init_synced(p)
    s = opt.init(q)
    upd = jax.jit(opt.update)
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, q)
      slow, reach = seq.leaves64(q.slow), [
          x - .1 * y for x, y in zip(seq.leaves64(q.fast), seq.leaves64(g))]
      q = work.add(q, u)
      top = [np.maximum(np.abs(x), np.abs(y)) * 1e-9 for x, y in zip(slow, reach)]
      inside(q.slow, [np.minimum(x, y) - m for x, y, m in zip(slow, reach, top)],
             [np.maximum(x, y) + m for x, y, m in zip(slow, reach, top)], f'slow after {t}')
  elif name == 'labels':
    for t in range(n):
      a = float(r.choice([0., 1., r.uniform()]))
      k = int(r.integers(2, 7))
      lab = np.eye(k)[r.integers(0, k, 5)]
      out = optax.smooth_labels(jnp.asarray(lab), a)
      inside(out, [np.zeros_like(lab)], [np.ones_like(lab)], f'labels {t}')
      ctx.close(jnp.sum(out, -1), np.ones(5), f'label sums {t}', rtol=1e-12)
  elif name in ('normalised_rms', 'accumulator'):
    init = ctx.pick([0., 1., 1e3])
    if name == 'normalised_rms':
      opt = optax.scale_by_rms(work.decay_rate(ctx), eps=1., initial_scale=init)
    else:
      opt = optax.scale_by_stddev(work.decay_rate(ctx), eps=1., initial_scale=init)
    s = opt.init(p)
    upd = jax.jit(opt.update)
    G = [[x * x for x in g] for g in G]
    for t, g in enumerate(gs):
      _, s = upd(work.to_jax(g), s)
      inside(s.nu, [np.minimum(x, init) for x in cum(np.minimum, t)],
             [np.maximum(x, init) for x in cum(np.maximum, t)], f'second moment at {t}')
  elif name == 'weights':
    # Decoupled decay: parameters never leave max(|p0|, adam_bound / decay).
    wd, lr = ctx.pick([(.1, .5), (1., .3), (.5, 1.)])
    b1, b2 = ctx.pick([(.9, .99), (.5, .9)])
    opt = optax.adamw(lr, b1, b2, weight_decay=wd)
    s = opt.init(p)
    upd = jax.jit(opt.update)
    lim = [np.maximum(np.abs(x), adam_bound(b1, b2, n) / wd) for x in seq.leaves64(p)]
    for t, g in enumerate(gs):
      u, s = upd(work.to_jax(g), s, p)
      p = work.add(p, u)
      inside(p, [-x for x in lim], lim, f'parameters after {t}')
  ctx.seen(name, style, kind, ctx.rep)


def _schedules(ctx):
  r = ctx.rng
  n = int(r.integers(2, 40))
  v, e, pk = [float(x) for x in np.exp(r.normal(size=3) * 2)]
  dv = float(np.exp(r.uniform(0, 4)))
  table = {
      'linear': (optax.linear_schedule(v, e, n, int(r.integers(0, 5))), [v, e]),
      'polynomial': (optax.polynomial_schedule(v, e, float(r.choice([.5, 1, 2, 3.5])), n), [v, e]),
      'cosine': (optax.cosine_decay_schedule(v, n, alpha=.1), [v, .1 * v]),
      'exponential': (optax.exponential_decay(v, n, .5, end_value=v / 10), [v, v / 10]),
      'exponential_up': (optax.exponential_decay(v, n, 1.7, end_value=v * 10), [v, v * 10]),
      'piecewise': (optax.piecewise_constant_schedule(v, {3: .5, 7: .1}), [v, v * .05]),
      'warmup_cosine': (optax.warmup_cosine_decay_schedule(v, max(v, pk), n, n + 9, min(v, e)),
                        [min(v, e), max(v, pk)]),
      'onecycle': (optax.cosine_onecycle_schedule(n + 5, pk, div_factor=dv + 1,
                                                  final_div_factor=1e3),
                   [pk, pk / (dv + 1) / 1e3]),
      'linear_onecycle': (optax.linear_onecycle_schedule(n + 9, pk, div_factor=dv + 1,
                                                         final_div_factor=1e3),
                          [pk, pk / (dv + 1) / 1e3]),
      'interpolate_linear': (optax.piecewise_interpolate_schedule(
          'linear', v, {4: .5, 9: 3.}), [v, v * .5, v * 1.5]),
      'interpolate_cosine': (optax.piecewise_interpolate_schedule(
          'cosine', v, {4: .5, 9: 3.}), [v, v * .5, v * 1.5]),
  }
  name = ctx.cycle(table)
  f, hull = table[name]
  ctx.describe(schedule=name, n=n, hull=hull)
  counts = np.unique(np.concatenate([np.arange(70), r.integers(0, 2 ** 31 - 1, 20),
                                     [2 ** 31 - 1]])).astype(np.int32)
  x = np.asarray(jax.jit(jax.vmap(f))(jnp.asarray(counts)), np.float64)
  ctx._observe(name, x)
  lo, hi = min(hull), max(hull)
  tol = 1e-5  # counts are int32: schedules compute in float32
  ctx.ok(np.all(x >= lo - tol * hi) and np.all(x <= hi * (1 + tol)), f'{name} leaves its range',
         got=x, low=lo, high=hi)
  ctx.count('bounded steps', len(counts))
  ctx.seen(name, n, v, e)


@scenario(env='x64', quick=66, thorough=660)
def schedules(ctx):
  """Schedules stay within their end points at every count, however large."""
  _schedules(ctx)


@scenario(env='x32', quick=44, thorough=440)
def schedules32(ctx):
  _schedules(ctx)
