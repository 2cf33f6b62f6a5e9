"""C08: every named optimiser equals its published composition."""
import numpy as np

from mon import half, ref, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Every named optimiser trains random trees on random gradient '
        'histories, with constant and scheduled learning rates; each update '
        'is compared with a float64 model of the published algorithm applied '
        'to the parameters the run itself visited.')
ASSUMPTIONS = [
    'Yogi is compared with the recorded second-moment rule where it differs '
    'from the published one (known finding of C04).',
    'DP-SGD is compared with its noise multiplier at zero; its noise is '
    'decided by C24.']
MIN_EVALS = 3000
MIN_DISTINCT = 800


def _lr(ctx, allow_schedule=True):
  base = work.logu(ctx, 1e-4, 1.)
  if not allow_schedule or ctx.coin():
    # Learning rates above one, none at all, and ascent.
    base = float(ctx.pick([base] * 6 + [1., 2.5, 12., 0., -base]))
    kind = ctx.pick([float] * 4 + [np.float64, np.float32, lambda x: jnp.asarray(x, F)])
    base = kind(base)
    return base, -float(base)
  kind = ctx.pick(['linear', 'exp', 'const', 'steps'])
  if kind == 'linear':
    n = int(ctx.rng.integers(2, 15))
    sch = optax.linear_schedule(base, base / 10, n)
    val = lambda t: base + (base / 10 - base) * min(t / n, 1.)
  elif kind == 'exp':
    sch = optax.exponential_decay(base, 5, .5)
    val = lambda t: base * .5 ** (t / 5)
  elif kind == 'const':
    sch = optax.constant_schedule(base)
    val = lambda t: base
  else:  # a user's own schedule
    sch = lambda c: base / (1. + c)
    val = lambda t: base / (1. + t)
  ctx.describe(schedule=kind)
  return sch, lambda t: -val(t)


def _adam_hp(ctx, eps):
  return dict(b1=ctx.pick([.9, .5, 0., .99, float(ctx.rng.uniform(0, .98))]),
              b2=ctx.pick([.999, .9, .99, .9999, float(ctx.rng.uniform(.6, 1))]),
              eps=ctx.pick([eps, eps, eps, 1., 1e-5]))


def _sgd(ctx, s, lr, slr, d):
  m = None if d else ctx.pick([None, .9, 0., .5, 1., .99, 1.1, -.5])
  nest = False if d else ctx.coin()
  opt = optax.sgd(lr) if d else optax.sgd(lr, m, nest)
  return opt, ref.Chain(*([ref.Trace(s, m, nest)] if m is not None else []),
                        ref.Scale(s, slr))


def _adam(ctx, s, lr, slr, d):
  hp = {} if d else dict(_adam_hp(ctx, ctx.pick([1e-8, 1e-3])),
                         eps_root=ctx.pick([0., 1e-4, 1.]))
  return optax.adam(lr, **hp), ref.Chain(ref.Adam(s, **hp), ref.Scale(s, slr))


def _adamw(ctx, s, lr, slr, d):
  hp = {} if d else dict(_adam_hp(ctx, ctx.pick([1e-8, 1e-3])),
                         eps_root=ctx.pick([0., 1e-4, 1.]))
  wd = 1e-4 if d else ctx.pick([0., .01, .3, 2., -.1])
  opt = optax.adamw(lr) if d else optax.adamw(lr, weight_decay=wd, **hp)
  return opt, ref.Chain(ref.Adam(s, **hp), ref.Decay(s, wd), ref.Scale(s, slr))


def _adabelief(ctx, s, lr, slr, d):
  hp = {} if d else _adam_hp(ctx, ctx.pick([1e-8, 1e-3]))
  full = dict(dict(eps=1e-8), **hp)
  return optax.adabelief(lr, **hp), ref.Chain(
      ref.Belief(s, eps_root=1e-16, **full), ref.Scale(s, slr))


def _adagrad(ctx, s, lr, slr, d):
  if d:
    return optax.adagrad(lr), ref.Chain(ref.Adagrad(s), ref.Scale(s, slr))
  i, e = ctx.pick([.1, 0., 1., 100.]), ctx.pick([1e-7, 1e-2, 1.])
  return optax.adagrad(lr, i, e), ref.Chain(ref.Adagrad(s, i, e),
                                            ref.Scale(s, slr))


def _lamb(ctx, s, lr, slr, d):
  hp = dict(eps=1e-6) if d else dict(_adam_hp(ctx, ctx.pick([1e-6, 1e-3])),
                                     eps_root=ctx.pick([0., 1e-4, 1.]))
  wd = 0. if d else ctx.pick([0., .01, .3, 2., -.1])
  opt = optax.lamb(lr) if d else optax.lamb(lr, weight_decay=wd, **hp)
  return opt, ref.Chain(ref.Adam(s, **hp), ref.Decay(s, wd), ref.Trust(s),
                        ref.Scale(s, slr))


def _radam(ctx, s, lr, slr, d):
  hp = {} if d else dict(_adam_hp(ctx, ctx.pick([1e-8, 1e-3])),
                         eps_root=ctx.pick([0., 1e-4, 1.]),
                         threshold=ctx.pick([5., 4.5, 7., 30.]))
  if not d and ctx.coin(.2):  # a memory too short for its threshold
    hp.update(b2=.5, threshold=3.2)
  return optax.radam(lr, **hp), ref.Chain(ref.Radam(s, **hp), ref.Scale(s, slr))


def _rmsprop(ctx, s, lr, slr, d):
  if d:
    return optax.rmsprop(lr), ref.Chain(ref.Rms(s), ref.Scale(s, slr))
  dec, eps = ctx.pick([.9, .5, .99, .999, 0.]), ctx.pick([1e-8, 1e-3, 1.])
  ini, cen = ctx.pick([0., 1., 10.]), ctx.coin()
  if cen:  # the variance is a difference of rounded numbers
    eps, dec = max(eps, 1e-2), dec or .5
  m, nest = ctx.pick([None, .9, .5, 0., 1., .2, -.6]), ctx.coin()
  ctx.describe(centered=cen, momentum=m, nesterov=nest)
  opt = optax.rmsprop(lr, dec, eps, ini, cen, m, nest)
  pre = (ref.StdDev if cen else ref.Rms)(s, dec, eps, ini)
  return opt, ref.Chain(pre, ref.Scale(s, slr), *(
      [ref.Trace(s, m, nest)] if m is not None else []))


def _sm3(ctx, s, lr, slr, d):
  m = .9 if d else ctx.pick([.9, 0., .5, .99])
  return (optax.sm3(lr) if d else optax.sm3(lr, m)), ref.Chain(
      ref.Sm3(s, m), ref.Scale(s, slr))


def _fromage(ctx, s, lr, slr, d):
  mn = 1e-6 if d else ctx.pick([1e-6, .1, 1e-9, 1e-12, 2.])
  lr_ = -slr

  class Fromage(ref.Ref):
    """w' = (w - lr |w| / |g| g) / sqrt(1 + lr^2), Bernstein et al."""

    def rule(self, g, p):
      out = []
      for x, w in zip(g, p):
        nw = max(np.sqrt((w * w).sum()), mn)
        nx = max(np.sqrt((x * x).sum()), mn)
        out.append((w - lr_ * nw / nx * x) / np.sqrt(1 + lr_ ** 2) - w)
      return out
  return (optax.fromage(lr) if d else optax.fromage(lr, mn)), Fromage(s)


def _noisy_sgd(ctx, s, lr, slr, d):
  return optax.noisy_sgd(lr, eta=0.), ref.Scale(s, slr)


OPTS = {'sgd': (_sgd, True), 'adam': (_adam, True), 'adamw': (_adamw, True),
        'adabelief': (_adabelief, True), 'adagrad': (_adagrad, True),
        'lamb': (_lamb, True), 'radam': (_radam, True),
        'rmsprop': (_rmsprop, True), 'sm3': (_sm3, False),
        'fromage': (_fromage, False), 'noisy_sgd': (_noisy_sgd, True)}


def _one(ctx, steps=16, rtol=1e-6, mode='jit', styles=None):
  name = ctx.cycle(OPTS)
  make, sched = OPTS[name]
  default = ctx.rep % 3 == 0
  kind = ctx.cycle(work.KINDS, len(OPTS)) if ctx.coin() else ctx.pick(work.KINDS)
  p = work.params(ctx, kind, scale=ctx.pick([work.logu(ctx, .1, 10)] * 3 + [1e-8, 1e4]))
  lr, slr = _lr(ctx, sched)
  opt, model = make(ctx, seq.shapes(p), lr, slr, default)
  style = ctx.pick(styles or [
      s for s in work.GRAD_STYLES
      if not (name in ('adabelief',) and s == 'constant')
      and not (name == 'rmsprop' and s in ('constant', 'large', 'lognormal'))])
  ctx.describe(optimiser=name, tree=kind, style=style, default=default)
  gs = work.grad_history(ctx, p, steps, style)
  lr0 = abs(slr(0) if callable(slr) else slr)
  # Fromage and weight decay combine terms of the size of the parameters.
  big = max([float(np.abs(x).max(initial=0.)) for x in seq.leaves64(p)])
  hint = {'fromage': big, 'lamb': lr0 * big * 1e-3, 'adamw': lr0 * 1e-2}.get(name, 0.)
  if callable(slr):
    # Schedules may be evaluated at single precision.
    hint, rtol = max(hint, lr0), max(rtol, 3e-6)
  if name == 'radam':
    rtol = max(rtol, 1e-6 if X64 else 6e-2)
  ups, st, _ = seq.follow(ctx, opt, model, p, gs, rtol=rtol, mode=mode,
                          scale_hint=hint)
  # The state of the run is a plain tree of arrays, advanced by the updates.
  ctx.count(f'runs of {name}')
  ctx.sample(optimiser=name, tree=kind, style=style, update=ups[-1])


@scenario(env='x64', quick=220)
def published(ctx):
  _one(ctx)


@scenario(env='x32', quick=44)
def single_precision(ctx):
  _one(ctx, 8, rtol=2e-2, mode=ctx.cycle(['jit', 'eager'], 11),
       styles=['normal', 'ties', 'burst', 'sparse'])


@scenario(env='x64', quick=30)
def yogi(ctx):
  hp = {} if ctx.rep % 3 == 0 else _adam_hp(ctx, ctx.pick([1e-3, 1e-2]))
  full = dict(dict(eps=1e-3), **hp)
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  lr, slr = _lr(ctx)
  style = ctx.pick(work.GRAD_STYLES)
  ctx.describe(tree=kind, style=style, hp=hp)
  gs = work.grad_history(ctx, p, 16, style)
  s = seq.shapes(p)
  ups, _, _ = work.drive(optax.yogi(lr, **hp), p, gs)
  models = [ref.Chain(ref.Yogi(s, order=o, **full), ref.Scale(s, slr))
            for o in (2, 4)]
  for t, g in enumerate(gs):
    want = [m.step(seq.leaves64(g)) for m in models]
    got = seq.leaves64(ups[t])
    fits = [all(np.allclose(a, b, rtol=1e-6, atol=1e-30) for a, b in zip(got, w))
            for w in want]
    ctx.ok(any(fits), f'update {t} follows neither Yogi rule', got=got,
           want=want[0])
    ctx._observe('yogi', ups[t])
    ctx.count('steps')


@scenario(env='x64', quick=24)
def dpsgd_without_noise(ctx):
  kind = ctx.cycle(work.PLAIN)
  p = work.params(ctx, kind)
  lr, slr = _lr(ctx)
  clip = ctx.pick([.1, 1., 10., 1e-3, 1e3])
  m, nest = ctx.pick([None, .9, 1., 0.]), ctx.coin()
  bs = ctx.pick([1, 2, 7, 40])
  ctx.describe(tree=kind, clip=clip, momentum=m, nesterov=nest, batch=bs)
  opt = (optax.dpsgd(lr, clip, 0., 3) if m is None
         else optax.dpsgd(lr, clip, 0., 3, m, nest))
  s = seq.shapes(p)
  tail = ref.Chain(*([ref.Trace(s, m, nest)] if m is not None else []),
                   ref.Scale(s, slr))
  state = opt.init(p)
  update = jax.jit(opt.update)
  for t in range(8):
    per = tree_map(lambda a: ctx.rng.normal(size=(bs,) + np.shape(a)) *
                   np.exp(ctx.rng.normal()), p)
    u, state = update(work.to_jax(per), state, p)
    L = seq.leaves64(per)
    norms = np.sqrt(sum((l.reshape(bs, -1) ** 2).sum(1) for l in L))
    f = np.minimum(1., clip / np.maximum(norms, 1e-300))
    mean = [(l * f.reshape((bs,) + (1,) * (l.ndim - 1))).sum(0) / bs for l in L]
    ctx.close(list(tree_leaves(u)), tail.step(mean), f'update {t}', rtol=1e-6,
              scale=clip * abs(slr(0) if callable(slr) else slr))
    ctx.count('steps')


@scenario(env='x64', quick=24, thorough=240)
def noisy_compositions(ctx):
  """The noisy optimisers add the noise of their parts, at every setting."""
  p = work.params(ctx, ctx.pick(work.PLAIN))
  lr, slr = _lr(ctx)
  at = lambda t: -slr(t) if callable(slr) else -slr
  seed = int(ctx.rng.integers(1000))
  seed = seed if ctx.coin() else -1 - seed
  private = ctx.coin()
  if private:
    clip, mult = work.logu(ctx, 1e-2, 1e2), float(ctx.pick([.1, 1.1, 7., 100.]))
    m, nest = ctx.pick([None, .9, .5, 1.]), ctx.coin()
    b = int(ctx.pick([1, 3, 100]))
    opt = optax.dpsgd(lr, clip, mult, seed, m, nest)
    parts = optax.differentially_private_aggregate(clip, mult, seed)
    ctx.describe(clip=clip, multiplier=mult, momentum=m, nesterov=nest, batch=b)
  else:
    eta = float(ctx.pick([.01, 1., 5., 1e-6, 0.]))
    gamma = float(ctx.pick([0., .1, .55, 1., 1.5, 2., 3.7]))
    opt = (optax.noisy_sgd(lr, eta, gamma, seed) if ctx.coin() else
           optax.noisy_sgd(learning_rate=lr, eta=eta, gamma=gamma, seed=seed))
    parts, m, b = optax.add_noise(eta, gamma, seed), None, None
    nest = False
    ctx.describe(eta=eta, gamma=gamma)
  s = seq.shapes(p)
  tail = ref.Chain(*([ref.Trace(s, m, nest)] if m is not None else []),
                   ref.Scale(s, slr))
  so, sp = opt.init(p), parts.init(p)
  uo, up = jax.jit(opt.update), jax.jit(parts.update)
  for t in range(6):
    g = tree_map(lambda a: jnp.asarray(ctx.rng.normal(size=(
        () if b is None else (b,)) + a.shape)), p)
    u, so = uo(g, so, p)
    noisy, sp = up(g, sp, p)
    n = seq.leaves64(noisy)
    ctx.close(list(tree_leaves(u)), tail.step(n), f'update {t}', rtol=3e-6,
              scale=[at(t) * np.abs(x).max(initial=0.) for x in n])
    ctx.count('steps')
  ctx.seen(private, seed)


@scenario(env='x64', quick=12, cost=2.)
def training(ctx):
  """Whole training runs on quadratics: the run itself lands at the model's."""
  name = ctx.cycle(['sgd', 'adam', 'adamw', 'lamb', 'radam', 'rmsprop',
                    'fromage', 'sm3', 'adagrad', 'noisy_sgd'])
  make, sched = OPTS[name]
  p = {'w': jnp.asarray(ctx.rng.normal(size=(4, 3))),
       'b': jnp.asarray(ctx.rng.normal(size=(3,)))}
  lr, slr = _lr(ctx, sched)
  if not callable(slr) and name == 'sgd':
    lr, slr = .01, -.01
  opt, model = make(ctx, seq.shapes(p), lr, slr, True)
  A = ctx.rng.normal(size=(4, 4)) * .3
  loss = lambda q: .5 * jnp.sum((A @ q['w'] + q['b']) ** 2)
  ctx.describe(optimiser=name, lr=str(lr))

  def step(c, _):
    q, s = c
    g = jax.grad(loss)(q)
    u, s = opt.update(g, s, q)
    q2 = optax.apply_updates(q, u)
    return (q2, s), (q, g, u)
  _, (qs, gs, us) = jax.jit(lambda c: jax.lax.scan(step, c, None, length=150))(
      (p, opt.init(p)))
  Q, G, U = seq.leaves64(qs), seq.leaves64(gs), seq.leaves64(us)
  for t in range(150):
    want = model.step([g[t] for g in G], [q[t] for q in Q])
    ctx.close([u[t] for u in U], want, f'update {t}', rtol=1e-5, scale=1e-8)
    if t:
      ctx.close([q[t] for q in Q], [q[t - 1] + u[t - 1] for q, u in zip(Q, U)],
                f'params {t}', rtol=1e-9, scale=1.)
    ctx.count('steps')


@scenario(env='x32', quick=40, thorough=400)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  half.agree(ctx, {
      'sgd': lambda: optax.sgd(.5), 'momentum': lambda: optax.sgd(.5, .5, True),
      'adam': lambda: optax.adam(.5, .5, .5, .01),
      'adamw': lambda: optax.adamw(.5, .5, .5, .01, weight_decay=.25),
      'adabelief': lambda: optax.adabelief(.5, .5, .5, .3),
      'adagrad': lambda: optax.adagrad(.5), 'sm3': lambda: optax.sm3(.5, .5),
      'lamb': lambda: optax.lamb(.5, .5, .5, .01, weight_decay=.25),
      'rmsprop': lambda: optax.rmsprop(.5, .5, .01),
      'fromage': lambda: optax.fromage(.5)}, slack=20.)
