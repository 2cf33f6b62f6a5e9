"""C22: inject_hyperparams schedules and exposes the hyperparameters in use."""
import functools

import numpy as np

from mon import core, sched, seq, spies, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('A probe factory and library factories are injected with random '
        'splits of their arguments into scheduled, numeric and static ones; '
        'histories interleave updates with manual overrides. A float64 model '
        'predicts the value of every hyperparameter at every step, what the '
        'inner transformation did with it, and the step counter.')
ASSUMPTIONS = ['All leaves of a model have one dtype (see KNOWN_FINDINGS).']
MIN_EVALS = 4000
MIN_DISTINCT = 600
MIN_COUNTERS = {'injected steps': 600, 'overrides': 60}


def _schedule(ctx, lo, hi):
  """A schedule and its float64 model."""
  kind = ctx.pick(['linear', 'poly', 'exp', 'cosine', 'table', 'own', 'flat'])
  a, b = (float(x) for x in ctx.rng.uniform(lo, hi, 2))
  if ctx.coin(.25):
    b = 0.
  if ctx.coin(.15):
    a = ctx.pick([0., -a])
  n = int(ctx.rng.integers(1, 9))
  if kind == 'linear':
    return (optax.linear_schedule(a, b, n), lambda t: sched.polynomial(a, b, 1, n)(t))
  if kind == 'poly':
    return (optax.polynomial_schedule(a, b, 2, n, 2),
            lambda t: sched.polynomial(a, b, 2, n, 2)(t))
  if kind == 'exp':
    return (optax.exponential_decay(a, n, .5), lambda t: sched.exponential(a, n, .5)(t))
  if kind == 'cosine':
    return (optax.cosine_decay_schedule(a, n), lambda t: sched.cosine(a, n)(t))
  if kind == 'table':
    arr = ctx.rng.uniform(lo, hi, 512) * (ctx.rng.random(512) > .25)
    j = jnp.asarray(arr, F)
    return (lambda c: j[c]), (lambda t: arr[t])
  if kind == 'own':
    return (lambda c: a / (c + 1.)), (lambda t: a / (t + 1.))
  return optax.constant_schedule(a), lambda t: a


def factory(a, b=.25, c=.125, d=.0625, mode='plain', flip=False, gate=None):
  """A probe with static arguments of several kinds."""
  if flip is True:
    a = -a
  if gate is not None:
    a = gate(a)
  if mode not in ('plain', 'noc'):
    raise ValueError(mode)
  return spies.probe(a, b, 0. * c if mode == 'noc' else c, d)


def _drive(ctx, rtol, n=8):
  kind = ctx.cycle(work.KINDS if n < 100 else ['matrix_bias', 'custom', 'nested'])
  p = work.params(ctx, kind)
  hows, kw, vals = {}, {}, {}
  for k in 'abcd':
    how = ctx.pick(['schedule', 'schedule', 'float', 'array', 'default', 'int',
                    'numpy', 'numpy array'])
    if how == 'default' and k == 'a':
      how = 'float'
    hows[k] = how
    if how == 'schedule':
      kw[k], vals[k] = _schedule(ctx, .1, 1.)
      continue
    if how == 'default':
      v = dict(b=.25, c=.125, d=.0625)[k]
    elif how == 'int':
      v = int(ctx.rng.integers(0, 3))
      kw[k] = v
    else:
      v = float(ctx.rng.uniform(.1, 1))
      kw[k] = {'float': v, 'array': jnp.asarray(v, F), 'numpy': np.float32(v),
               'numpy array': np.asarray(v, F)}[how]
    vals[k] = (lambda v: lambda t: v)(v)
  flip = ctx.coin(.3)
  if flip:
    kw['flip'] = True
  mode = ctx.pick(['plain', 'noc'])
  if ctx.coin(.5) or mode == 'noc':
    kw['mode'] = mode
  gated = ctx.coin(.3)
  if gated:
    kw['gate'] = lambda x: 2. * x
  static = ctx.pick([('gate',), 'gate', ['gate', 'mode']])
  inj = optax.inject_hyperparams(factory, static_args=static)
  positional = ctx.coin(.4)
  if positional:
    a = kw.pop('a')
    opt = inj(a, **kw)
  else:
    opt = inj(**kw)
  ctx.describe(tree=kind, hows=hows, flip=flip, mode=mode, gated=gated)
  with_params = ctx.coin(.7)
  jitted = ctx.coin(.7) or n > 100
  upd = jax.jit(opt.update) if jitted else opt.update
  state = (jax.jit(opt.init) if ctx.coin(.4) else opt.init)(p)
  ctx.ok(set(state.hyperparams) == set('abcd'), 'exposed hyperparameters',
         got=sorted(state.hyperparams))
  ctx.ok(int(state.count) == 0, 'count at init', got=state.count)

  def check_values(t):
    for k in 'abcd':
      ctx.close(state.hyperparams[k], np.float64(vals[k](t)),
                f'value of {hows[k]} hyperparameter {k} in the state at {t}',
                rtol=2e-5, atol=1e-7 if X64 else 2e-6)
  check_values(0)
  for k in 'abcd':
    kind_of = np.asarray(state.hyperparams[k]).dtype.kind
    ctx.ok(kind_of == ('i' if hows[k] == 'int' else 'f'),
           f'{hows[k]} hyperparameter keeps its kind of number', got=kind_of)
  model = spies.ProbeModel(seq.leaves64(p))
  for t, g in enumerate(work.grad_history(ctx, p, n, ctx.pick(
      ['normal', 'sparse', 'ties', 'constant', 'alternating'])), 1):
    if ctx.coin(.35 if n < 100 else .03):
      k = ctx.pick('abcd')
      v = float(ctx.pick([0., ctx.rng.uniform(.1, 1), ctx.rng.uniform(-1, 1)]))
      state.hyperparams[k] = jnp.asarray(v, F) if jitted or ctx.coin() else v
      if hows[k] != 'schedule':
        vals[k] = (lambda v: lambda t: v)(v)
        ctx.count('overrides')
      else:
        ctx.count('overrides of a scheduled value')
    u, state = upd(work.to_jax(g), state, *([p] if with_params else []))
    ctx.ok(int(state.count) == t, f'count after update {t}', got=state.count)
    check_values(t)
    co = {k: float(vals[k](t)) for k in 'abcd'}
    if flip:
      co['a'] = -co['a']
    if gated:
      co['a'] *= 2
    if mode == 'noc':
      co['c'] = 0.
    model.co = tuple(co[k] for k in 'abcd')
    want = model.step(seq.leaves64(g), seq.leaves64(p) if with_params else None)
    ctx.close(list(tree_leaves(u)), want, f'update {t}', rtol=rtol, scale=1.)
    model.check(ctx, state.inner_state, f'update {t}', rtol=rtol)
    ctx.count('injected steps')
    ctx.seen(tuple(hows.items()), t, ctx.rep)
    p = tree_map(lambda x: x * .9 + .01, p)


@scenario(env='x64', quick=90, thorough=1200)
def machine(ctx):
  _drive(ctx, 3e-5)


@scenario(env='x64', quick=12, thorough=120)
def long_history(ctx):
  _drive(ctx, 3e-5, n=280)


@scenario(env='x32', quick=40, thorough=400)
def machine32(ctx):
  _drive(ctx, 2e-4)


LIB = {
    'adam': (optax.adam, dict(learning_rate=.1, b1=.8, b2=.95, eps=1e-6, eps_root=1e-9)),
    'scale_by_adam': (optax.scale_by_adam, dict(b1=.8, b2=.95, eps=1e-6, eps_root=0.)),
    'sgd': (optax.sgd, dict(learning_rate=.1, momentum=.7)),
    'adamw': (optax.adamw, dict(learning_rate=.1, b1=.8, weight_decay=.01)),
    'lamb': (optax.lamb, dict(learning_rate=.1, weight_decay=.01)),
    'trace': (optax.trace, dict(decay=.7)),
    'ema': (optax.ema, dict(decay=.7)),
    'rmsprop': (optax.rmsprop, dict(learning_rate=.01, decay=.8, eps=1e-3)),
    'clip': (optax.clip, dict(max_delta=.5)),
    'clip_by_global_norm': (optax.clip_by_global_norm, dict(max_norm=.5)),
    'add_decayed_weights': (optax.add_decayed_weights, dict(weight_decay=.1)),
    'scale': (optax.scale, dict(step_size=-.1)),
    'adabelief': (optax.adabelief, dict(learning_rate=.1, b1=.8, eps=1e-8)),
    'yogi': (optax.yogi, dict(learning_rate=.1, b1=.8)),
    'fromage': (optax.fromage, dict(learning_rate=.1)),
    'adagrad': (optax.adagrad, dict(learning_rate=.1)),
}
STATIC = {'ema': ['debias', 'accumulator_dtype'], 'trace': 'nesterov',
          'adam': ('b1',)}


def selective(learning_rate, weight_decay, mask=None):
  o = optax.chain(optax.add_decayed_weights(weight_decay), optax.adam(learning_rate))
  return o if mask is None else optax.masked(o, mask)


@scenario(env='x64', quick=64, thorough=800)
def library(ctx):
  """Injected constants train exactly like the plain optimiser; a manual
  change equals the plain optimiser rebuilt with the new value."""
  name = ctx.cycle(LIB)
  make, kw = LIB[name]
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  opt = optax.inject_hyperparams(
      make, static_args=STATIC.get(name, ()))(**kw)
  plain = make(**kw)
  free = dict(kw)
  ctx.describe(factory=name, tree=kind)
  s1, s2 = opt.init(p), plain.init(p)
  for k in list(kw):
    if k in STATIC.get(name, ()):
      ctx.ok(k not in s1.hyperparams, 'static arguments are not exposed')
      del free[k]
      continue
    ctx.close(s1.hyperparams[k], np.float64(kw[k]), f'initial {k}', rtol=1e-6)
  ctx.close(s1.inner_state, s2, 'inner state at init', rtol=1e-12)
  u1 = jax.jit(opt.update)
  u2 = plain.update
  now = dict(kw)
  for t, g in enumerate(work.grad_history(ctx, p, 6, 'normal')):
    g = work.to_jax(g)
    if t in (2, 4):
      k = ctx.pick(list(free))
      now[k] = kw[k] * float(ctx.rng.uniform(.3, 1.))
      s1.hyperparams[k] = jnp.asarray(now[k], s1.hyperparams[k].dtype)
      u2 = make(**now).update
      ctx.count('overrides')
    a, s1 = u1(g, s1, p)
    b, s2 = u2(g, s2, p)
    ctx.close(a, b, f'update {t}', rtol=1e-6, atol=1e-12)
    ctx.close(s1.inner_state, s2, f'inner state {t}', rtol=1e-6, atol=1e-12)
    for k, v in now.items():
      if k in free:
        ctx.close(s1.hyperparams[k], np.float64(v), f'value of {k} after {t}',
                  rtol=1e-6)
    ctx.count('injected steps')
    p = work.add(p, tree_map(lambda x: .1 * jnp.tanh(x), b))


@scenario(env='x64', quick=24, thorough=240)
def wrapped(ctx):
  """Injection below chain and MultiSteps; state cut and continued."""
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  f, want = _schedule(ctx, .1, 1.)
  how = ctx.cycle(['chain', 'multi', 'carry'])
  inner = optax.inject_hyperparams(optax.scale)(step_size=f)
  ctx.describe(how=how, tree=kind)
  gs = work.grad_history(ctx, p, 6, 'normal')
  if how == 'chain':
    opt = optax.chain(inner, optax.inject_hyperparams(optax.trace)(decay=.5))
    s = opt.init(p)
    m = [np.zeros_like(x) for x in seq.leaves64(p)]
    for t, g in enumerate(gs, 1):
      u, s = opt.update(work.to_jax(g), s, p)
      m = [.5 * a + want(t) * x for a, x in zip(m, seq.leaves64(g))]
      ctx.close(list(tree_leaves(u)), m, f'update {t}', rtol=3e-5, scale=1.)
      ctx.count('injected steps')
  elif how == 'multi':
    opt = optax.MultiSteps(inner, 2)
    s = opt.init(p)
    for t, g in enumerate(gs):
      u, s = opt.update(work.to_jax(g), s, p)
      ctx.count('injected steps')
      if t % 2:
        mean = [(a + b) / 2 * want(t // 2 + 1)
                for a, b in zip(seq.leaves64(gs[t - 1]), seq.leaves64(g))]
        ctx.close(list(tree_leaves(u)), mean, f'update {t}', rtol=3e-5, scale=1.)
  else:
    s = inner.init(p)
    def body(s, g):
      u, s = inner.update(g, s)
      return s, (u, s.hyperparams['step_size'])
    stacked = tree_map(lambda *x: jnp.stack(x), *[work.to_jax(g) for g in gs])
    s, (us, hs) = jax.lax.scan(body, s, stacked)
    ctx.close(hs, np.array([want(t) for t in range(1, 7)], np.float64),
              'values in the scan', rtol=3e-5, atol=1e-7)
    ctx.count('injected steps', 6)
    for i, l in enumerate(tree_leaves(us)):
      w = np.stack([want(t + 1) * seq.leaves64(g)[i] for t, g in enumerate(gs)])
      ctx.close(l, w, 'updates in the scan', rtol=3e-5, scale=1.)


@scenario(env='x64', quick=24, thorough=200)
def kept_apart(ctx):
  """Static arguments are never called as schedules, callables elsewhere are;
  two transformations from one factory do not share hyperparameters."""
  p = work.params(ctx, ctx.pick(work.PLAIN))
  seen = []

  def mask_fn(t):
    seen.append(t)
    return tree_map(lambda x: jnp.ndim(x) > 1, t)
  inj = optax.inject_hyperparams(selective, static_args='mask')
  o1 = inj(learning_rate=.1, weight_decay=.3, mask=mask_fn)
  o2 = inj(learning_rate=lambda c: .2 / (c + 1), weight_decay=.1, mask=None)
  s1, s2 = o1.init(p), o2.init(p)
  plain1 = selective(.1, weight_decay=.3, mask=mask_fn)
  ctx.ok(seen and all(core.tree_structure(t) == core.tree_structure(p) for t in seen),
         'the static callable only ever saw trees')
  t1 = plain1.init(p)
  ctx.ok('mask' not in s1.hyperparams and 'mask' not in s2.hyperparams,
         'static arguments are not hyperparameters')
  for t, g in enumerate(work.grad_history(ctx, p, 3, 'normal'), 1):
    g = work.to_jax(g)
    a, s1 = o1.update(g, s1, p)
    b, s2 = o2.update(g, s2, p)
    w, t1 = plain1.update(g, t1, p)
    ctx.close(a, w, f'update {t}', rtol=1e-6, atol=1e-12)
    ctx.close(s1.hyperparams['learning_rate'], np.float64(.1), 'first rate', rtol=1e-6)
    ctx.close(s2.hyperparams['learning_rate'], np.float64(.2 / (t + 1)), 'second rate',
              rtol=1e-5)
    ctx.count('injected steps')
