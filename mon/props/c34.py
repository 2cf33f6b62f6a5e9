"""C34: misuse fails loudly, never with silently wrong numbers."""
import numpy as np

from mon import catalog, core, spies, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Every documented precondition is violated with random arguments, bare '
        'and inside random compositions, eager and compiled: a refusal must be '
        'raised at construction or at the offending call. The neighbouring valid '
        'call must be accepted, and after a refusal the same transformation '
        'must still give what a fresh one gives.')
ASSUMPTIONS = ['Which exception is raised matters only where the library '
               'documents it (missing params: ValueError).']
MIN_EVALS = 4000
MIN_DISTINCT = 600
MIN_COUNTERS = {"refusals": 1500, "acceptances": 590}


def refused(ctx, fn, what, exc=Exception):
  """fn must raise; what it returned otherwise is reported."""
  try:
    out = fn()
  except exc:
    ctx.count('refusals')
    ctx.ok(True, what)
    return True
  except Exception as e:  # pylint: disable=broad-except
    ctx.ok(False, f'{what}: raised {type(e).__name__} instead of '
           f'{exc}', error=str(e))
    return False
  ctx.ok(False, f'{what}: accepted', got=out)
  return False


def accepted(ctx, fn, what):
  try:
    out = fn()
  except Exception as e:  # pylint: disable=broad-except
    ctx.ok(False, f'{what}: refused', error=f'{type(e).__name__}: {e}')
    return None
  ctx.count('acceptances')
  ctx.ok(True, what)
  return out


NEEDS_PARAMS = {
    'add_decayed_weights': lambda: optax.add_decayed_weights(.1),
    'scale_by_trust_ratio': lambda: optax.scale_by_trust_ratio(),
    'adaptive_grad_clip': lambda: optax.adaptive_grad_clip(.1),
    'keep_params_nonnegative': lambda: optax.keep_params_nonnegative(),
    'adamw': lambda: optax.adamw(.1),
    'lamb': lambda: optax.lamb(.1),
    'fromage': lambda: optax.fromage(.1),
}
INSIDE = {
    'bare': lambda o: o,
    'chain': lambda o: optax.chain(optax.scale(2.), o, optax.trace(.5)),
    'nested': lambda o: optax.chain(optax.chain(optax.identity(), o)),
    'masked': lambda o: optax.masked(o, lambda t: tree_map(lambda _: True, t)),
    'finite': lambda o: optax.apply_if_finite(o, 2),
    'maybe': lambda o: optax.maybe_update(o, lambda s: s >= 0),
    'inject': lambda o: optax.inject_hyperparams(
        lambda a: optax.chain(o, optax.scale(a)))(.5),
    'multi': lambda o: optax.MultiSteps(o, 1).gradient_transformation(),
    'flatten': lambda o: optax.flatten(o),
}


@scenario(env='x32', quick=126, thorough=1000)
def params_missing(ctx):
  name = ctx.cycle(NEEDS_PARAMS)
  where = ctx.cycle(INSIDE, stride=len(NEEDS_PARAMS))
  opt = INSIDE[where](NEEDS_PARAMS[name]())
  kind = ctx.pick(['vector', 'matrix_bias', 'one', 'nested'])
  p = work.params(ctx, kind, np.float32, style='positive')
  ctx.describe(transformation=name, inside=where, tree=kind)
  s = opt.init(p)
  g = work.to_jax(work.grad_history(ctx, p, 1)[0])
  jitted = ctx.coin()
  upd = jax.jit(opt.update) if jitted else opt.update
  refused(ctx, lambda: upd(g, s), f'{name} in {where} without params',
          (ValueError, TypeError))
  refused(ctx, lambda: upd(g, s, None), f'{name} in {where} with params=None',
          ValueError)
  out = accepted(ctx, lambda: upd(g, s, p), f'{name} in {where} with params')
  if out is not None:
    fresh = INSIDE[where](NEEDS_PARAMS[name]())
    fu = jax.jit(fresh.update) if jitted else fresh.update
    ctx.same(out[0], fu(g, fresh.init(p), p)[0], 'updates after a refusal')
  ctx.seen(name, where, kind, jitted)


@scenario(env='x32', quick=49, thorough=500)
def params_optional(ctx):
  """Everything else works without params, and says the same with them."""
  names = [n for n in catalog.NAMES if not catalog.CATALOG[n].needs_params]
  name = ctx.cycle(names)
  e = catalog.CATALOG[name]
  kind, p, gs = catalog.problem(ctx, e, steps=2, dtype=np.float32)
  seed = int(ctx.rng.integers(1000))
  ctx.describe(optimiser=name, tree=kind)
  a, b = e.build(seed), e.build(seed)
  sa, sb = a.init(p), b.init(p)
  for g in gs:
    ra = accepted(ctx, lambda: jax.jit(a.update)(work.to_jax(g), sa),
                  f'{name} without params')
    rb = accepted(ctx, lambda: jax.jit(b.update)(work.to_jax(g), sb, p),
                  f'{name} with params')
    if ra is None or rb is None:
      return
    (ua, sa), (ub, sb) = ra, rb
    ctx.close(ua, ub, 'updates with and without params', rtol=1e-5,
              atol=1e-7)
  ctx.seen(name, kind)


@scenario(env='x32', quick=60, thorough=500)
def chain_states(ctx):
  """A chain refuses a state of another length."""
  n = int(ctx.rng.integers(1, 6))
  parts = [ctx.pick([optax.identity, lambda: optax.scale(.5), lambda: optax.trace(.5),
                     lambda: optax.scale_by_rms()])() for _ in range(n)]
  p = work.params(ctx, ctx.pick(['vector', 'matrix_bias', 'one']), np.float32)
  opt = optax.chain(*parts)
  s = opt.init(p)
  g = work.to_jax(work.grad_history(ctx, p, 1)[0])
  l = list(s)
  for bad, what in ((l[:-1], 'one state too few'), (l + l[-1:], 'one too many'),
                    ([], 'no state'), (l + l, 'twice the states'),
                    (l + [optax.identity().init(p)] * 2, 'two more')):
    bad = type(s)(bad)
    refused(ctx, lambda: opt.update(g, bad, p), f'{n} parts: {what}')
    refused(ctx, lambda: jax.jit(opt.update)(g, bad, p), f'{n} parts, compiled: {what}')
  accepted(ctx, lambda: opt.update(g, s, p), f'{n} parts')
  ctx.seen(n, tuple(id(x) % 7 for x in parts), ctx.rep)


@scenario(env='x32', quick=120, thorough=1000)
def constructors(ctx):
  """Arguments outside the documented domain."""
  r = ctx.rng
  which = ctx.cycle(['lookahead', 'cosine', 'onecycle', 'cosine_onecycle', 'piecewise',
                     'interpolate', 'type', 'static_args'])
  ctx.describe(constructor=which)
  bad = int(-r.integers(0, 9))
  good = int(r.integers(1, 30))
  v = float(r.uniform(.1, 2))
  if which == 'lookahead':
    for b in (0, bad, -1):
      refused(ctx, lambda: optax.lookahead(optax.sgd(.1), b, .5), f'sync_period={b}')
    for gd in (1, good):
      accepted(ctx, lambda: optax.lookahead(optax.sgd(.1), gd, .5), f'sync_period={gd}')
  elif which == 'cosine':
    for b in (0, bad, float(-v)):
      refused(ctx, lambda: optax.cosine_decay_schedule(v, b), f'decay_steps={b}')
    accepted(ctx, lambda: optax.cosine_decay_schedule(v, good)(1), f'decay_steps={good}')
    accepted(ctx, lambda: optax.cosine_decay_schedule(v, 1)(1), 'decay_steps=1')
  elif which == 'onecycle':
    for b in (0, bad):
      refused(ctx, lambda: optax.linear_onecycle_schedule(b, v), f'transition_steps={b}')
    for gd in (1, good):
      accepted(ctx, lambda: optax.linear_onecycle_schedule(gd, v)(1),
               f'transition_steps={gd}')
  elif which == 'cosine_onecycle':
    for b in (0, bad):
      refused(ctx, lambda: optax.cosine_onecycle_schedule(b, v), f'transition_steps={b}')
    for gd in (1, good):
      accepted(ctx, lambda: optax.cosine_onecycle_schedule(gd, v)(1),
               f'transition_steps={gd}')
  elif which in ('piecewise', 'interpolate'):
    make = (optax.piecewise_constant_schedule if which == 'piecewise' else
            (lambda i, b=None: optax.piecewise_interpolate_schedule(
                ctx.pick(['linear', 'cosine']), i, b)))
    bs = sorted(int(x) for x in r.choice(np.arange(1, 60), 4, replace=False))
    ok = {b: float(r.uniform(0, 2)) for b in bs}
    accepted(ctx, lambda: make(v, ok)(3), 'non-negative scales')
    accepted(ctx, lambda: make(v, {**ok, bs[1]: 0.})(3), 'a scale of zero')
    accepted(ctx, lambda: make(v)(3), 'no boundaries')
    for b in bs:
      refused(ctx, lambda: make(v, {**ok, b: -float(r.uniform(1e-6, 2))}),
              f'negative scale at {b} of {bs}')
    refused(ctx, lambda: make(v, {b: -x - .1 for b, x in ok.items()}),
            'all scales negative')
  elif which == 'type':
    for b in ('quadratic', '', 'Linear', 'cos', None):
      if b == 'cos':
        continue  # named by the message, but not by the documentation
      refused(ctx, lambda: optax.piecewise_interpolate_schedule(b, v, {3: .5}),
              f'interpolate_type={b!r}')
    for gd in ('linear', 'cosine'):
      accepted(ctx, lambda: optax.piecewise_interpolate_schedule(gd, v, {3: .5})(1), gd)
  else:
    for b in ('nothing', ('b1', 'nothing'), ['momentum'], {'learning_rates'}):
      refused(ctx, lambda: optax.inject_hyperparams(optax.adam, static_args=b),
              f'static_args={b}')
    accepted(ctx, lambda: optax.inject_hyperparams(
        optax.adam, static_args='b1')(.1), 'static_args=b1')
    accepted(ctx, lambda: optax.inject_hyperparams(
        optax.adam, static_args=['b1', 'eps'])(.1), 'static_args=[b1, eps]')
    refused(ctx, lambda: optax.inject_hyperparams(optax.adam)(lr=.1), 'unknown argument')
    refused(ctx, lambda: optax.inject_hyperparams(optax.adam)(), 'missing argument')
  ctx.seen(which, bad, good, ctx.rep)


@scenario(env='x32', quick=60, thorough=600)
def fallbacks(ctx):
  """Documented fallbacks of schedules: constant, or begin at zero."""
  r = ctx.rng
  v, e = float(r.uniform(-2, 2)), float(r.uniform(-2, 2))
  bad = int(-r.integers(0, 9))
  b = int(r.integers(0, 9))
  rate = float(r.uniform(.1, 2))
  counts = [0, 1, 2, 7, int(r.integers(8, 10 ** 6))]
  const = {
      'linear': lambda n: optax.linear_schedule(v, e, n, b),
      'polynomial': lambda n: optax.polynomial_schedule(v, e, 2, n, b),
      'exponential': lambda n: optax.exponential_decay(v, n, rate, b),
      'staircase': lambda n: optax.exponential_decay(v, n, rate, b, True),
      'bounded': lambda n: optax.exponential_decay(v, n, rate, b, False, e),
      'no rate': lambda n: optax.exponential_decay(v, 5, 0., b, ctx.coin()),
  }
  name = ctx.cycle(const)
  for n in (0, bad):
    s = accepted(ctx, lambda: const[name](n), f'{name} with {n} steps')
    if s is None:
      return
    for c in counts:
      ctx.close(s(c), v, f'{name} with {n} steps at {c}', rtol=1e-6, shapes=False)
      ctx.close(jax.jit(s)(jnp.asarray(c, jnp.int32)), v,
                f'{name} with {n} steps at {c}, compiled', rtol=1e-6)
  n = int(r.integers(1, 12))
  begin = {
      'linear': lambda b: optax.linear_schedule(v, e, n, b),
      'polynomial': lambda b: optax.polynomial_schedule(v, e, 3, n, b),
      'exponential': lambda b: optax.exponential_decay(v, n, rate, b),
      'staircase': lambda b: optax.exponential_decay(v, n, rate, b, True),
      'bounded': lambda b: optax.exponential_decay(v, n, rate, b, False, e),
      'no rate': lambda b: optax.exponential_decay(v, n, 0., b),
  }[name]
  late, now = begin(-1 + bad), begin(0)
  for c in counts[:4]:
    ctx.close(late(c), np.asarray(now(c)), f'{name} beginning before 0, at {c}',
              rtol=1e-6, atol=1e-9)
  ctx.seen(name, bad, n, ctx.rep)


@scenario(env='x32', quick=60, thorough=600)
def batches(ctx):
  """Private aggregation refuses gradients without a common batch dimension."""
  r = ctx.rng
  agg = (optax.differentially_private_aggregate(1., ctx.pick([0., .5]), 3) if ctx.coin()
         else optax.dpsgd(.1, 1., ctx.pick([0., .5]), 3))
  n = int(r.integers(2, 6))
  shapes = [tuple(int(x) for x in r.integers(1, 4, size=int(r.integers(0, 3))))
            for _ in range(int(r.integers(2, 5)))]
  p = {f'p{i}': jnp.asarray(r.normal(size=s), F) for i, s in enumerate(shapes)}
  s = agg.init(p)
  per = {k: jnp.asarray(r.normal(size=(n,) + x.shape), F) for k, x in p.items()}
  ctx.describe(batch=n, shapes=shapes)
  out = accepted(ctx, lambda: agg.update(per, s), 'consistent batches')
  if out is not None:
    ctx.ok([x.shape for x in tree_leaves(out[0])] == shapes, 'shapes of the aggregate')
  for k in per:
    m = int(ctx.pick([x for x in (1, n - 1, n + 1, 2 * n) if x != n]))
    wrong = {**per, k: jnp.asarray(r.normal(size=(m,) + p[k].shape), F)}
    refused(ctx, lambda: agg.update(wrong, s), f'batch {m} instead of {n} in {k}')
    refused(ctx, lambda: jax.jit(agg.update)(wrong, s), f'batch {m}, compiled')
    refused(ctx, lambda: agg.update({**per, k: jnp.asarray(1., F)}, s),
            f'scalar in {k}')
  ctx.seen(n, tuple(shapes), ctx.rep)


@scenario(env='x32', quick=60, thorough=600)
def arrays(ctx):
  """Ranks, dtypes and shapes that are refused."""
  r = ctx.rng
  which = ctx.cycle(['agc', 'losses', 'shapes', 'counter', 'measure', 'apply', 'trees'])
  ctx.describe(what=which)
  a = jnp.asarray(r.normal(size=(3, 4)), F)
  i = jnp.asarray(r.integers(0, 3, size=(3, 4)))
  if which == 'agc':
    opt = optax.adaptive_grad_clip(.1)
    for rank in range(0, 7):
      x = jnp.asarray(r.normal(size=(2,) * rank), F)
      tree = {'a': a, 'x': x}
      go = lambda: opt.update(tree, opt.init(tree), tree)
      if rank <= 4:
        accepted(ctx, go, f'parameter of rank {rank}')
      else:
        refused(ctx, go, f'parameter of rank {rank}', ValueError)
  elif which == 'losses':
    ints = {
        'l2': lambda x: optax.l2_loss(x, a), 'l2 alone': lambda x: optax.l2_loss(x),
        'huber': lambda x: optax.huber_loss(x, a), 'smooth': lambda x: optax.smooth_labels(x, .1),
        'sigmoid': lambda x: optax.sigmoid_binary_cross_entropy(x, a),
        'sigmoid labels': lambda x: optax.sigmoid_binary_cross_entropy(a, x),
        'softmax': lambda x: optax.softmax_cross_entropy(x, a),
        'softmax labels': lambda x: optax.softmax_cross_entropy(a, x),
        'cosine': lambda x: optax.cosine_similarity(x, a),
        'cosine targets': lambda x: optax.cosine_similarity(a, x),
        'distance': lambda x: optax.cosine_distance(x, a),
        'distance targets': lambda x: optax.cosine_distance(a, x),
    }
    for k, f in ints.items():
      refused(ctx, lambda: f(i), f'{k} of integers')
      refused(ctx, lambda: jax.jit(f)(i), f'{k} of integers, compiled')
      accepted(ctx, lambda: f(jnp.abs(a)), f'{k} of floats')
  elif which == 'shapes':
    two = {'sigmoid': optax.sigmoid_binary_cross_entropy,
           'softmax': optax.softmax_cross_entropy,
           'cosine': optax.cosine_similarity, 'distance': optax.cosine_distance}
    for k, f in two.items():
      for bad in ((3, 3), (4, 4), (5,), (2, 1), (2, 3, 5)):
        x = jnp.asarray(r.normal(size=bad), F)
        refused(ctx, lambda: f(x, a), f'{k} of {bad} and (3, 4)')
        refused(ctx, lambda: f(a, x), f'{k} of (3, 4) and {bad}')
      accepted(ctx, lambda: f(a, a), f'{k} of equal shapes')
  elif which == 'counter':
    from optax._src import numerics
    for dt in (np.float32, np.float16, jnp.bfloat16, np.bool_):
      refused(ctx, lambda: numerics.safe_int32_increment(jnp.asarray(1, dt)),
              f'counter of {np.dtype(dt).name}')
    accepted(ctx, lambda: numerics.safe_int32_increment(jnp.asarray(3, jnp.int32)), 'int32')
  elif which == 'measure':
    key = jax.random.PRNGKey(int(r.integers(99)))
    ps = (jnp.zeros(2, F), jnp.zeros(2, F))
    f = lambda x: jnp.sum(x ** 2)
    refused(ctx, lambda: optax.measure_valued_jacobians(
        f, ps, lambda *q: optax.multi_normal(*q), key, 4, True),
            'another distribution', ValueError)
    accepted(ctx, lambda: optax.measure_valued_jacobians(
        f, ps, optax.multi_normal, key, 4, True), 'the normal distribution')
  elif which == 'apply':
    accepted(ctx, lambda: optax.global_norm({'a': a}), 'global norm')
    refused(ctx, lambda: optax.apply_updates({'a': a}, {'b': a}), 'updates of other names')
    refused(ctx, lambda: optax.incremental_update({'a': a}, {'b': a}, .5),
            'average of other names')
    refused(ctx, lambda: optax.periodic_update({'a': a}, {'b': a}, 1, 1),
            'copy of other names')
    refused(ctx, lambda: optax.apply_updates([a, a], [a]), 'too few updates')
    refused(ctx, lambda: optax.apply_updates([a], [a, a]), 'too many updates')
    accepted(ctx, lambda: optax.apply_updates([a], [a]), 'apply')
  else:
    for k in ('scale_by_adam', 'trace', 'ema', 'scale_by_rss', 'scale_by_rms',
              'scale_by_stddev', 'scale_by_belief', 'scale_by_yogi', 'scale_by_radam',
              'scale_by_sm3', 'apply_every', 'multi_steps', 'adam', 'rmsprop',
              'adagrad', 'yogi'):
      e = catalog.CATALOG[k]
      opt = e.build(0)
      s = opt.init({'a': a, 'b': a})
      for bad in ({'a': a}, {'a': a, 'c': a}, [a, a], {'a': a, 'b': {'c': a}},
                  {'a': a, 'b': a, 'c': a}):
        refused(ctx, lambda: opt.update(bad, s, bad),
                f'{k}: gradients of another structure {sorted(bad) if isinstance(bad, dict) else "list"}')
      accepted(ctx, lambda: opt.update({'a': a, 'b': a}, s, {'a': a, 'b': a}), k)
  ctx.seen(which, ctx.rep)
