"""C37: every optimiser solves convex problems end to end."""
import contextlib
import io
import os

import numpy as np

from mon import core, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Whole training loops (loss, gradients, transformation, schedule, '
        'apply_updates) run to the end on random convex problems whose '
        'solution is computed independently; a monitor checks the distance to '
        'the solution, descent where the theory promises it, and that the '
        'trajectory stays finite.')
ASSUMPTIONS = ['Problems are well conditioned (below 10), and step sizes are the '
               'usual ones decayed to zero, so that the margin to the threshold '
               'is at least a factor of five on the unchanged library.']
MIN_EVALS = 450
MIN_DISTINCT = 200
MIN_COUNTERS = {'training steps': 60000, 'solved': 120}

N = 900


def _cos(lr):
  return optax.cosine_decay_schedule(lr, N)


def _exp(lr):
  return optax.exponential_decay(lr, 100, .4)


def _bits(tree):
  return tree_map(lambda x: x.ndim == 1, tree)


# name: (factory, tolerance on the distance, fixed point: plain | ridge | nonneg)
OPT = {
    'sgd': (lambda: optax.sgd(.2), 1e-6, 'plain'),
    'momentum': (lambda: optax.sgd(.05, .9), 1e-6, 'plain'),
    'nesterov': (lambda: optax.sgd(.05, .9, nesterov=True), 1e-6, 'plain'),
    'sgd_exp': (lambda: optax.sgd(optax.exponential_decay(.3, 300, .7)), 1e-6, 'plain'),
    'sgd_warm': (lambda: optax.sgd(optax.warmup_cosine_decay_schedule(
        0., .3, 50, N)), 1e-6, 'plain'),
    'sgd_cycle': (lambda: optax.sgd(optax.cosine_onecycle_schedule(N, .3)), 1e-6, 'plain'),
    'sgd_restart': (lambda: optax.sgd(optax.sgdr_schedule([dict(
        init_value=.1, peak_value=.3, warmup_steps=20, decay_steps=N // 3,
        end_value=.01)] * 3)), 1e-6, 'plain'),
    'ridge': (lambda: optax.chain(optax.add_decayed_weights(.5), optax.sgd(.2)), 1e-6, 'ridge'),
    'ridge_masked': (lambda: optax.chain(optax.masked(optax.add_decayed_weights(.5), lambda t: (
        tree_map(lambda x: True, t))), optax.sgd(.2)), 1e-6, 'ridge'),
    'nonneg': (lambda: optax.chain(optax.sgd(.2), optax.keep_params_nonnegative()),
               1e-6, 'nonneg'),
    'adam': (lambda: optax.adam(_cos(.1)), 1e-4, 'plain'),
    'adam_exp': (lambda: optax.adam(_exp(.2)), 1e-4, 'plain'),
    'adamw_zero': (lambda: optax.adamw(_cos(.1), weight_decay=0.), 1e-4, 'plain'),
    'adabelief': (lambda: optax.adabelief(_cos(.1)), 1e-4, 'plain'),
    'radam': (lambda: optax.radam(_cos(.1), b2=.99), 1e-4, 'plain'),
    'yogi': (lambda: optax.yogi(_cos(.1)), 1e-1, 'plain'),
    'rmsprop': (lambda: optax.rmsprop(_cos(.1), .99), 1e-4, 'plain'),
    'rmsprop_momentum': (lambda: optax.rmsprop(_cos(.02), .99, momentum=.8, nesterov=True),
                         1e-4, 'plain'),
    'rmsprop_centered': (lambda: optax.rmsprop(_cos(.05), .99, centered=True,
                                               initial_scale=1.), 1e-4, 'plain'),
    'adagrad': (lambda: optax.adagrad(1.), 1e-4, 'plain'),
    'sm3': (lambda: optax.sm3(1.), 1e-4, 'plain'),
    'lamb': (lambda: optax.lamb(_cos(.1)), 5e-2, 'plain'),
    'fromage': (lambda: optax.chain(optax.fromage(.03)), .5, 'plain'),
    'noisy_sgd': (lambda: optax.noisy_sgd(_cos(.1), 1e-4, .55, 3), 1e-1, 'plain'),
    'ema': (lambda: optax.chain(optax.ema(.8), optax.scale(-.1)), 1e-6, 'plain'),
    'clip': (lambda: optax.chain(optax.clip(.5), optax.sgd(.2)), 1e-6, 'plain'),
    'global': (lambda: optax.chain(optax.clip_by_global_norm(.5), optax.sgd(.2)), 1e-5, 'plain'),
    'agc': (lambda: optax.chain(optax.adaptive_grad_clip(.3, .1), optax.sgd(.2)), 1e-5, 'plain'),
    'multi': (lambda: optax.MultiSteps(
        optax.sgd(.3), 3).gradient_transformation(), 1e-6, 'plain'),
    'multi_sum': (lambda: optax.MultiSteps(
        optax.sgd(.1), 2, use_grad_mean=False).gradient_transformation(), 1e-6, 'plain'),
    'multi_adam': (lambda: optax.MultiSteps(
        optax.adam(optax.cosine_decay_schedule(.1, N // 2)), 2).gradient_transformation(),
                   1e-3, 'plain'),
    'guarded': (lambda: optax.apply_if_finite(optax.adam(_cos(.1)), 5), 1e-3, 'plain'),
    'zero_nans': (lambda: optax.chain(optax.zero_nans(), optax.sgd(.2)), 1e-6, 'plain'),
    'flatten': (lambda: optax.flatten(optax.adam(_cos(.1))), 1e-4, 'plain'),
    'inject': (lambda: optax.inject_hyperparams(optax.adam)(
        learning_rate=_cos(.1), b1=.9), 1e-4, 'plain'),
    'inject_decay': (lambda: optax.inject_hyperparams(optax.sgd)(
        learning_rate=.05, momentum=optax.linear_schedule(.5, .9, 50)), 1e-6, 'plain'),
    'maybe': (lambda: optax.chain(optax.sgd(.1), optax.maybe_update(
        optax.scale(2.), lambda s: s % 2 == 0)), 1e-6, 'plain'),
    'every': (lambda: optax.chain(optax.apply_every(2), optax.sgd(.1)), 1e-6, 'plain'),
    'split': (lambda: optax.chain(
        optax.masked(optax.adam(_cos(.1)), _bits),
        optax.masked(optax.sgd(.2), lambda t: tree_map(lambda b: not b, _bits(t)))),
              1e-4, 'plain'),
    'lookahead': (lambda: optax.lookahead(optax.sgd(.2), 5, .5), 1e-6, 'plain'),
    'lookahead_adam': (lambda: optax.lookahead(optax.adam(_cos(.1)), 4, .8), 1e-3, 'plain'),
    'deep': (lambda: optax.chain(
        optax.zero_nans(), optax.clip_by_global_norm(5.), optax.scale_by_adam(),
        optax.scale_by_schedule(_cos(.1)), optax.scale(-1.)), 1e-4, 'plain'),
}
MONOTONE = ('sgd', 'sgd_exp', 'sgd_warm', 'sgd_cycle', 'ridge', 'clip', 'global', 'agc',
            'multi', 'multi_sum', 'every', 'maybe', 'nonneg')


def _problem(ctx, spd_diag):
  """Leafwise quadratics 1/2 (p - t)' A (p - t), eigenvalues in [.3, 2]."""
  r = ctx.rng
  kind = ctx.pick(['vector', 'matrix_bias', 'nested', 'scalar', 'conv', 'one', 'custom'])
  p = work.params(ctx, kind, style=ctx.pick(['normal', 'positive']))
  t = tree_map(lambda x: r.choice([-1, 1], size=x.shape) * r.uniform(.5, 2., size=x.shape), p)

  def spd(x):
    n = max(1, x.size)
    q = np.eye(n) if spd_diag else np.linalg.qr(r.normal(size=(n, n)))[0]
    return (q * r.uniform(.3, 2., size=n)) @ q.T
  return kind, p, t, tree_map(spd, p)


@scenario(env='x64', quick=84, thorough=840)
def quadratics(ctx):
  name = ctx.cycle(OPT)
  make, tol, point = OPT[name]
  kind, p, t, A = _problem(ctx, point == 'nonneg')
  if point == 'nonneg':
    p = tree_map(jnp.abs, p)
  if name in ('lamb', 'fromage'):  # relative steps do not cross zero
    p = tree_map(lambda x: jnp.asarray(x * ctx.rng.uniform(.3, 3., size=x.shape)), t)
  w = .5 if point == 'ridge' else 0.

  def solve(a, b):
    v = b.reshape(-1)
    v = np.linalg.solve(a + w * np.eye(len(v)), a @ v).reshape(b.shape)
    return np.maximum(v, 0.) if point == 'nonneg' else v
  sol = tree_map(solve, A, t)
  noisy = name in ('guarded', 'zero_nans')
  bad = jnp.asarray(ctx.rng.random(N) < .1) if noisy else jnp.zeros(N, bool)
  ctx.describe(optimiser=name, tree=kind, tol=tol)
  opt = make()
  look = name.startswith('lookahead')

  def loss(q):
    e = tree_map(lambda x, y: (x - y).reshape(-1), q, t)
    fit = sum(.5 * x @ (jnp.asarray(a) @ x) for a, x in zip(tree_leaves(A), tree_leaves(e)))
    return fit, fit + .5 * w * sum(jnp.sum(x * x) for x in tree_leaves(q))

  @jax.jit
  def train(p):
    q = optax.LookaheadParams.init_synced(p) if look else p

    def body(c, b):
      q, s = c
      at = q.fast if look else q
      g, full = jax.grad(loss, has_aux=True)(at)
      g = tree_map(lambda x: jnp.where(b, jnp.nan, x), g)
      u, s = opt.update(g, s, q)
      return (optax.apply_updates(q, u), s), full
    (q, _), hist = jax.lax.scan(body, (q, opt.init(q)), bad)
    return (q.slow if look else q), hist
  q, hist = train(p)
  hist = np.asarray(hist)
  ctx.count('training steps', N)
  ctx.finite([q, hist], 'trajectory')
  ctx._observe(name, q)
  err = max(float(np.max(np.abs(np.asarray(x) - y), initial=0.)) for x, y in zip(
      tree_leaves(q), tree_leaves(sol)))
  if ctx.ok(err <= tol, f'{name} did not reach the solution', distance=err, got=q, want=sol):
    ctx.count('solved')
  ctx.sample(optimiser=name, distance=err, tolerance=tol)
  if name in MONOTONE:
    ctx.ok(np.all(np.diff(hist) <= 1e-12 * (1 + hist[:-1])), f'{name}: the loss went up',
           worst=float(np.max(np.diff(hist))))


LOSSES = {
    'least_squares': lambda z, y: jnp.mean(optax.l2_loss(z[:, 0], y[:, 0])),
    'huber': lambda z, y: jnp.mean(optax.huber_loss(z[:, 0], y[:, 0], .5)),
    'logistic': lambda z, y: jnp.mean(optax.sigmoid_binary_cross_entropy(
        z, jnp.where(y > 0, .9, .1))),
    'softmax': lambda z, y: jnp.mean(optax.softmax_cross_entropy(
        z, optax.smooth_labels(jax.nn.one_hot(jnp.argmax(y, -1), y.shape[-1]), .2))),
}
TRAIN = {
    'sgd': lambda: optax.sgd(_cos(.5), .9),
    'adam': lambda: optax.adam(_cos(.1)),
    'rmsprop': lambda: optax.rmsprop(_cos(.05), .99),
    'adagrad': lambda: optax.adagrad(.5),
    'multi': lambda: optax.MultiSteps(optax.sgd(.5, .9), 2).gradient_transformation(),
    'clipped': lambda: optax.chain(optax.clip_by_global_norm(1.), optax.adam(_cos(.1))),
    'lookahead': lambda: optax.lookahead(optax.sgd(.5, .9), 5, .5),
}


@scenario(env='x64', quick=28, thorough=280)
def models(ctx):
  """Linear models under every loss end where the gradient vanishes."""
  lname = ctx.cycle(LOSSES)
  oname = ctx.cycle(TRAIN, stride=len(LOSSES))
  r = ctx.rng
  n, d, k = 24, 3, 3
  X = np.linalg.qr(r.normal(size=(n, d)))[0] * np.sqrt(n)
  Y = X @ r.normal(size=(d, k)) + .3 * r.normal(size=(n, k))
  loss = lambda q: LOSSES[lname](jnp.asarray(X) @ q['w'] + q['b'], jnp.asarray(Y)) + .05 * sum(
      jnp.sum(x * x) for x in tree_leaves(q))
  p = {'w': jnp.asarray(r.normal(size=(d, k))), 'b': jnp.zeros(k)}
  opt = TRAIN[oname]()
  look = oname == 'lookahead'
  ctx.describe(loss=lname, optimiser=oname)

  @jax.jit
  def train(p):
    q = optax.LookaheadParams.init_synced(p) if look else p

    def body(c, _):
      q, s = c
      v, g = jax.value_and_grad(loss)(q.fast if look else q)
      u, s = opt.update(g, s, q)
      return (optax.apply_updates(q, u), s), v
    (q, _), h = jax.lax.scan(body, (q, opt.init(q)), None, length=N)
    q = q.slow if look else q
    return q, h, jax.grad(loss)(q)
  q, h, g = train(p)
  ctx.count('training steps', N)
  ctx.finite([q, h], 'trajectory')
  ctx._observe(lname + oname, q)
  size = max(float(jnp.max(jnp.abs(x))) for x in tree_leaves(g))
  ctx.sample(loss=lname, optimiser=oname, gradient=size)
  if ctx.ok(size <= 1e-5, f'{oname} on {lname}: gradient left', size=size):
    ctx.count('solved')
  ctx.ok(float(h[-1]) <= float(h[0]) + 1e-12, f'{oname} on {lname}: the loss went up',
         first=float(h[0]), last=float(h[-1]))


@scenario(env='x64', quick=24, thorough=240)
def private(ctx):
  """Per-example training without noise solves realisable regression."""
  r = ctx.rng
  n, d = 12, 3
  X = r.normal(size=(n, d))
  true = r.normal(size=d)
  y = X @ true
  clip = ctx.pick([.5, 1., 10.])
  mom = ctx.pick([None, .5])
  opt = optax.dpsgd(optax.cosine_decay_schedule(.15, 3 * N), clip, 0., 7, mom)
  ex = jax.vmap(jax.grad(lambda q, x, t: optax.l2_loss(x @ q['w'], t)), (None, 0, 0))
  p = {'w': jnp.zeros(d)}
  ctx.describe(clip=clip, momentum=mom)

  @jax.jit
  def train(p):
    def body(c, _):
      q, s = c
      u, s = opt.update(ex(q, jnp.asarray(X), jnp.asarray(y)), s, q)
      q = optax.apply_updates(q, u)
      return (q, s), jnp.sum((q['w'] - true) ** 2)
    return jax.lax.scan(body, (p, opt.init(p)), None, length=3 * N)
  (q, _), h = train(p)
  ctx.count('training steps', 3 * N)
  ctx.finite([q, h], 'trajectory')
  # Clipped gradients of a realisable problem still point to the solution.
  if ctx.ok(float(h[-1]) <= 1e-3 * max(1., float(h[0])), 'private training did not converge',
            first=float(h[0]), last=float(h[-1])):
    ctx.count('solved')
  ctx.seen(clip, mom, ctx.rep)


def _example(name):
  """Loads a program of examples/ of the tree under test."""
  import importlib.util
  import sys
  import types
  if 'optax.examples' not in sys.modules:
    pkg = types.ModuleType('optax.examples')
    pkg.datasets = types.ModuleType('optax.examples.datasets')
    sys.modules.update({'optax.examples': pkg, 'optax.examples.datasets': pkg.datasets})
  key = 'example_' + name
  if key not in sys.modules:
    spec = importlib.util.spec_from_file_location(key, os.path.join(
        os.path.dirname(os.path.dirname(optax.__file__)), 'examples', name + '.py'))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    sys.modules[key] = m
  return sys.modules[key]


class _Data:
  """Stands in for a tensorflow dataset of labelled images."""

  def __init__(self, batches):
    self.batches = batches
    self.element_spec = {'label': batches[0]['label'], 'image': batches[0]['image']}

  def as_numpy_iterator(self):
    return iter(self.batches)


@scenario(env='x32', quick=6, thorough=60)
def examples(ctx):
  """The programs of examples/ train their models."""
  r = ctx.rng
  out = io.StringIO()
  if ctx.rep % 3 == 0:
    m = _example('haiku_example')
    with contextlib.redirect_stdout(out):
      m.main([])
    h = [float(l.split('=')[1]) for l in out.getvalue().splitlines() if l.startswith('Loss')]
    ctx.describe(program='haiku_example')
    ctx.ok(len(h) == 100, 'steps of haiku_example', got=len(h))
    ctx.ok(np.all(np.isfinite(h)) and h[-1] <= .2 * h[0], 'haiku_example did not train',
           first=h[0], last=h[-1])
    ctx._observe('haiku', np.asarray(h))
    ctx.count('training steps', len(h))
    ctx.count('solved')
    return
  m = _example('lookahead_mnist')
  classes, batch = int(r.integers(3, 6)), 20
  centres = np.linalg.qr(r.normal(size=(12, 12)))[0][:classes] * 4.

  def data(n):
    bs = []
    for _ in range(n):
      y = r.integers(0, classes, size=batch)
      x = centres[y] + .3 * r.normal(size=(batch, 12))
      bs.append({'image': x.reshape(batch, 3, 4, 1).astype('float32'),
                 'label': np.eye(classes, dtype='float32')[y]})
    return _Data(bs)
  train, test = data(30), data(3)

  class Split:
    TRAIN, TEST = 'train', 'test'
  m.datasets.Split = Split
  m.datasets.load_image_dataset = lambda name, size, split='train': (
      test if split == 'test' else train)
  flags = dict(hidden_dims=[int(r.integers(4, 20)) for _ in range(int(r.integers(1, 3)))],
               learning_rate=.01, sync_period=ctx.pick([2, 5, 7]),
               slow_step_size=ctx.pick([.5, .8, 1.]), n_epochs=6, batch_size=batch,
               seed=int(r.integers(100)))
  m.FLAGS(['program'], known_only=True)
  for k, v in flags.items():
    setattr(m.FLAGS, k, v)
  ctx.describe(program='lookahead_mnist', **flags)
  with contextlib.redirect_stdout(out):
    m.main([])
  acc = [float(l.split(':')[-1]) for l in out.getvalue().splitlines() if l.startswith('Epoch')]
  ctx.ok(len(acc) == 6, 'epochs of lookahead_mnist', got=out.getvalue()[:500])
  if ctx.ok(acc and acc[-1] >= .8, 'lookahead_mnist did not learn', accuracies=acc):
    ctx.count('solved')
  ctx._observe('mnist', np.asarray(acc + [flags['seed']]))
  ctx.sample(accuracies=acc)
  ctx.count('training steps', 180)


ESTIMATE = {
    'score': lambda f, p, k: optax.score_function_jacobians(f, p, optax.multi_normal, k, 256),
    'pathwise': lambda f, p, k: optax.pathwise_jacobians(f, p, optax.multi_normal, k, 16),
    'measure': lambda f, p, k: optax.measure_valued_jacobians(
        f, p, optax.multi_normal, k, 16, False),
    'measure_coupled': lambda f, p, k: optax.measure_valued_jacobians(
        f, p, optax.multi_normal, k, 16, True),
    'controlled': lambda f, p, k: optax.control_variates_jacobians(
        f, lambda g: optax.control_delta_method(g), optax.pathwise_jacobians, p,
        optax.multi_normal, k, 16, None, False)[0],
}


@scenario(env='x64', quick=10, thorough=100)
def variational(ctx):
  """The README's loop: a Gaussian is fitted by estimated gradients."""
  name = ctx.cycle(ESTIMATE)
  oname = ctx.pick(['sgd', 'adam', 'sgd_average'])
  r = ctx.rng
  d = int(r.integers(1, 4))
  c = r.uniform(.5, 2., size=d)
  t = r.uniform(-1.5, 1.5, size=d)
  n = 600
  # E f - entropy is least at mean t and standard deviation c ** -.5.
  f = lambda x: .5 * jnp.sum(jnp.asarray(c) * (x - t) ** 2)
  lr = optax.cosine_decay_schedule(.1, n)
  opt = {'sgd': optax.sgd(lr), 'adam': optax.adam(lr),
         'sgd_average': optax.chain(optax.ema(.8), optax.sgd(lr))}[oname]
  p = [jnp.zeros(d), jnp.zeros(d)]
  ctx.describe(estimator=name, optimiser=oname, dims=d)

  @jax.jit
  def train(p, keys):
    def body(s, k):
      p, s = s
      jac = ESTIMATE[name](f, p, k)
      g = [jnp.mean(j, 0) for j in jac]
      g[1] = g[1] - 1.  # the entropy's gradient
      u, s = opt.update(g, s, p)
      return (optax.apply_updates(p, u), s), None
    return jax.lax.scan(body, (p, opt.init(p)), keys)[0]
  (q, _) = train(p, jax.random.split(jax.random.PRNGKey(int(r.integers(1 << 30))), n))
  ctx.count('training steps', n)
  ctx.finite(q, 'fitted parameters')
  ctx._observe(name, q)
  err = max(float(jnp.max(jnp.abs(q[0] - t))), float(jnp.max(jnp.abs(q[1] + .5 * np.log(c)))))
  ctx.sample(estimator=name, optimiser=oname, distance=err)
  if ctx.ok(err <= .3, f'{oname} with {name} gradients missed the optimum', distance=err,
            got=q, mean=t, log_scale=-.5 * np.log(c)):
    ctx.count('solved')
