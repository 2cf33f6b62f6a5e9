"""C30: gradient estimators are unbiased."""
import math

import numpy as np

from mon import core, gauss, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Estimates from tens of thousands of samples are compared with the '
        'closed-form gradient of the expectation at 6.5 standard errors, for '
        'smooth, coupled and discontinuous functions in several dimensions, '
        'other distributions included; single-sample estimates of the score '
        'and pathwise estimators are compared with their defining formulas '
        'at the samples drawn; densities and samples of the Gaussian are '
        'checked against float64.')
ASSUMPTIONS = ['Integrands have finite variance under each estimator.']
MIN_EVALS = 800
MIN_DISTINCT = 250
MIN_COUNTERS = {'samples': 1000000}

EST = {
    'score': (optax.score_function_jacobians, {}, 40000),
    'pathwise': (optax.pathwise_jacobians, {}, 20000),
    'measure': (optax.measure_valued_jacobians, {}, 20000),
    'measure_uncoupled': (optax.measure_valued_jacobians, dict(coupling=False), 20000),
}


def _unbiased(ctx):
  name = ctx.cycle(EST)
  est, kw, n = EST[name]
  d = int(ctx.pick([1, 2, 3, 5, 9]))
  params, m, s = gauss.gaussian_params(ctx, d)
  forms = gauss.closed_forms(ctx, d, only_smooth=name == 'pathwise', near=(m, s))
  fname = ctx.cycle(forms, stride=4)
  f, _, gm, gs = forms[fname]
  key = jax.random.PRNGKey(int(ctx.rng.integers(2 ** 31)))
  ctx.describe(estimator=name, function=fname, d=d)
  call = lambda p, k: est(f, p, optax.multi_normal, k, n, **kw)
  call = jax.jit(call) if ctx.coin(.5) else call
  jm, js = call(params, key)
  ctx.ok(jm.shape == (n, d) and js.shape == (n, d), 'shape of the jacobians',
         got=(jm.shape, js.shape))
  ctx.finite([jm, js], 'jacobians')
  gauss.unbiased(ctx, jm, gm(m, s), f'{name} {fname} mean')
  gauss.unbiased(ctx, js, gs(m, s), f'{name} {fname} log std')
  # Rows are independent draws: neighbours must not be correlated or repeat.
  for j in (np.asarray(jm, np.float64), np.asarray(js, np.float64)):
    z = j - j.mean(0)
    sd = z.std(0)
    if np.all(sd > 1e-6 * (1 + np.abs(j.mean(0)))):
      r = (z[1:] * z[:-1]).mean(0) / sd ** 2
      kur = (z ** 4).mean(0) / sd ** 4
      ctx.ok(np.all(np.abs(r) <= 8 * np.sqrt(kur / n)), 'neighbouring rows', got=r)
  again = call(params, key)
  ctx.same(list(again), [jm, js], 'same key again')
  if fname != 'step' and not (name == 'pathwise' and fname == 'linear'):
    other = call(params, jax.random.split(key)[0])
    ctx.ok(not np.array_equal(np.asarray(other[0]), np.asarray(again[0])) or
           np.asarray(jm).std() < 1e-6, 'another key gives other samples')


@scenario(env='x32', quick=48, thorough=800)
def unbiased(ctx):
  _unbiased(ctx)


@scenario(env='x64', quick=32, thorough=400)
def unbiased64(ctx):
  _unbiased(ctx)


@scenario(env='x32', quick=24, thorough=300)
def dimensions(ctx):
  """Any number of dimensions, with little noise from the others."""
  name = ctx.cycle(['measure', 'measure_uncoupled', 'measure', 'score', 'pathwise'])
  d = int(ctx.pick([4, 6, 7, 8, 10, 13, 16, 24, 33]))
  est, kw, n = EST[name]
  params, m, s = gauss.gaussian_params(ctx, d)
  a, b = ctx.rng.normal(size=d), ctx.rng.normal(size=d) * .3
  ja, jb = jnp.asarray(a, F), jnp.asarray(b, F)
  if name == 'score':
    # Few dimensions matter: the noise of this estimator grows with them.
    a, b = (v * (np.arange(d) == d - 1) for v in (a, b))
    ja, jb = jnp.asarray(a, F), jnp.asarray(b, F)
  f = lambda x: jnp.sum(ja * x ** 2 + jb * x ** 3)
  ctx.describe(estimator=name, d=d)
  jm, js = est(f, params, optax.multi_normal,
               jax.random.PRNGKey(int(ctx.rng.integers(2 ** 31))), n, **kw)
  ctx.ok(jm.shape == (n, d) and js.shape == (n, d), 'shape of the jacobians',
         got=(jm.shape, js.shape))
  gauss.unbiased(ctx, jm, 2 * a * m + 3 * b * (m ** 2 + s ** 2), f'{name} mean, {d}')
  gauss.unbiased(ctx, js, (2 * a + 6 * b * m) * s ** 2, f'{name} log std, {d}')


def _formulas(ctx, rtol):
  """Row i of the estimate is the formula at sample i."""
  name = ctx.cycle(['score', 'pathwise'])
  d = int(ctx.pick([1, 2, 4, 12]))
  n = int(ctx.pick([1, 7, 50]))
  forms = gauss.closed_forms(ctx, d)
  fname = ctx.pick(forms)
  f = forms[fname][0]
  params, m, s = gauss.gaussian_params(ctx, d)
  key = jax.random.PRNGKey(int(ctx.rng.integers(2 ** 31)))
  ctx.describe(estimator=name, function=fname, d=d, n=n)
  x = np.asarray(optax.multi_normal(*params).sample((n,), seed=key), np.float64)
  ctx.ok(x.shape == (n, d), 'shape of the samples', got=x.shape)
  jm, js = EST[name][0](f, params, optax.multi_normal, key, n)
  e = (x - m) / s
  if name == 'score':
    fx = np.asarray(jax.vmap(f)(jnp.asarray(x, F)), np.float64)[:, None]
    wm, ws = fx * e / s, fx * (e ** 2 - 1)
    sc = np.abs(fx) * (1 + e ** 2) / s
  else:
    g = np.asarray(jax.vmap(jax.grad(f))(jnp.asarray(x, F)), np.float64)
    wm, ws = g, g * e * s
    sc = np.abs(g).max() + 1e-3
  ctx.close(jm, wm, 'rows for the mean', rtol=rtol, scale=sc)
  ctx.close(js, ws, 'rows for the log std', rtol=rtol, scale=sc)
  ctx.count('samples', n)


@scenario(env='x64', quick=40, thorough=400)
def formulas(ctx):
  _formulas(ctx, 1e-9)


@scenario(env='x32', quick=20, thorough=200)
def formulas32(ctx):
  _formulas(ctx, 1e-3)


class Bernoulli:
  def __init__(self, logits):
    self.logits = logits

  def sample(self, shape, seed):
    u = jax.random.uniform(seed, shape + self.logits.shape)
    return (u < jax.nn.sigmoid(self.logits)).astype(F)

  def log_prob(self, x):
    l = self.logits
    return jnp.sum(x * jax.nn.log_sigmoid(l) + (1 - x) * jax.nn.log_sigmoid(-l), -1)


class Logistic:
  def __init__(self, loc, log_scale):
    self.loc, self.log_scale = loc, log_scale

  def sample(self, shape, seed):
    return self.loc + jnp.exp(self.log_scale) * jax.random.logistic(
        seed, shape + self.loc.shape)

  def log_prob(self, x):
    z = (x - self.loc) * jnp.exp(-self.log_scale)
    return jnp.sum(-z - 2 * jax.nn.softplus(-z) - self.log_scale, -1)


@scenario(env='x64', quick=16, thorough=200)
def others(ctx):
  """Distributions of the user's own."""
  d = int(ctx.pick([1, 2, 3]))
  key = jax.random.PRNGKey(int(ctx.rng.integers(2 ** 31)))
  which = ctx.cycle(['bernoulli', 'logistic score', 'logistic pathwise'])
  ctx.describe(which=which, d=d)
  a, b = ctx.rng.normal(size=d), float(ctx.rng.normal())
  if which == 'bernoulli':
    l = ctx.rng.normal(size=d)
    p = 1 / (1 + np.exp(-l))
    f = lambda x: jnp.asarray(a) @ x + b * x[0] * x[-1]
    q = p * (1 - p)
    truth = a * q
    if d == 1:
      truth = truth + b * q
    else:
      truth[0] += b * q[0] * p[-1]
      truth[-1] += b * q[-1] * p[0]
    (j,) = optax.score_function_jacobians(f, (jnp.asarray(l),), Bernoulli, key, 30000)
    gauss.unbiased(ctx, j, truth, 'bernoulli')
  else:
    m, s = ctx.rng.normal(size=d), np.exp(ctx.rng.uniform(-1, 0, size=d))
    f = lambda x: jnp.asarray(a) @ x ** 2
    est = (optax.score_function_jacobians if which.endswith('score')
           else optax.pathwise_jacobians)
    jm, js = est(f, (jnp.asarray(m), jnp.asarray(np.log(s))), Logistic, key, 30000)
    gauss.unbiased(ctx, jm, 2 * a * m, which + ' loc')
    gauss.unbiased(ctx, js, a * 2 * s ** 2 * math.pi ** 2 / 3, which + ' log scale')


def _normal(ctx, rtol):
  d = int(ctx.pick([1, 2, 3, 6]))
  # Shapes of location and scale; the parameters broadcast.
  sm, ss = ctx.pick([((d,), (d,)), ((d,), (d,)), ((d,), (1,)), ((d,), ()), ((), (d,)),
                     ((1,), (d,)), ((2, d), (d,)), ((d,), (2, d)), ((), ())])
  full = np.broadcast_shapes(sm, ss)
  m = np.asarray(ctx.rng.normal(size=sm) * 3, F)
  ls = np.asarray(ctx.rng.uniform(-3, 2, size=ss), F)
  dist = optax.multi_normal(jnp.asarray(m), jnp.asarray(ls))
  M = np.broadcast_to(m.astype(np.float64), full)
  S = np.broadcast_to(np.exp(ls.astype(np.float64)), full)
  axes = tuple(range(-len(full), 0))
  ctx.describe(loc=sm, scale=ss)
  shape = ctx.pick([(), (5,), (2, 3)])
  x = np.asarray(ctx.rng.normal(size=shape + full) * 4, F)
  z = (x.astype(np.float64) - M) / S
  want = (-.5 * z ** 2 - np.log(S) - .5 * math.log(2 * math.pi)).sum(axes)
  ctx.close(dist.log_prob(jnp.asarray(x)), want, 'log density', rtol=rtol,
            scale=(z ** 2 + np.abs(np.log(S)) + 1).sum(axes))
  n = 20000
  key = jax.random.PRNGKey(int(ctx.rng.integers(2 ** 31)))
  y = np.asarray(dist.sample((n,), seed=key), np.float64)
  ctx.ok(y.shape == (n,) + full, 'shape of samples', got=y.shape)
  e = (y - M) / S
  ctx.count('samples', n)
  ctx.ok(np.all(np.abs(e.mean(0)) <= 6.5 / math.sqrt(n)), 'mean of samples', got=e.mean(0))
  ctx.ok(np.all(np.abs((e ** 2).mean(0) - 1) <= 6.5 * math.sqrt(2 / n)),
         'variance of samples', got=(e ** 2).mean(0))
  ctx.ok(np.all(np.abs((e ** 4).mean(0) - 3) <= 6.5 * math.sqrt(96 / n) + .01),
         'fourth moment of samples', got=(e ** 4).mean(0))
  flat = e.reshape(n, -1)
  c = flat.T @ flat / n
  ctx.ok(np.all(np.abs(c - np.diag(np.diag(c))) <= 7 / math.sqrt(n)),
         'independence of dimensions', got=c)
  ctx.same(dist.params, [jnp.asarray(m), jnp.asarray(ls)], 'params')
  ctx.same(dist.log_scale, jnp.asarray(ls), 'log scale')


@scenario(env='x64', quick=20, thorough=200)
def normal(ctx):
  _normal(ctx, 1e-10)


@scenario(env='x32', quick=10, thorough=100)
def normal32(ctx):
  _normal(ctx, 1e-4)
