"""C31: control variates change the variance, not the expectation."""
import math

import numpy as np

from mon import core, gauss, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax
from optax._src import control_variates as cvs

RULE = ('The Taylor control variate, its closed-form expectation and the '
        'moving average are compared with float64 models over histories of '
        'states; assembled jacobians with their defining combination of '
        'separately evaluated parts; means over many keys with the true '
        'gradient; and coefficients with the variance-minimising ones.')
ASSUMPTIONS = ['The moving average sees the samples of its own step, as documented.']
MIN_EVALS = 1200
MIN_DISTINCT = 350
MIN_COUNTERS = {'estimates': 100000, 'states': 300, 'assembled': 40}

EST = {'score': optax.score_function_jacobians, 'pathwise': optax.pathwise_jacobians,
       'measure': optax.measure_valued_jacobians}


def key_of(ctx):
  return jax.random.PRNGKey(int(ctx.rng.integers(2 ** 31)))


@scenario(env='x64', quick=50, thorough=500)
def delta(ctx):
  """Second order expansion at the mean, and its expectation."""
  d = int(ctx.pick([1, 2, 3, 5]))
  forms = gauss.closed_forms(ctx, d)
  name = ctx.cycle(forms)
  f, ef, _, _ = forms[name]
  params, m, s = gauss.gaussian_params(ctx, d)
  cv, ecv, upd = optax.control_delta_method(f)
  ctx.describe(function=name, d=d)
  h = 1e-4
  g = np.asarray(jax.grad(f)(params[0]), np.float64)
  num = lambda x: float(f(jnp.asarray(x)))
  gn = np.array([(num(m + h * e) - num(m - h * e)) / (2 * h) for e in np.eye(d)])
  ctx.close(g, gn, 'harness gradient', rtol=1e-4, scale=1.)
  gr = jax.grad(f)
  H = np.array([(np.asarray(gr(jnp.asarray(m + h * e))) -
                 np.asarray(gr(jnp.asarray(m - h * e)))) / (2 * h) for e in np.eye(d)])
  for _ in range(4):
    x = ctx.rng.normal(size=d) * 2
    c = x - m
    want = num(m) + c @ g + .5 * c @ H @ c
    state = ctx.pick([None, (1., 2), 3.])
    ctx.close(cv(params, jnp.asarray(x), state), want, 'expansion', rtol=1e-6,
              scale=1 + (c ** 2).sum() * np.abs(H).max() + np.abs(c @ g))
    if name in ('linear', 'quadratic'):
      ctx.close(cv(params, jnp.asarray(x), state), num(x), 'exact for quadratics',
                rtol=1e-9, scale=1 + (x ** 2).sum() + (m ** 2).sum())
    ctx.count('states')
  ctx.close(ecv(params, None), num(m) + .5 * (np.diag(H) * s ** 2).sum(),
            'expectation of the expansion', rtol=1e-6, scale=1.)
  if name in ('linear', 'quadratic'):
    ctx.close(ecv(params, None), ef(m, s), 'true expectation', rtol=1e-9, scale=1.)
  st = ctx.pick([None, 5., (1, 2)])
  ctx.ok(upd(params, jnp.ones((3, d)), st) is st, 'state is left alone')
  # Expectation against samples.
  n = 20000
  x = optax.multi_normal(*params).sample((n,), seed=key_of(ctx))
  v = jax.vmap(lambda y: cv(params, y, None))(x)
  gauss.unbiased(ctx, v, float(ecv(params, None)), f'expansion {name}', count='estimates')


def _average(ctx, rtol):
  d = int(ctx.pick([1, 2, 4]))
  decay = float(ctx.pick([.99, .9, .5, 0., .999]))
  debias, heur = ctx.coin(), ctx.coin()
  f = lambda x: jnp.sum(x ** 2) + 1.
  kw = {}
  if not (decay == .99 and debias and heur and ctx.coin()):
    kw = dict(decay=decay, zero_debias=debias, use_decay_early_training_heuristic=heur)
  cv, ecv, upd = optax.moving_avg_baseline(f, **kw)
  ctx.describe(decay=decay, debias=debias, heuristic=heur)
  params, m, s = gauss.gaussian_params(ctx, d)
  upd_j = jax.jit(upd) if ctx.coin() else upd
  state = (jnp.zeros([], F), 0)
  want, num, den = 0., 0., 0.
  # Some histories carry on from a state saved late in training.
  first = int(ctx.pick([0, 0, 60, 90, 400, 998, 20000]))
  if first:
    want = float(np.asarray(ctx.rng.normal() * 10, F))
    state = (jnp.asarray(want, F), first)
  for i in range(first, first + 8):
    x = np.asarray(ctx.rng.normal(size=(int(ctx.pick([1, 4])), d)) * 3, F)
    state = upd_j(params, jnp.asarray(x), state)
    mean = ((x.astype(np.float64) ** 2).sum(1) + 1).mean()
    r = min(decay, (1. + i) / (10. + i)) if heur else decay
    step = 1 - r
    if debias:
      step /= 1 - r ** (i + 1)
    want = (1 - step) * want + step * mean
    ctx.close(state[0], want, f'average after {i}', rtol=rtol)
    ctx.ok(int(state[1]) == i + 1, 'counter', got=state[1], want=i + 1)
    y = jnp.asarray(ctx.rng.normal(size=d), F)
    ctx.close(cv(params, y, state), want, 'baseline', rtol=rtol)
    ctx.close(ecv(params, state), want, 'expected baseline', rtol=rtol)
    ctx.count('states')
    if not heur and not first:
      # Closed form of a debiased exponential average.
      num, den = decay * num + (1 - decay) * mean, decay * den + (1 - decay)
      ctx.close(state[0], num / den if debias else num, f'closed form after {i}',
                rtol=rtol * 10)


@scenario(env='x64', quick=40, thorough=400)
def average(ctx):
  _average(ctx, 1e-9)


@scenario(env='x32', quick=20, thorough=200)
def average32(ctx):
  _average(ctx, 1e-4)


def _case(ctx):
  d = int(ctx.pick([1, 2, 3]))
  forms = gauss.closed_forms(ctx, d)
  fname = ctx.pick(forms)
  return d, fname, forms[fname], gauss.gaussian_params(ctx, d)


@scenario(env='x64', quick=60, thorough=600)
def assembled(ctx):
  """The jacobians equal the documented combination of their parts."""
  d, fname, (f, _, _, _), (params, m, s) = _case(ctx)
  which = ctx.cycle(['delta', 'average'])
  ename = ctx.cycle(EST, stride=2)
  est = EST[ename]
  coeffs = ctx.coin()
  n, nc = int(ctx.pick([1, 5, 30])), int(ctx.pick([5, 20]))
  key = key_of(ctx)
  make = (optax.control_delta_method if which == 'delta' else
          (lambda g: optax.moving_avg_baseline(g, decay=.9)))
  state = None if which == 'delta' else (jnp.asarray(ctx.rng.normal()), int(ctx.pick([0, 3, 100])))
  ctx.describe(function=fname, variate=which, estimator=ename, coeffs=coeffs, n=n)
  kw = dict(control_variate_state=state, estimate_cv_coeffs=coeffs,
            estimate_cv_coeffs_num_samples=nc)
  if which == 'delta' and not coeffs and ctx.coin():
    kw = {}
  elif nc == 20 and ctx.coin():
    del kw['estimate_cv_coeffs_num_samples']
  jac, new = optax.control_variates_jacobians(
      f, make, est, params, optax.multi_normal, key, n, **kw)
  ctx.ok(all(j.shape == (n, d) for j in jac) and len(jac) == 2, 'shapes')
  cv, ecv, upd = make(f)
  x = optax.multi_normal(*params).sample((n,), seed=key)
  want_state = upd(params, x, state)
  if which == 'average':
    ctx.close(list(new), list(want_state), 'state was updated once', rtol=1e-9)
  else:
    ctx.ok(new is None, 'no state')
  c = [1., 1.]
  if coeffs:
    c = cvs.estimate_control_variate_coefficients(
        f, make, est, params, optax.multi_normal, key, nc, want_state)
    ctx.ok(all(np.shape(v) == () for v in c), 'coefficients are scalars')
  fj = est(f, params, optax.multi_normal, key, n)
  cj = est(lambda y: cv(params, y, want_state), params, optax.multi_normal, key, n)
  pg = jax.grad(lambda p: jnp.mean(jax.vmap(lambda y: cv(p, y, want_state))(x)))(params)
  eg = jax.grad(lambda p: ecv(p, want_state))(params)
  for i in range(2):
    a, b, p_, e = (np.asarray(q[i], np.float64) for q in (fj, cj, pg, eg))
    k = float(c[i])
    ctx.close(jac[i], a - k * (b + p_ - e), f'jacobian of parameter {i}', rtol=1e-7,
              scale=np.abs(a) + np.abs(k) * (np.abs(b) + np.abs(p_) + np.abs(e)))
  ctx.count('assembled')


@scenario(env='x64', quick=36, thorough=400)
def unbiased(ctx):
  """Means over many keys of few-sample estimates are the true gradient."""
  d, fname, (f, _, gm, gs), (params, m, s) = _case(ctx)
  ename = ctx.cycle(EST)
  coeffs = ctx.cycle([True, False], stride=3)
  n, keys = int(ctx.pick([2, 5])), 4000
  ctx.describe(function=fname, estimator=ename, coeffs=coeffs, n=n)

  def one(k):
    j, _ = optax.control_variates_jacobians(
        f, optax.control_delta_method, EST[ename], params, optax.multi_normal, k, n,
        estimate_cv_coeffs=coeffs, estimate_cv_coeffs_num_samples=6)
    return [jnp.mean(x, 0) for x in j]
  jm, js = jax.jit(jax.vmap(one))(jax.random.split(key_of(ctx), keys))
  gauss.unbiased(ctx, jm, gm(m, s), f'{ename} {fname} mean', count='estimates')
  gauss.unbiased(ctx, js, gs(m, s), f'{ename} {fname} log std', count='estimates')


@scenario(env='x64', quick=18, thorough=200)
def fixed_baseline(ctx):
  """A constant baseline (decay 1) leaves the score estimator unbiased and
  the others unchanged; the optimal one lowers its variance."""
  d, fname, (f, ef, gm, gs), (params, m, s) = _case(ctx)
  n = 20000
  ename = ctx.cycle(EST)
  key = key_of(ctx)
  b = float(ef(m, s)) + float(ctx.pick([0., 1., -3.]))
  make = lambda g: optax.moving_avg_baseline(
      g, decay=1., zero_debias=False, use_decay_early_training_heuristic=False)
  ctx.describe(function=fname, estimator=ename, baseline=b)
  jac, st = optax.control_variates_jacobians(
      f, make, EST[ename], params, optax.multi_normal, key, n,
      control_variate_state=(jnp.asarray(b), 0))
  ctx.close(st[0], b, 'baseline stays', rtol=1e-9)
  raw = EST[ename](f, params, optax.multi_normal, key, n)
  if ename == 'score':
    gauss.unbiased(ctx, jac[0], gm(m, s), f'baseline {fname} mean', count='estimates')
    gauss.unbiased(ctx, jac[1], gs(m, s), f'baseline {fname} log std', count='estimates')
  else:
    ctx.close(list(jac), list(raw), 'unaffected estimator', rtol=1e-8, scale=1.)
    ctx.count('estimates', n)


@scenario(env='x64', quick=24, thorough=240)
def exact(ctx):
  """For quadratics the Taylor variate removes all variance."""
  d = int(ctx.pick([1, 2, 3]))
  forms = gauss.closed_forms(ctx, d)
  f, _, gm, gs = forms[ctx.cycle(['linear', 'quadratic'])]
  ename = ctx.cycle(EST, stride=2)
  params, m, s = gauss.gaussian_params(ctx, d)
  ctx.describe(estimator=ename, d=d)
  n = 40
  jac, _ = optax.control_variates_jacobians(
      f, optax.control_delta_method, EST[ename], params, optax.multi_normal,
      key_of(ctx), n)
  x_dep = ename != 'measure'
  for j, t, what in zip(jac, (gm(m, s), gs(m, s)), ('mean', 'log std')):
    j = np.asarray(j, np.float64)
    # The part through the parameters is averaged over the samples.
    ctx.ok(np.all(j.std(0) <= 1e-6 * (1 + np.abs(t))), f'variance for the {what}',
           got=j.std(0))
    ctx.count('estimates', n)


@scenario(env='x64', quick=24, thorough=240)
def coefficients(ctx):
  """Close to the variance-minimising coefficient, with many samples."""
  d, fname, (f, ef, _, _), (params, m, s) = _case(ctx)
  which = ctx.cycle(['delta', 'average'])
  est = optax.score_function_jacobians
  n = 60000
  key = key_of(ctx)
  v = float(ef(m, s)) + float(ctx.pick([1., -2., 3.]))
  eps = float(ctx.pick([1e-3, 1e-3, .5]))
  if which == 'delta':
    make, state = optax.control_delta_method, None
    cv = optax.control_delta_method(f)[0]
    h = lambda x: cv(params, x, None)
  else:
    make, state = optax.moving_avg_baseline, (jnp.asarray(v), 5)
    h = lambda x: jnp.asarray(v)
  ctx.describe(function=fname, variate=which, eps=eps)
  kw = {} if eps == 1e-3 else dict(eps=eps)
  c = cvs.estimate_control_variate_coefficients(
      f, make, est, params, optax.multi_normal, key, n, state, **kw)
  # An independent sample of both jacobians, from the formulas.
  z = ctx.rng.normal(size=(n, d))
  x = jnp.asarray(m + s * z)
  fx = np.asarray(jax.vmap(f)(x), np.float64)[:, None]
  hx = np.asarray(jax.vmap(h)(x), np.float64)[:, None] * np.ones((n, 1))
  for k, score in zip(c, (z / s, z ** 2 - 1)):
    A, B = fx * score, hx * score
    A, B = A - A.mean(0), B - B.mean(0)
    cov, var = (A * B).sum(1), (B * B).sum(1)
    want = cov.mean() / (var.mean() + eps)
    # Delta-method error of the ratio, for both samples.
    r = (cov - want * (var + eps))
    se = r.std() / math.sqrt(n) / (var.mean() + eps)
    tail = np.abs(r).max() / n / (var.mean() + eps)
    ctx.ok(abs(float(k) - want) <= 12 * se + 6 * tail + 1e-5, 'coefficient', got=k, want=want,
           se=se)
    ctx.count('estimates', n)


@scenario(env='x64', quick=12, thorough=120)
def reduction(ctx):
  """A baseline with estimated coefficients removes the variance an offset
  adds, from the very first call on."""
  d = int(ctx.pick([1, 2, 3]))
  params, m, s = gauss.gaussian_params(ctx, d)
  off = float(ctx.pick([20., -20., 50.]))
  f = lambda x: jnp.sum(jnp.sin(x)) + off
  key = key_of(ctx)
  n = 2000
  ctx.describe(d=d, offset=off)
  raw = optax.score_function_jacobians(f, params, optax.multi_normal, key, n)
  state = (jnp.zeros([]), 0)
  for t in range(3):
    jac, state = optax.control_variates_jacobians(
        f, optax.moving_avg_baseline, optax.score_function_jacobians, params,
        optax.multi_normal, jax.random.fold_in(key, t), n,
        control_variate_state=state, estimate_cv_coeffs=True,
        estimate_cv_coeffs_num_samples=500)
    for a, b in zip(jac, raw):
      va, vb = np.asarray(a).var(0).sum(), np.asarray(b).var(0).sum()
      ctx.ok(va <= .2 * vb, f'variance at call {t}', got=va, raw=vb)
    ctx.count('estimates', n)
