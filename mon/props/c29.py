"""C29: norms, leading eigenpairs and inverse roots of matrices."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Global norms of random trees are compared with float64; leading '
        'eigenpairs and inverse p-th roots of symmetric positive matrices '
        'built from known spectra are compared with the spectrum, and the '
        'defining equation root^p * (matrix + ridge) = identity is evaluated '
        'in float64 for every exponent.')
ASSUMPTIONS = ['Spectra have a gap (eigenpair) and bounded condition number.']
MIN_EVALS = 1500
MIN_DISTINCT = 300
MIN_COUNTERS = {'norms': 90, 'eigenpairs': 40, 'roots': 90}


def _norm(ctx, rtol, dtype=None):
  kind = ctx.cycle(work.KINDS + ['tower'])
  p = work.params(ctx, kind, dtype, scale=10. ** float(ctx.rng.integers(-3, 4)),
                  style=ctx.pick(['normal', 'zeros', 'some_zero', 'positive']))
  ctx.describe(tree=kind)
  want = np.sqrt(sum((x ** 2).sum() for x in seq.leaves64(p)))
  fn = jax.jit(optax.global_norm) if ctx.coin() else optax.global_norm
  got = fn(p)
  ctx.ok(np.shape(got) == (), 'a scalar', got=np.shape(got))
  ctx.close(got, want, 'global norm', rtol=rtol)
  ctx.count('norms')
  c = float(ctx.pick([-3., .25, 0.]))
  ctx.close(fn(tree_map(lambda x: (x * c).astype(x.dtype), p)), abs(c) * want,
            'scaled norm', rtol=rtol)
  # One leaf holding everything has the same norm.
  if dtype is None and tree_leaves(p):
    one = jnp.concatenate([jnp.ravel(x) for x in tree_leaves(p)])
    ctx.close(fn({'all': one}), want, 'norm of the concatenation', rtol=rtol)


@scenario(env='x64', quick=60, thorough=600)
def norm(ctx):
  _norm(ctx, 1e-12)


@scenario(env='x32', quick=60, thorough=600)
def norm32(ctx):
  _norm(ctx, 1e-5)


@scenario(env='x32', quick=20, thorough=200)
def norm_low(ctx):
  _norm(ctx, .05, jnp.bfloat16)


@scenario(env='x64', quick=10, thorough=60)
def empty(ctx):
  t = ctx.cycle([{}, [], (None, {}), {'a': np.zeros((0, 3))}])
  ctx.describe(tree=str(t))
  ctx.close(optax.global_norm(t), 0., 'norm of nothing')
  ctx.count('norms')


def spd(ctx, n, spectrum, level=False):
  a = ctx.rng.normal(size=(n, n))
  if level:  # a top eigenvector with equal entries: strong correlations
    a[:, 0] = 1.
  q, r = np.linalg.qr(a)
  q = q * np.sign(np.diag(r))
  return (q * spectrum) @ q.T, q


@scenario(env='x32', quick=60, thorough=800)
def eigen(ctx):
  n = int(ctx.pick([1, 2, 3, 5, 8, 16]))
  top = work.logu(ctx, 1e-1, 1e4)
  gap = float(ctx.pick([.5, .1, .7, .97]))
  iters = 1500 if gap > .9 else 200
  s = np.sort(ctx.rng.random(n) * gap)[::-1] * top
  s[0] = top
  if gap > .9 and n > 1:
    s[1] = gap * top
  A, q = spd(ctx, n, s)
  A = np.asarray((A + A.T) / 2, np.float32)
  ctx.describe(n=n, top=top, gap=gap)
  v, lam = optax.power_iteration(
      jnp.asarray(A), num_iters=iters, **(dict(error_tolerance=0.) if gap > .9 else {}))
  v, lam = np.asarray(v, np.float64), float(lam)
  ctx.close(lam, top, 'largest eigenvalue', rtol=1e-4)
  ctx.close(np.linalg.norm(v), 1., 'unit vector', rtol=1e-5)
  ctx.close(A.astype(np.float64) @ v, lam * v, 'eigenvector equation', rtol=5e-3,
            scale=top)
  ctx.close(abs(v @ q[:, 0]), 1., 'direction', rtol=1e-3)
  ctx.count('eigenpairs')
  # The number of iterations is respected.
  v1, l1 = optax.power_iteration(jnp.asarray(A), num_iters=1)
  ctx.ok(float(l1) <= top * 1.0001, 'Rayleigh quotient is at most the top eigenvalue')
  again = optax.power_iteration(
      jnp.asarray(A), num_iters=iters, **(dict(error_tolerance=0.) if gap > .9 else {}))
  ctx.same(again, (jnp.asarray(v, np.float32), jnp.asarray(lam, np.float32)),
           'a function of the arguments')
  loose = optax.power_iteration(jnp.asarray(A), num_iters=200, error_tolerance=top)
  ctx.ok(float(loose[1]) <= top * 1.0001, 'loose tolerance stays below the top')


def _root(ctx, eps_mode):
  n = int(ctx.pick([1, 2, 3, 4, 7, 12, 24]))
  p = int(ctx.cycle([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 16]))
  cond = float(ctx.pick([1., 10., 100., 1000., 1e4]))
  top = work.logu(ctx, 1e-2, 1e3)
  s = np.exp(ctx.rng.uniform(-np.log(cond), 0, n))
  s = np.sort(s)[::-1]
  s[0] = 1.
  s = s * top
  if cond == 1.:
    s[:] = top
  level = ctx.coin(.3)
  if level:
    s[1:] = s[1:] / ctx.pick([1., 10.])
  A, q = spd(ctx, n, s, level)
  A = np.asarray((A + A.T) / 2, np.float32)
  ridge = float({'default': 1e-6, 'small': 0., 'large': .1}[eps_mode])
  ctx.describe(n=n, p=p, cond=cond, top=top, ridge=ridge)
  kw = {} if eps_mode == 'default' else dict(ridge_epsilon=ridge)
  fn = lambda m: optax.matrix_inverse_pth_root(m, p, **kw)
  fn = jax.jit(fn) if ctx.coin(.3) else fn
  R, err = fn(jnp.asarray(A))
  ctx.ok(R.shape == (n, n) and R.dtype == np.float32, 'shape and dtype', got=R.shape)
  ctx.ok(float(err) <= 1e-2, 'reported error', got=err)
  R = np.asarray(R, np.float64)
  d = s + ridge * top
  want = (q * d ** (-1. / p)) @ q.T
  ctx.close(R, want, 'inverse root', rtol=2e-3 * max(1, cond / 100), scale=np.abs(d ** (-1. / p)).max())
  ctx.close(R, R.T, 'symmetry', rtol=2e-3, scale=np.abs(R).max())
  full = A.astype(np.float64) + ridge * top * np.eye(n)
  ctx.close(np.linalg.matrix_power(R, p) @ full, np.eye(n), 'defining equation',
            rtol=0., atol=3e-3 * p * max(1, cond / 50))
  ctx.count('roots')
  ctx.seen(n, p, cond, ctx.rep)


@scenario(env='x32', quick=88, thorough=1000)
def root(ctx):
  _root(ctx, 'default')


@scenario(env='x32', quick=44, thorough=400)
def root_ridge(ctx):
  _root(ctx, ctx.pick(['small', 'large']))


@scenario(env='x32', quick=24, thorough=240)
def root_small(ctx):
  """The ridge is relative also for matrices of tiny entries."""
  n = int(ctx.pick([2, 3, 5, 8]))
  p = int(ctx.cycle([1, 2, 4, 3]))
  top = 10. ** float(ctx.rng.uniform(-10, -2))
  ridge = float(ctx.pick([.3, .1, .03]))
  s = np.exp(ctx.rng.uniform(-6, 0, n))
  s[0] = 1.
  A, q = spd(ctx, n, s * top)
  A = np.asarray((A + A.T) / 2, np.float32)
  ctx.describe(n=n, p=p, top=top, ridge=ridge)
  R, _ = optax.matrix_inverse_pth_root(jnp.asarray(A), p, ridge_epsilon=ridge)
  # The power iteration inside may stop early on tiny matrices: its tolerance
  # is absolute.
  low = min(float(optax.power_iteration(jnp.asarray(A))[1]) / top, 1.)
  d = np.diag(q.T @ np.asarray(R, np.float64) @ q) ** -float(p) / top
  got = (d - s) / ridge
  ctx.ok(np.all((got >= low - .05) & (got <= 1.05)), 'ridge relative to the largest eigenvalue',
         got=got, low=low)
  ctx.count('roots')
  ctx.seen(n, p, ridge, ctx.rep)


@scenario(env='x32', quick=24, thorough=200)
def root_diagonal(ctx):
  """Diagonal matrices have elementwise roots, the identity is fixed."""
  n, p = int(ctx.pick([2, 3, 6])), int(ctx.cycle([1, 2, 3, 4, 6, 9]))
  d = np.exp(ctx.rng.uniform(-2, 2, n))
  if ctx.coin(.3):
    d[:] = 1.
  ctx.describe(n=n, p=p, d=d)
  R, err = optax.matrix_inverse_pth_root(jnp.asarray(np.diag(d), np.float32), p)
  ctx.close(R, np.diag((d + 1e-6 * d.max()) ** (-1. / p)), 'root', rtol=1e-3,
            scale=(d ** (-1. / p)).max())
  ctx.count('roots')
