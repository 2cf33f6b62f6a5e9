"""C28: second-order quantities agree with the full matrices."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Hessian-vector products, Hessian diagonals and Fisher diagonals of '
        'losses over random parameter trees are compared with full matrices: '
        'closed forms for quadratics and logistic regression, and central '
        'differences of gradients for nets and transcendental losses.')
ASSUMPTIONS = ['Losses are twice differentiable at the points tested.']
MIN_EVALS = 1000
MIN_DISTINCT = 300
MIN_COUNTERS = {'products': 200, 'diagonals': 120, 'fisher diagonals': 120}

ravel = jax.flatten_util.ravel_pytree


def flat(t):
  return np.concatenate([np.ravel(np.asarray(l, np.float64)) for l in tree_leaves(t)]
                        or [np.zeros(0)])


def quadratic(ctx, kind, n):
  A = ctx.rng.normal(size=(n, n))
  A = (A + A.T) / 2 * 10. ** ctx.pick([-1, 0, 1])
  b = ctx.rng.normal(size=n)
  J, B = jnp.asarray(A, F), jnp.asarray(b, F)

  def loss(p, x, y):
    w = ravel(p)[0]
    return .5 * w @ (J * jnp.sum(x)) @ w + (B * jnp.sum(y)) @ w + 3.
  return loss, (lambda w, x, y: A * x.sum()), lambda w, x, y: A @ w * x.sum() + b * y.sum()


def logistic(ctx, kind, n):
  m = 7
  X = ctx.rng.normal(size=(m, n))
  J = jnp.asarray(X, F)
  sg = lambda z: 1 / (1 + np.exp(-z))

  def loss(p, x, y):
    z = J @ ravel(p)[0] * x
    return jnp.sum(jnp.logaddexp(0., z) - y * z)

  def hess(w, x, y):
    s = sg(X @ w * x)
    return X.T @ np.diag(s * (1 - s) * x ** 2) @ X
  return loss, hess, lambda w, x, y: X.T @ ((sg(X @ w * x) - y) * x)


def smooth(ctx, kind, n):
  M = ctx.rng.normal(size=(n, n)) * .4
  J = jnp.asarray(M, F)

  def make(np_, J):
    def grad(w, x, y):
      u = J @ w
      # sum(x0 sin(u) + y0 exp(w/3)) + y1 * prod-like coupling
      return (J.T @ (x[0] * np_.cos(u)) + y[0] * np_.exp(w / 3) / 3
              + 2 * y[1] * np_.roll(w, 1) + 2 * y[1] * np_.roll(w, -1))
    return grad

  def loss(p, x, y):
    w = ravel(p)[0]
    return (jnp.sum(x[0] * jnp.sin(J @ w)) + jnp.sum(y[0] * jnp.exp(w / 3))
            + 2 * y[1] * jnp.sum(w * jnp.roll(w, 1)))
  g = make(np, M)

  def hess(w, x, y):
    h = 1e-5
    return np.stack([(g(w + h * e, x, y) - g(w - h * e, x, y)) / (2 * h)
                     for e in np.eye(n)])
  return loss, hess, g


LOSSES = {'quadratic': quadratic, 'logistic': logistic, 'smooth': smooth}


def _setup(ctx):
  which = ctx.cycle(LOSSES)
  kind = ctx.pick([k for k in work.KINDS if k not in ('conv', 'rank5', 'wide', *work.LARGE)])
  p = work.params(ctx, kind)
  n = flat(p).size
  loss, hess, grad = LOSSES[which](ctx, kind, n)
  x = np.asarray(ctx.rng.normal(size=7) * .5 + 1, F)
  y = np.asarray(ctx.rng.random(7), F)
  ctx.describe(loss=which, tree=kind, n=n)
  X, Y, w = x.astype(np.float64), y.astype(np.float64), flat(p)
  c = float(ctx.pick([1., 1., 1e4, 1e-4]))
  ctx.describe(loss=which, tree=kind, n=n, factor=c)
  return (lambda p, x, y: c * loss(p, x, y)), p, x, y, n, c * hess(w, X, Y), (
      c * grad(w, X, Y)), c


def _all(ctx, rtol):
  loss, p, x, y, n, H, g, c = _setup(ctx)
  size = max(np.abs(H).max(), c)
  x, y = jnp.asarray(x), jnp.asarray(y)
  jit = (lambda f: jax.jit(f)) if ctx.coin(.4) else (lambda f: f)
  for _ in range(2):
    how = ctx.pick(['random', 'basis', 'zero', 'large'])
    v = {'random': ctx.rng.normal(size=n), 'basis': np.eye(n)[ctx.rng.integers(n)],
         'zero': np.zeros(n), 'large': ctx.rng.normal(size=n) * 1e3}[how]
    v = np.asarray(v, F)
    got = jit(lambda v: optax.hvp(loss, v, p, x, y))(jnp.asarray(v))
    ctx.close(flat(got), H @ v.astype(np.float64), f'product with a {how} vector',
              rtol=rtol, scale=size * max(np.abs(v).max(), 1e-3) * n)
    ctx.count('products')
  got = jit(lambda q: optax.hessian_diag(loss, q, x, y))(p)
  ctx.ok(got.shape == (n,) and got.dtype == F, 'diagonal: shape and dtype',
         got=(got.shape, got.dtype))
  ctx.close(got, np.diag(H), 'diagonal of the Hessian', rtol=rtol, scale=size)
  ctx.count('diagonals')
  got = jit(lambda q: optax.fisher_diag(loss, q, x, y))(p)
  ctx.close(got, g ** 2, 'diagonal of the Fisher matrix', rtol=rtol,
            scale=max(np.abs(g).max(), c) ** 2 * n)
  ctx.ok(np.all(np.asarray(got) >= 0), 'Fisher diagonal is non-negative')
  ctx.count('fisher diagonals')
  # Linear and symmetric.
  a, b = (np.asarray(ctx.rng.normal(size=n), F) for _ in 'ab')
  ha, hb = (flat(optax.hvp(loss, jnp.asarray(v), p, x, y)) for v in (a, b))
  ctx.close(a @ hb, b @ ha, 'symmetry', rtol=rtol, scale=size * n * n * 4)


@scenario(env='x64', quick=90, thorough=900)
def matrices(ctx):
  _all(ctx, 1e-8)


@scenario(env='x32', quick=60, thorough=600)
def matrices32(ctx):
  _all(ctx, 1e-4)


@scenario(env='x64', quick=24, thorough=240)
def net(ctx):
  """A small net, against differences of its gradients."""
  h = int(ctx.pick([1, 2, 4]))
  p = {'b': jnp.asarray(ctx.rng.normal(size=h)),
       'w': jnp.asarray(ctx.rng.normal(size=(3, h))),
       'o': [jnp.asarray(ctx.rng.normal(size=(h, 2))), jnp.asarray(ctx.rng.normal())]}
  x = jnp.asarray(ctx.rng.normal(size=(5, 3)))
  y = jnp.asarray(np.eye(2)[ctx.rng.integers(2, size=5)])

  def loss(p, x, y):
    z = jnp.tanh(x @ p['w'] + p['b']) @ p['o'][0] + p['o'][1] * x[:, :1] ** 2
    return jnp.mean(optax.softmax_cross_entropy(z * jnp.array([1., -1.]), y))
  w, back = ravel(p)
  g = lambda v: flat(jax.grad(loss)(back(v), x, y))
  n = w.size
  ctx.describe(hidden=h, n=n)
  e = 1e-5
  H = np.stack([(g(w + e * d) - g(w - e * d)) / (2 * e) for d in np.eye(n)])
  ctx.close(optax.hessian_diag(loss, p, x, y), np.diag(H), 'diagonal', rtol=1e-6, scale=1.)
  ctx.count('diagonals')
  v = ctx.rng.normal(size=n)
  ctx.close(flat(optax.hvp(loss, jnp.asarray(v), p, x, y)), H @ v, 'product', rtol=1e-6,
            scale=n)
  ctx.count('products')
  ctx.close(optax.fisher_diag(loss, p, x, y), g(w) ** 2, 'fisher', rtol=1e-9, scale=1e-6)
  ctx.count('fisher diagonals')


@scenario(env='x64', quick=24, thorough=240)
def dtypes(ctx):
  """float32 parameters while 64-bit types are on; trees with both."""
  mixed = ctx.cycle([False, True])
  dts = [np.float32, np.float64 if mixed else np.float32]
  p = {'a': jnp.asarray(ctx.rng.normal(size=3), dts[0]),
       'b': jnp.asarray(ctx.rng.normal(size=(2, 2)), dts[1])}
  ctx.describe(mixed=mixed)

  def loss(p, x, y):
    return jnp.sum(p['a'] ** 3) * x + jnp.sum(p['b'] ** 4) * y
  x, y = F(1.5), F(.5)
  a, b = np.asarray(p['a'], np.float64), np.asarray(p['b'], np.float64)
  want = np.concatenate([6 * a * 1.5, (12 * b ** 2 * .5).ravel()])
  got = optax.hessian_diag(loss, p, x, y)
  ctx.close(got, want, 'diagonal', rtol=2e-5, scale=1.)
  ctx.count('diagonals')
  v = np.asarray(ctx.rng.normal(size=7), dts[1])
  ctx.close(flat(optax.hvp(loss, jnp.asarray(v), p, x, y)), want * v, 'product',
            rtol=2e-5, scale=1.)
  ctx.count('products')
  gr = np.concatenate([3 * a ** 2 * 1.5, (4 * b ** 3 * .5).ravel()])
  ctx.close(optax.fisher_diag(loss, p, x, y), gr ** 2, 'fisher', rtol=2e-5, scale=1.)
  ctx.count('fisher diagonals')
