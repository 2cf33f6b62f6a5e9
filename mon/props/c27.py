"""C27: losses equal their definitions, with usable gradients."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Every loss is evaluated on random and hostile inputs (extreme '
        'logits, ties, zeros, hard and soft labels, batch shapes, '
        'broadcasting) and its values and gradients are compared with float64 '
        'formulas computed stably by the harness.')
ASSUMPTIONS = ['Inputs are finite; vectors have non-zero norm or epsilon > 0.']
MIN_EVALS = 4000
MIN_DISTINCT = 1000
MIN_COUNTERS = {'losses': 700, 'gradients': 600}

SHAPES = [(), (3,), (4, 3), (2, 3, 5), (1,), (0, 3), (1, 7)]
RT = 1e-11 if X64 else 3e-5


def wild(ctx, shape):
  rng = ctx.rng
  x = rng.normal(size=shape)
  how = ctx.pick(['normal', 'large', 'tiny', 'zeros', 'mixed', 'integers'])
  if how == 'large':
    x = x * 10. ** rng.integers(1, 5)
  elif how == 'tiny':
    x = x * 1e-4
  elif how == 'zeros':
    x = np.where(rng.random(shape) < .5, 0., x)
  elif how == 'mixed':
    x = x * np.exp(4 * rng.normal(size=shape))
  elif how == 'integers':
    x = np.round(x * 2)
  return np.asarray(x, F)


def grad_of(f, x):
  """The gradient of sum(f(x) * weights) with fixed pseudo-random weights."""
  return jax.grad(lambda y: jnp.sum(f(y)))(jnp.asarray(x))


def check(ctx, fn, x, want, dwant, what, scale=0., gscale=0., rtol=RT):
  fn = jax.jit(fn) if ctx.coin(.3) else fn
  got = fn(jnp.asarray(x))
  ctx.count('losses')
  ctx.ok(np.asarray(got).dtype == F, f'{what}: dtype', got=np.asarray(got).dtype)
  ctx.close(got, want, f'{what}: value', rtol=rtol, scale=np.asarray(scale))
  if dwant is not None:
    g = grad_of(fn, x)
    ctx.count('gradients')
    ctx.finite(g, f'{what}: gradient')
    ctx.close(g, dwant, f'{what}: gradient', rtol=rtol, scale=np.asarray(gscale))


def huge(ctx, x):
  """Some inputs are huge, though their losses are representable."""
  return x * F(10. ** ctx.rng.integers(5, 15)) if ctx.coin(.15) else x


def _l2(ctx):
  shape = ctx.cycle(SHAPES)
  p = huge(ctx, wild(ctx, shape))
  t = wild(ctx, shape if ctx.coin(.7) else shape[-1:])
  form = ctx.pick(['both', 'both', 'none', 'keyword'])
  ctx.describe(shape=shape, form=form)
  P, T = p.astype(np.float64), t.astype(np.float64)
  if form == 'none':
    fn, e, m = optax.l2_loss, P, np.abs(P)
  else:
    T = np.broadcast_to(T, shape)
    e, m = P - T, np.abs(P) + np.abs(T)
    fn = ((lambda x: optax.l2_loss(x, t)) if form == 'both' else
          (lambda x: optax.l2_loss(predictions=x, targets=jnp.asarray(t))))
  check(ctx, fn, p, .5 * e ** 2, e, 'l2', scale=.5 * m * np.abs(e) + .5 * m ** 2 * RT,
        gscale=m, rtol=RT * 4)


def _huber(ctx):
  shape = ctx.cycle(SHAPES)
  p, t = huge(ctx, wild(ctx, shape)), huge(ctx, wild(ctx, shape))
  delta = float(ctx.pick([1., .1, 5., 40., 1e-3, ctx.rng.random() + .01]))
  edge = ctx.coin(.3)
  form = ctx.pick(['both', 'none', 'default'])
  if form == 'default':
    delta = 1.
  if edge:
    s = np.asarray(ctx.rng.choice([-1., 1., 0., -2.], size=shape), F)
    p, t = np.asarray(s * F(delta), F), np.zeros(shape, F)
  ctx.describe(shape=shape, form=form, delta=delta, edge=edge)
  P, T = p.astype(np.float64), t.astype(np.float64)
  e = P if form == 'none' else P - T
  m = np.abs(P) + np.abs(T)
  d = float(F(delta))
  a = np.abs(e)
  want = np.where(a <= d, .5 * e ** 2, .5 * d ** 2 + d * (a - d))
  fn = {'both': lambda x: optax.huber_loss(x, t, delta),
        'none': lambda x: optax.huber_loss(x, delta=delta),
        'default': lambda x: optax.huber_loss(x, jnp.asarray(t))}[form]
  check(ctx, fn, p, want, np.clip(e, -d, d), 'huber',
        scale=np.minimum(m, d) * m, gscale=d + m * (a <= d * 1.001),
        rtol=RT * 4)


def log1pexp(x):
  return np.logaddexp(0., x)


def _sigmoid(ctx):
  shape = ctx.cycle(SHAPES)
  x = wild(ctx, shape)
  if ctx.coin(.3):
    x = np.asarray(ctx.rng.choice([-1e4, 1e4, -50, 50, 0, 700, -700, 90, -90], size=shape), F)
  how = ctx.pick(['hard', 'soft', 'edges'])
  y = {'hard': (ctx.rng.random(shape) < .5).astype(float),
       'soft': ctx.rng.random(shape),
       'edges': ctx.rng.choice([0., 1., .5], size=shape)}[how]
  y = np.asarray(y, F)
  ctx.describe(shape=shape, labels=how)
  X, Y = x.astype(np.float64), y.astype(np.float64)
  want = Y * log1pexp(-X) + (1 - Y) * log1pexp(X)
  sig = np.exp(-log1pexp(-X))
  check(ctx, lambda v: optax.sigmoid_binary_cross_entropy(v, jnp.asarray(y)), x,
        want, sig - Y, 'sigmoid cross entropy',
        scale=(1e-290 if X64 else 1e-30) if how == 'hard' else 1e-3, gscale=1., rtol=RT * 4)
  ctx.ok(np.all(np.asarray(optax.sigmoid_binary_cross_entropy(x, y)) >= 0), 'non-negative')
  # The gradient with respect to the labels is minus the logit.
  g = jax.grad(lambda v: jnp.sum(optax.sigmoid_binary_cross_entropy(jnp.asarray(x), v)))(
      jnp.asarray(y))
  ctx.close(g, -X, 'gradient for the labels', rtol=RT * 8, scale=1.)


def log_softmax(x):
  m = x.max(-1, keepdims=True)
  return x - m - np.log(np.exp(x - m).sum(-1, keepdims=True))


def _softmax(ctx):
  shape = ctx.cycle([s for s in SHAPES if s and s != (0, 3)] + [(4, 10), (2, 300)])
  x = wild(ctx, shape)
  if ctx.coin(.3):
    x = np.asarray(ctx.rng.choice([-1e4, 1e4, -50, 50, 0, 700, -700, 90], size=shape), F)
  if ctx.coin(.2):
    x = np.asarray(x + 3e4, F)
  how = ctx.pick(['hard', 'soft', 'smooth', 'broadcast', 'masked', 'counts'])
  k = shape[-1]
  hard = np.eye(k)[ctx.rng.integers(k, size=shape[:-1])]
  soft = ctx.rng.dirichlet(np.ones(k), size=shape[:-1])
  y = {'hard': hard, 'soft': soft, 'broadcast': np.reshape(soft, (-1, k))[0]}.get(how)
  if how == 'masked':  # rows without any label contribute nothing
    y = hard * (ctx.rng.random(shape[:-1]) < .5)[..., None]
  if how == 'counts':
    y = np.asarray(ctx.rng.integers(0, 4, size=shape), float)
  if how == 'smooth':
    y = optax.smooth_labels(jnp.asarray(hard, F), .1)
  if how == 'broadcast' and len(shape) > 1 and shape[0] != 1:
    # Labels of higher rank than the logits are what is allowed to differ.
    big = np.asarray(soft, F)
    x = np.reshape(x, (-1, k))[0]
    y = big
  y = np.asarray(y, F)
  if how == 'broadcast' and y.ndim < x.ndim:
    y = np.broadcast_to(y, x.shape)
  ctx.describe(shape=shape, labels=how)
  X, Y = x.astype(np.float64), y.astype(np.float64)
  X = np.broadcast_to(X, Y.shape)
  ls = log_softmax(X)
  want = -(Y * ls).sum(-1)
  mag = (np.abs(X) + np.abs(X).max(-1, keepdims=True)) .max(-1) * np.maximum(1., Y.sum(-1))
  dw = np.exp(ls) * Y.sum(-1, keepdims=True) - Y
  if x.shape != Y.shape:
    dw = dw.reshape((-1, k)).sum(0)
  check(ctx, lambda v: optax.softmax_cross_entropy(v, jnp.asarray(y)), x, want, dw,
        'softmax cross entropy', scale=mag, gscale=max(1., Y.sum(-1).max()) * max(Y.size // k, 1), rtol=RT * 8)
  # Adding a constant to all logits does not matter.
  got = optax.softmax_cross_entropy(jnp.asarray(x) + F(7.), jnp.asarray(y))
  ctx.close(got, want, 'shifted logits', rtol=RT * 8,
            scale=mag + 7 * np.maximum(1., Y.sum(-1)))


def _labels(ctx):
  shape = ctx.cycle([(3,), (4, 3), (2, 3, 5), (1, 7), (6, 1)])
  k = shape[-1]
  hard = np.asarray(np.eye(k)[ctx.rng.integers(k, size=shape[:-1])], F)
  soft = np.asarray(ctx.rng.dirichlet(np.ones(k), size=shape[:-1]), F)
  y = hard if ctx.coin(.6) else soft
  a = float(ctx.pick([0., 1., .1, .5, ctx.rng.random()]))
  ctx.describe(shape=shape, alpha=a)
  got = optax.smooth_labels(jnp.asarray(y), a)
  ctx.count('losses')
  want = (1 - a) * y.astype(np.float64) + a / k
  ctx.close(got, want, 'smoothed labels', rtol=RT, scale=1.)
  ctx.close(jnp.sum(got, -1), y.astype(np.float64).sum(-1), 'total mass', rtol=RT * 4)
  ctx.ok(np.all(np.argmax(np.asarray(got), -1) == np.argmax(y, -1)) or a > .9999,
         'most likely category')


def _cosine(ctx):
  shape = ctx.cycle([(3,), (4, 3), (2, 3, 5), (1, 7), (6, 1)])
  eps = float(ctx.pick([0., 0., 1e-3, .5]))
  p, t = wild(ctx, shape), wild(ctx, shape)
  zeros = eps > 0 and ctx.coin(.4)
  if zeros:
    p = np.asarray(p * (ctx.rng.random(shape[:-1]) < .5)[..., None], F)
    t = np.asarray(t * (ctx.rng.random(shape[:-1]) < .5)[..., None], F)
  else:
    p, t = np.asarray(p + 1e-2 * np.sign(p + 1e-9), F), np.asarray(t + .01, F)
  rel = ctx.pick(['free', 'free', 'equal', 'opposite', 'scaled'])
  if rel != 'free' and not zeros:
    t = np.asarray({'equal': p, 'opposite': -p, 'scaled': p * F(3.)}[rel], F)
  if ctx.coin(.3):  # rows of very different norms
    far = lambda: 10. ** ctx.rng.integers(-9, 10, size=shape[:-1] + (1,))
    p, t = np.asarray(p * far(), F), np.asarray(t * far(), F)
  P, T = p.astype(np.float64), t.astype(np.float64)
  np_, nt = (np.maximum(np.linalg.norm(v, axis=-1), eps) for v in (P, T))
  if np.any(np_ == 0) or np.any(nt == 0):
    return
  sim = (P * T).sum(-1) / (np_ * nt)
  ctx.describe(shape=shape, eps=eps, rel=rel, zeros=zeros)
  raw = np.linalg.norm(P, axis=-1)
  active = (raw > eps)[..., None]
  d = T / (np_ * nt)[..., None] - np.where(
      active, (sim / np_ ** 2)[..., None] * P, 0.)
  if not zeros and np.any(np.abs(raw - eps) < 1e-3 * (eps + 1e-9)):
    d = None
  gs = 2 / np_[..., None]
  # A row whose norm sits exactly on epsilon has no unique gradient.
  check(ctx, lambda v: optax.cosine_similarity(v, jnp.asarray(t), eps), p, sim, d,
        'cosine similarity', scale=1., gscale=gs, rtol=RT * 10)
  check(ctx, lambda v: optax.cosine_distance(v, jnp.asarray(t), eps), p, 1 - sim,
        None if d is None else -d, 'cosine distance', scale=1., gscale=gs, rtol=RT * 10)
  if eps == 0:
    check(ctx, lambda v: optax.cosine_similarity(v, jnp.asarray(t)), p, sim, None,
          'default epsilon', scale=1., rtol=RT * 10)
    a = np.abs(np.asarray(optax.cosine_similarity(p, t)))
    ctx.ok(np.all(a <= 1 + 10 * RT), 'similarity is within [-1, 1]', got=a)
    ctx.close(optax.cosine_similarity(jnp.asarray(p) * 4, jnp.asarray(t)), sim,
              'scaled predictions', rtol=RT * 10, scale=1.)
    ctx.close(optax.cosine_similarity(jnp.asarray(t), jnp.asarray(p)), sim, 'symmetry',
              rtol=RT * 10, scale=1.)


@scenario(env='x64', quick=100, thorough=1500)
def l2(ctx):
  _l2(ctx)


@scenario(env='x32', quick=60, thorough=600)
def l2_32(ctx):
  _l2(ctx)


@scenario(env='x64', quick=120, thorough=1500)
def huber(ctx):
  _huber(ctx)


@scenario(env='x32', quick=60, thorough=600)
def huber_32(ctx):
  _huber(ctx)


@scenario(env='x64', quick=120, thorough=1500)
def sigmoid(ctx):
  _sigmoid(ctx)


@scenario(env='x32', quick=60, thorough=600)
def sigmoid_32(ctx):
  _sigmoid(ctx)


@scenario(env='x64', quick=120, thorough=1500)
def softmax(ctx):
  _softmax(ctx)


@scenario(env='x32', quick=60, thorough=600)
def softmax_32(ctx):
  _softmax(ctx)


@scenario(env='x64', quick=60, thorough=600)
def labels(ctx):
  _labels(ctx)


@scenario(env='x64', quick=120, thorough=1500)
def cosine(ctx):
  _cosine(ctx)


@scenario(env='x32', quick=60, thorough=600)
def cosine_32(ctx):
  _cosine(ctx)
