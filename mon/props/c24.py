"""C24: injected noise is calibrated, fresh and reproducible."""
import numpy as np

from mon import core, seq, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('The noise is recovered as the difference between a noised run and '
        'the noise-free value, standardised with the standard deviation the '
        'documentation promises at that step, and its mean, variance, '
        'kurtosis and correlations (across elements, leaves, steps and seeds) '
        'are tested at about six standard errors; every vector of noise ever '
        'drawn is logged and must not occur twice, and equal seeds must '
        'replay bit-identically.')
ASSUMPTIONS = ['Statistical tests have a false alarm rate near 1e-8 each.']
MIN_EVALS = 2500
MIN_DISTINCT = 300
MIN_COUNTERS = {'noise samples': 400000, 'noised steps': 300}
Z = 6.


def gaussian(ctx, z, what):
  """z should be iid standard normal."""
  z = np.concatenate([np.ravel(x) for x in z])
  n = z.size
  ctx.count('noise samples', n)
  ctx.ok(abs(z.mean()) <= Z / np.sqrt(n), f'{what}: mean', got=z.mean(), n=n)
  ctx.ok(abs((z ** 2).mean() - 1) <= Z * np.sqrt(2 / n), f'{what}: variance',
         got=(z ** 2).mean(), n=n)
  ctx.ok(abs((z ** 4).mean() - 3) <= Z * np.sqrt(96 / n) + 30. / n, f'{what}: fourth moment',
         got=(z ** 4).mean(), n=n)


def uncorrelated(ctx, a, b, what):
  a, b = np.ravel(a), np.ravel(b)
  n = a.size
  ctx.ok(abs((a * b).mean()) <= Z / np.sqrt(n) + 8. / n, f'{what}: correlation',
         got=(a * b).mean(), n=n)


SHAPES = [(40, 50), (40, 50), (2000,), (), (7,), (1, 2000)]
WIDE = [(70, 80), (6000,), (3, 2100)]


class Log:
  """All the noise drawn so far."""

  def __init__(self, ctx):
    self.ctx, self.rows = ctx, set()

  def add(self, leaves, what):
    for i, x in enumerate(leaves):
      if x.size < 5:
        continue
      key = np.round(np.ravel(x)[:5], 6).tobytes()
      self.ctx.ok(key not in self.rows, f'{what}: noise of leaf {i} was used before',
                  first=np.ravel(x)[:5])
      self.rows.add(key)


def _annealed(ctx, factory, what):
  eta = work.logu(ctx, 1e-3, 10.)
  gamma = float(ctx.pick([0., .55, 1., 2.5, -.4]))
  seed = int(ctx.rng.integers(10 ** 6))
  opt = factory(eta, gamma, seed)
  ctx.describe(what=what, eta=eta, gamma=gamma, seed=seed)
  p = [jnp.zeros(s, F) for s in SHAPES]
  s = opt.init(p)
  upd = jax.jit(opt.update)
  log, prev, allz = Log(ctx), None, []
  start = int(ctx.pick([0, 0, 0, 9]))
  zero = [jnp.zeros(x, F) for x in SHAPES]
  for _ in range(start):
    _, s = upd(zero, s)
  for t in range(start, start + 6):
    g = [np.asarray(ctx.rng.normal(size=x) * 3, F) for x in SHAPES]
    key = tree_leaves(s)
    u, s = upd(work.to_jax(g), s)
    std = np.sqrt(eta / (t + 1.) ** gamma)
    z = [(np.asarray(a, np.float64) - b) / std for a, b in zip(u, g)]
    log.add(z, f'step {t}')
    gaussian(ctx, z, f'{what} at {t}')
    allz += z
    uncorrelated(ctx, z[0], z[1], 'leaves of one shape')
    uncorrelated(ctx, z[0], z[2], 'leaves of one size')
    uncorrelated(ctx, z[2][1:], z[2][:-1], 'neighbouring elements')
    uncorrelated(ctx, z[0].T[1:], z[0].T[:-1], 'neighbouring rows')
    if prev is not None:
      for i in (0, 2, 5):
        uncorrelated(ctx, z[i], prev[i], f'consecutive steps, leaf {i}')
        uncorrelated(ctx, z[i], prev[5 if i == 2 else 1], 'across leaves and steps')
    uncorrelated(ctx, z[0] , np.asarray(g[0], np.float64) / 3, 'noise and gradient')
    prev = z
    ctx.count('noised steps')
    ctx.seen(what, eta, t)
  gaussian(ctx, allz, f'{what} pooled')
  # Equal seeds replay; another seed is independent.
  o2, o3 = factory(eta, gamma, seed), factory(eta, gamma, seed + 1)
  s2, s3 = o2.init(p), o3.init(p)
  s1 = opt.init(p)
  same, other = [], []
  for t in range(3):
    a, s1 = upd(zero, s1)
    b, s2 = upd(zero, s2)
    c, s3 = jax.jit(o3.update)(zero, s3)
    ctx.same(a, b, f'replay at {t}')
    ctx.same(s1, s2, f'state in replay at {t}')
    std = np.sqrt(eta / (t + 1.) ** gamma)
    log_c = [np.asarray(x, np.float64) / std for x in c]
    log_a = [np.asarray(x, np.float64) / std for x in a]
    for i in (0, 2):
      uncorrelated(ctx, log_a[i], log_c[i], 'two seeds')
    ctx.ok(not np.array_equal(log_a[2], log_c[2]), 'another seed gives other noise')
    ctx.count('noised steps')


@scenario(env='x64', quick=12, thorough=150)
def add_noise(ctx):
  _annealed(ctx, optax.add_noise, 'add_noise')


@scenario(env='x32', quick=6, thorough=60)
def add_noise32(ctx):
  _annealed(ctx, optax.add_noise, 'add_noise')


@scenario(env='x64', quick=6, thorough=60)
def noisy_sgd(ctx):
  """The alias: the same noise before the learning rate."""
  lr = work.logu(ctx, 1e-2, 2.)

  def make(eta, gamma, seed):
    o = optax.noisy_sgd(lr, eta, gamma, seed)

    def update(u, s, p=None):
      out, s = o.update(u, s, p)
      return tree_map(lambda x: x / -lr, out), s
    return optax.GradientTransformation(o.init, update)
  _annealed(ctx, make, 'noisy_sgd')


@scenario(env='x64', quick=20, thorough=200)
def schedule_of_noise(ctx):
  """Annealing over a long run, step by step, with the pooled standardised
  noise of every window checked."""
  gamma = float(ctx.pick([.55, 1., .3]))
  eta = float(ctx.pick([.01, 1.]))
  opt = optax.add_noise(eta, gamma, int(ctx.rng.integers(1000)))
  n = 200
  x = jnp.zeros(500, F)
  ctx.describe(gamma=gamma, eta=eta)
  s = opt.init(x)

  def body(s, _):
    u, s = opt.update(x, s)
    return s, u
  _, us = jax.lax.scan(body, s, None, length=n)
  us = np.asarray(us, np.float64)
  std = np.sqrt(eta / (1. + np.arange(n)) ** gamma)
  z = us / std[:, None]
  for i in range(0, n, 4):
    gaussian(ctx, [z[i:i + 4]], f'window at {i}')
  c = z @ z.T / z.shape[1]
  np.fill_diagonal(c, 0)
  ctx.ok(np.abs(c).max() <= 7. / np.sqrt(z.shape[1]), 'noise of any two steps',
         got=np.abs(c).max())
  ctx.count('noised steps', n)


def _private(ctx, rtol):
  clip, mult = work.logu(ctx, .1, 10.), float(ctx.pick([.3, 1.1, 4.]))
  b = int(ctx.pick([1, 2, 5, 8]))
  seed = int(ctx.rng.integers(10 ** 6))
  which = ctx.cycle(['aggregate', 'dpsgd'])
  lr = .25

  def make(seed):
    if which == 'aggregate':
      return optax.differentially_private_aggregate(clip, mult, seed)
    o = optax.dpsgd(lr, clip, mult, seed)

    def update(u, s, p=None):
      out, s = o.update(u, s, p)
      return tree_map(lambda x: x / -lr, out), s
    return optax.GradientTransformation(o.init, update)
  opt = make(seed)
  ctx.describe(which=which, clip=clip, mult=mult, batch=b, seed=seed)
  p = [jnp.zeros(s, F) for s in SHAPES]
  s, twin, other = opt.init(p), make(seed).init(p), make(seed + 1).init(p)
  upd = jax.jit(opt.update)
  log, prev, allz = Log(ctx), None, []
  std = clip * mult / b
  for t in range(5):
    g = [np.asarray(ctx.rng.normal(size=(b,) + x), F) for x in SHAPES]
    n = np.sqrt(sum((x.astype(np.float64).reshape(b, -1) ** 2).sum(1) for x in g))
    f = np.minimum(1, clip / n)
    clean = [(x.astype(np.float64) * f.reshape((b,) + (1,) * (x.ndim - 1))).sum(0) / b
             for x in g]
    u, s = upd(work.to_jax(g), s)
    v, twin = upd(work.to_jax(g), twin)
    w, other = upd(work.to_jax(g), other)
    ctx.same(u, v, f'replay at {t}')
    z = [(np.asarray(a, np.float64) - c) / std for a, c in zip(u, clean)]
    z3 = [(np.asarray(a, np.float64) - c) / std for a, c in zip(w, clean)]
    log.add(z, f'step {t}')
    log.add(z3, f'step {t}, other seed')
    gaussian(ctx, z, f'private noise at {t}')
    allz += z
    uncorrelated(ctx, z[0], z[1], 'leaves of one shape')
    uncorrelated(ctx, z[0], z[2], 'leaves of one size')
    uncorrelated(ctx, z[2][1:], z[2][:-1], 'neighbouring elements')
    uncorrelated(ctx, z[0], z3[0], 'two seeds')
    uncorrelated(ctx, z[2], z3[2], 'two seeds')
    if prev is not None:
      for i in (0, 2, 5):
        uncorrelated(ctx, z[i], prev[i], f'consecutive steps, leaf {i}')
    prev = z
    ctx.count('noised steps')
    ctx.seen(which, clip, t)
  gaussian(ctx, allz, 'private noise pooled')
  # The noise does not depend on the data.
  s0 = opt.init(p)
  a, _ = upd(work.to_jax(g), s0)
  z0 = [np.asarray(x, np.float64) - c for x, c in zip(a, clean)]
  e, _ = upd([jnp.zeros((b,) + x, F) for x in SHAPES], s0)
  ctx.close([np.asarray(x, np.float64) for x in e], z0, 'noise with other data',
            rtol=rtol, scale=std * 5 + clip)


@scenario(env='x64', quick=16, thorough=200)
def private(ctx):
  _private(ctx, 1e-9)


@scenario(env='x32', quick=6, thorough=60)
def private32(ctx):
  _private(ctx, 1e-4)


@scenario(env='x64', quick=16, thorough=200)
def single_elements(ctx):
  """Trees of scalars: noise per leaf and step must all differ."""
  kind = ctx.cycle(['scalar', 'one', 'many', 'nested'])
  which = ctx.pick(['add', 'private'])
  seed = int(ctx.rng.integers(10 ** 6))
  p = work.params(ctx, kind)
  zero = tree_map(jnp.zeros_like, p)
  opt = (optax.add_noise(1., 0., seed) if which == 'add' else
         optax.differentially_private_aggregate(1., 2., seed))
  x = zero if which == 'add' else tree_map(lambda a: jnp.zeros((2,) + a.shape), zero)
  ctx.describe(tree=kind, which=which)
  s = opt.init(p)
  upd = jax.jit(opt.update)
  vals = []
  for t in range(25):
    u, s = upd(x, s)
    vals.append(np.concatenate([np.ravel(l) for l in tree_leaves(u)]))
    ctx.count('noised steps')
  flat = np.concatenate(vals)
  ctx.ok(np.unique(flat).size == flat.size, 'all draws differ')
  gaussian(ctx, [flat], 'scalar noise')


@scenario(env='x32', quick=16, thorough=160)
def wide(ctx):
  """Large leaves and batches: no part of the noise repeats another."""
  which = ctx.cycle(['add', 'private', 'dpsgd'])
  seed = int(ctx.rng.integers(10 ** 6))
  b = int(ctx.pick([3, 100, 257]))
  shapes = WIDE if which == 'add' or b == 3 else [(41, 50), (500,)]
  std = float(ctx.pick([.5, 3.]))
  ctx.describe(which=which, batch=b, std=std)
  if which == 'add':
    opt, by = optax.add_noise(std ** 2, 0., seed), 1.
    x = [jnp.zeros(s, F) for s in shapes]
  else:
    x = [jnp.zeros((b,) + s, F) for s in shapes]
    by = 1. / b
    if which == 'private':
      opt = optax.differentially_private_aggregate(2., std / 2, seed)
    else:
      opt, by = optax.dpsgd(.5, 2., std / 2, seed), -.5 / b
  p = [jnp.zeros(s, F) for s in shapes]
  s = opt.init(p)
  upd = jax.jit(opt.update)
  runs = []
  for t in range(2):
    u, s = upd(x, s, p)
    z = np.concatenate([np.ravel(np.asarray(l, np.float64)) for l in u]) / std / by
    gaussian(ctx, [z], f'noise at {t}')
    runs.append(z)
    ctx.count('noised steps')
  z = np.concatenate(runs)
  n = z.size
  # The whole circular autocorrelation at once: any repetition is a peak.
  r = np.fft.irfft(np.abs(np.fft.rfft(z, 2 * n)) ** 2)[1:n] / np.sqrt(n - np.arange(1., n))
  r = r[:n - 500]
  ctx.ok(np.abs(r).max() <= 8., 'repetition within the noise', lag=np.abs(r).argmax() + 1,
         got=np.abs(r).max())
  # float32 draws collide by chance: in 20000 draws only a few.
  ctx.ok(np.unique(z).size >= .99 * n, 'distinct draws', got=np.unique(z).size, of=n)


@scenario(env='x32', quick=24, thorough=240)
def late(ctx):
  """The annealing law at large step counts, for integer exponents too."""
  gamma = ctx.cycle([2, 1, 3, 0, .55, 2., 1.5])
  count = int(ctx.pick([46339, 46341, 60000, 10 ** 6, 2 ** 31 - 5]))
  eta = float(ctx.pick([1., 7]))
  opt = optax.add_noise(eta, gamma, int(ctx.rng.integers(1000)))
  ctx.describe(gamma=gamma, count=count)
  x = jnp.zeros(20000, np.float32)
  s = opt.init(x)._replace(count=jnp.asarray(count, jnp.int32))
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  for t in range(2):
    u, s = upd(x, s)
    std = np.sqrt(eta / float(count + 1 + t) ** gamma)
    gaussian(ctx, [np.asarray(u, np.float64) / std], f'noise at step {count + t}')
    ctx.count('noised steps')


def _makers(seed):
  return {
      'add_noise': (optax.add_noise(1., 0., seed), 1., 0),
      'noisy_sgd': (optax.noisy_sgd(.5, 4., 0., seed), 1., 0),
      'private': (optax.differentially_private_aggregate(2., .5, seed), 1., 1),
      'dpsgd': (optax.dpsgd(.5, 4., .5, seed), 1., 1),
  }


@scenario(env='x32', quick=12, thorough=120)
def seeds(ctx):
  """Seeds that differ in any bit give different, independent noise."""
  name = ctx.cycle(['add_noise', 'noisy_sgd', 'private', 'dpsgd'])
  base = int(ctx.rng.integers(2 ** 31))
  all_seeds = {base} | {base ^ (1 << k) for k in range(31)} | {0, 1, 2, 3, 7919}
  x = jnp.zeros(64, F)
  rows = []
  ctx.describe(name=name, base=base)
  for seed in sorted(all_seeds):
    opt, std, batch = _makers(seed)[name]
    s = opt.init(x)
    g = jnp.zeros((1,) * batch + x.shape, F)
    z = []
    for _ in range(2):
      u, s = opt.update(g, s, x)
      z.append(np.asarray(u, np.float64) / std)
    rows.append(np.concatenate(z))
    ctx.count('noised steps', 2)
  rows = np.stack(rows)
  gaussian(ctx, [rows], 'noise of all seeds')
  c = rows @ rows.T / rows.shape[1]
  np.fill_diagonal(c, 0)
  ctx.ok(np.abs(c).max() <= 8. / np.sqrt(rows.shape[1]), 'noise of any two seeds',
         got=np.abs(c).max())
  ctx.ok(np.unique(rows).size > .99 * rows.size, 'distinct draws')
  ctx.seen(name, base)


@scenario(env='x32', quick=12, thorough=120)
def ranks(ctx):
  """Leaves of every rank and size get Gaussian noise, over long runs."""
  name = ctx.cycle(['add_noise', 'private', 'noisy_sgd', 'dpsgd'])
  seed = int(ctx.rng.integers(2 ** 31))
  shapes = [(), (1,), (3,), (2, 2), (1, 1), (1, 2, 1), (1, 2, 1, 2), (2, 1, 1, 1, 2), ()]
  opt, std, batch = _makers(seed)[name]
  p = [jnp.zeros(s, F) for s in shapes]
  x = [jnp.zeros((1,) * batch + s, F) for s in shapes]
  ctx.describe(name=name, seed=seed)

  def body(s, _):
    u, s = opt.update(x, s, p)
    return s, u
  n = 6000
  _, us = jax.jit(lambda s: jax.lax.scan(body, s, None, length=n))(opt.init(p))
  zs = [np.asarray(u, np.float64).reshape(n, -1) / std for u in us]
  for z, shape in zip(zs, shapes):
    gaussian(ctx, [z], f'noise of a leaf of shape {shape}')
    uncorrelated(ctx, z[1:], z[:-1], f'consecutive steps, shape {shape}')
    uncorrelated(ctx, np.abs(z[1:]) - np.sqrt(2 / np.pi), np.abs(z[:-1]) - np.sqrt(2 / np.pi),
                 f'sizes at consecutive steps, shape {shape}')
  flat = np.concatenate(zs, 1)
  c = flat.T @ flat / n
  np.fill_diagonal(c, 0)
  ctx.ok(np.abs(c).max() <= 7. / np.sqrt(n), 'noise of any two elements',
         got=np.abs(c).max())
  ctx.ok(np.unique(flat).size > .99 * flat.size, 'distinct draws')
  ctx.count('noised steps', n)
  ctx.seen(name, seed)


@scenario(env='x64', quick=16, thorough=160)
def silent(ctx):
  """Noise of no variance changes nothing."""
  kind = ctx.cycle(work.PLAIN)
  which = ctx.pick(['add_noise', 'noisy_sgd', 'aggregate'])
  gamma, seed = float(ctx.pick([0., .55])), int(ctx.rng.integers(1000))
  p = work.params(ctx, kind)
  like = p if which != 'aggregate' else tree_map(
      lambda x: np.zeros((4,) + np.shape(x)), p)
  opt = {'add_noise': lambda: optax.add_noise(0., gamma, seed),
         'noisy_sgd': lambda: optax.noisy_sgd(.5, 0., gamma, seed),
         'aggregate': lambda: optax.differentially_private_aggregate(
             1e6, 0., seed)}[which]()
  want = {'add_noise': lambda x: x, 'noisy_sgd': lambda x: -.5 * x,
          'aggregate': lambda x: x.mean(0)}[which]
  ctx.describe(which=which, tree=kind)
  s = opt.init(p)
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  for t, g in enumerate(work.grad_history(ctx, like, 3, 'normal')):
    u, s = upd(work.to_jax(g), s)
    ctx.close(u, tree_map(want, g), f'{which} without noise at {t}', rtol=1e-12)
    ctx.count('steps without noise')
