"""C02: eager, compiled, looped and batched execution agree."""
import numpy as np

from mon import catalog, core, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Every transformation runs the same gradient history eagerly, under '
        'jit, inside one compiled scan, and batched over independent models '
        'by vmap, under the tracer leak checker; every update, the final '
        'state and the final parameters are compared. Schedules, losses and '
        'numerical routines are compared in the same modes.')
ASSUMPTIONS = ['Modes may differ by rounding: 2e-5 with 64-bit types (schedules are '
               'evaluated in single precision), 2e-3 of '
               'the value (or of 1e-3) without.']
MIN_EVALS = 3000
MIN_DISTINCT = 400
MIN_COUNTERS = {'special steps': 150, 'jit': 90, 'scan': 90, 'vmap': 90}
NAMES = catalog.NAMES
TOL = dict(rtol=2e-5, atol=1e-7) if X64 else dict(rtol=2e-3, atol=2e-4)
# Trees and styles on which no result hangs on a rounding error.
STYLES = ['normal', 'integers', 'lognormal', 'mostly_zero', 'sparse', 'ties']
if X64:
  STYLES += ['huge', 'tiny', 'one_huge', 'large', 'small', 'decaying']


def _stack(trees):
  return tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *trees)


def _agree(ctx, got, want, p, what):
  """Runs agree; parameters may cancel, relative to what was added up."""
  ctx.close(got[:2], want[:2], what, **TOL)
  total = tree_map(lambda x, *u: abs(np.asarray(x, np.float64)) + sum(
      abs(np.asarray(v, np.float64)) for v in u), p, *want[0])
  ctx.close(got[2], want[2], what, scale=total, **TOL)


def _loop(opt, p, s, gs):
  def body(c, g):
    s, q = c
    u, s = opt.update(g, s, q)
    return (s, tree_map(lambda a, b: jnp.asarray(a + b, a.dtype), q, u)), u
  (s, q), us = jax.lax.scan(body, (s, p), gs)
  return us, s, q


def _unstack(us, n):
  return [tree_map(lambda x, i=i: x[i], us) for i in range(n)]


def _modes(ctx, name):
  e = catalog.CATALOG[name]
  n = 4
  # Batching over models: kinds with empty leaves are fine, too.
  scale = ctx.pick([1., 1., 1e-7, 1e4]) if X64 else 1.
  kind, p, gs = catalog.problem(ctx, e, steps=n, style=ctx.pick(STYLES),
                                scale=scale)
  seed = int(ctx.rng.integers(1000))
  ctx.describe(transform=name, tree=kind, hp_seed=seed, scale=scale)
  opt = e.build(seed)
  if name == 'scale_by_trust_ratio':
    # A bare trust ratio can move a scalar exactly onto zero, where it jumps.
    opt = optax.chain(opt, optax.scale(.37))
  us, s, q = catalog.run(e, opt, p, gs)
  with jax.checking_leaks():
    jus, js, jq = catalog.run(e, opt, p, gs, state=jax.jit(opt.init)(p),
                              update=jax.jit(opt.update))
  _agree(ctx, (jus, js, jq), (us, s, q), p, 'compiled beside eager')
  ctx.count('jit')
  sg = _stack(gs)
  with jax.checking_leaks():
    lus, ls, lq = jax.jit(lambda p, g: _loop(opt, p, opt.init(p), g))(p, sg)
  _agree(ctx, (_unstack(lus, n), ls, lq), (us, s, q), p,
         'compiled loop beside eager')
  ctx.count('scan')
  # Independent models in one batch.
  models = [(p, gs, (us, s, q), p)]
  for _ in range(2):
    _, p2, gs2 = catalog.problem(ctx, e, kind, steps=n, style=ctx.pick(STYLES))
    models.append((p2, gs2, catalog.run(e, opt, p2, gs2), p2))
  bp = _stack([m[0] for m in models])
  bs = jax.vmap(opt.init)(bp)
  upd = jax.vmap(opt.update)
  if ctx.coin():
    upd = jax.jit(upd)
  bus = []
  for t in range(n):
    u, bs = upd(_stack([m[1][t] for m in models]), bs, bp)
    bp = work.add(bp, u)
    bus.append(u)
  for i, (_, _, want, q0) in enumerate(models):
    _agree(ctx, tree_map(lambda x: x[i], (bus, bs, bp)), want, q0,
           f'batched beside single, model {i}')
  ctx.count('vmap')
  ctx.seen(name, kind, seed)
  ctx.sample(transform=name, tree=kind)


@scenario(env='x64', quick=98, thorough=980)
def transformations(ctx):
  _modes(ctx, ctx.cycle(NAMES))


@scenario(env='x32', quick=49, thorough=490)
def transformations32(ctx):
  _modes(ctx, ctx.cycle(NAMES))


@scenario(env='x64', quick=98, thorough=980)
def special_values(ctx):
  """Huge, tiny, zero and non-finite steps, in any order, eagerly and compiled."""
  name = ctx.cycle(NAMES)
  e = catalog.CATALOG[name]
  n = 5
  kind, p, gs = catalog.problem(ctx, e, steps=n, style='normal')
  seed = int(ctx.rng.integers(1000))
  script = [ctx.pick(['huge', 'vast', 'tiny', 'zero', 'nan', 'inf', 'one_nan',
                      'normal', 'ones']) for _ in range(n)]
  if ctx.rep % 2:
    script = [x for x in script if x not in ('nan', 'inf', 'one_nan')] or ['huge']

  def turn(g, how):
    k = [0]

    def leaf(x):
      k[0] += 1
      x = np.array(x, copy=True)
      if how == 'one_nan':
        if k[0] == 1 and x.size:
          x.reshape(-1)[0] = np.nan
        return x
      c = {'huge': 1e8, 'vast': 1e20, 'tiny': 1e-12, 'zero': 0., 'nan': np.nan,
           'inf': np.inf, 'normal': 1.}.get(how)
      return np.ones_like(x) if c is None else x * c
    return tree_map(leaf, g)
  gs = [turn(g, how) for g, how in zip(gs, script)]
  ctx.describe(transform=name, tree=kind, hp_seed=seed, script=script)
  opt = e.build(seed)
  us, s, _ = catalog.run(e, opt, p, gs, apply=False)
  jus, js, _ = catalog.run(e, opt, p, gs, update=jax.jit(opt.update), apply=False)
  for t, (a, b) in enumerate(zip(jus, us)):
    ctx.close(a, b, f'compiled update {t} ({script[t]})', rtol=2e-5,
              scale=_peak(b))
  ctx.close(js, s, 'compiled state', rtol=2e-5, scale=_peak(s))
  ctx.count('special steps', n)


@scenario(env='x64d', quick=49, thorough=490)
def devices(ctx):
  """Replicas on four devices, and one model spread over four devices."""
  name = ctx.cycle(NAMES)
  e = catalog.CATALOG[name]
  n, k = 3, jax.device_count()
  ctx.ok(k == 4, 'four devices')
  kind, p, gs = catalog.problem(ctx, e, steps=n, style=ctx.pick(STYLES))
  seed = int(ctx.rng.integers(1000))
  ctx.describe(transform=name, tree=kind, hp_seed=seed)
  opt = e.build(seed)
  if name == 'scale_by_trust_ratio':
    opt = optax.chain(opt, optax.scale(.37))
  models = [(p, gs, catalog.run(e, opt, p, gs))]
  for _ in range(k - 1):
    _, p2, gs2 = catalog.problem(ctx, e, kind, steps=n, style=ctx.pick(STYLES))
    models.append((p2, gs2, catalog.run(e, opt, p2, gs2)))
  bp = _stack([m[0] for m in models])
  bs = jax.pmap(opt.init)(bp)
  step = jax.pmap(opt.update)
  us = []
  for t in range(n):
    u, bs = step(_stack([m[1][t] for m in models]), bs, bp)
    bp = work.add(bp, u)
    us.append(u)
  for i, (q0, _, want) in enumerate(models):
    _agree(ctx, tree_map(lambda x: np.asarray(x)[i], (us, bs, bp)), want, q0,
           f'device {i} beside one device')
  ctx.count('devices', k)
  # One model, its leaves cut along an axis wherever that divides.
  mesh = jax.sharding.Mesh(np.array(jax.devices()), ('d',))

  def spread(x):
    x = jnp.asarray(x)
    axes = [('d' if s % k == 0 and s and i == next(
        (j for j, v in enumerate(x.shape) if v % k == 0), -1) else None)
            for i, s in enumerate(x.shape)]
    return jax.device_put(x, jax.sharding.NamedSharding(
        mesh, jax.sharding.PartitionSpec(*axes)))
  # Outputs are gathered, then spread again: jax cannot cut every result.
  whole = dict(out_shardings=jax.sharding.NamedSharding(
      mesh, jax.sharding.PartitionSpec()))
  q = tree_map(spread, p)
  s = jax.jit(opt.init, **whole)(q)
  step, add = jax.jit(opt.update, **whole), jax.jit(work.add, **whole)
  us = []
  for g in gs:
    u, s = step(tree_map(spread, g), tree_map(spread, s), q)
    q = tree_map(spread, add(q, u))
    us.append(u)
  _agree(ctx, (us, s, q), models[0][2], p, 'spread over devices')
  ctx.count('spread models')


@scenario(env='x64', quick=49, thorough=490, cost=.5)
def interpreted(ctx):
  """With compilation switched off, control flow included."""
  name = ctx.cycle(NAMES)
  e = catalog.CATALOG[name]
  kind, p, gs = catalog.problem(ctx, e, kind=ctx.pick(catalog.kinds_for(
      [name], ['vector', 'matrix_bias', 'nested', 'holes', 'custom', 'ordered'])),
                                steps=3, style=ctx.pick(STYLES))
  seed = int(ctx.rng.integers(1000))
  ctx.describe(transform=name, tree=kind, hp_seed=seed)
  opt = e.build(seed)
  if name == 'scale_by_trust_ratio':
    opt = optax.chain(opt, optax.scale(.37))
  us, s, q = catalog.run(e, opt, p, gs)
  with jax.disable_jit():
    got = catalog.run(e, opt, p, gs)
  _agree(ctx, got, (us, s, q), p, 'interpreted beside compiled')
  ctx.count('interpreted')


def _peak(t):
  """The largest finite magnitude of each leaf, as its scale."""
  def leaf(x):
    x = np.abs(np.asarray(x).astype(np.float64))
    x = x[np.isfinite(x)]
    return np.asarray(max(1e-12, x.max(initial=0.)))
  return tree_map(leaf, t)


def _schedules(r):
  return {
      'constant': optax.constant_schedule(.3),
      'linear': optax.linear_schedule(1., .1, 13, 3),
      'polynomial': optax.polynomial_schedule(1., .1, 2.5, 13, 3),
      'piecewise_constant': optax.piecewise_constant_schedule(
          1., {3: .5, 7: 2., 20: .1}),
      'exponential': optax.exponential_decay(1., 4, .7, 2, False, .1),
      'staircase': optax.exponential_decay(1., 4, .7, 2, True, .1),
      'cosine': optax.cosine_decay_schedule(1., 17, .1),
      'interpolate_linear': optax.piecewise_interpolate_schedule(
          'linear', 1., {3: .5, 7: 2., 20: .1}),
      'interpolate_cosine': optax.piecewise_interpolate_schedule(
          'cosine', 1., {3: .5, 7: 2., 20: .1}),
      'onecycle_linear': optax.linear_onecycle_schedule(20, 1.),
      'onecycle_cosine': optax.cosine_onecycle_schedule(20, 1.),
      'warmup_cosine': optax.warmup_cosine_decay_schedule(0., 1., 4, 20, .1),
      'warmup_exponential': optax.warmup_exponential_decay_schedule(
          0., 1., 4, 5, .7, 1, True, .05),
      'join': optax.join_schedules([optax.linear_schedule(0., 1., 4),
                                    optax.constant_schedule(.7),
                                    optax.exponential_decay(.7, 3, .5)], [4, 9]),
      'sgdr': optax.sgdr_schedule([
          dict(init_value=0., peak_value=1., warmup_steps=2, decay_steps=7),
          dict(init_value=.1, peak_value=.5, warmup_steps=3, decay_steps=9)]),
  }


def _check_schedule(ctx):
  name, f = list(_schedules(ctx.rng).items())[ctx.rep % 15]
  ctx.describe(schedule=name)
  counts = np.concatenate([np.arange(0, 30),
                           ctx.rng.integers(30, 300, 8),
                           ctx.rng.integers(300, 2**31 - 1, 8)])
  want = [float(f(jnp.asarray(int(c), jnp.int32))) for c in counts]
  tol = dict(rtol=2e-5, atol=1e-6)
  ctx.close([float(f(int(c))) for c in counts], want, 'python counts', **tol)
  ctx.close([float(f(np.int32(c))) for c in counts], want, 'numpy counts', **tol)
  with jax.checking_leaks():
    j = jax.jit(lambda c: jnp.asarray(f(c), F))
    ctx.close([float(j(int(c))) for c in counts], want, 'compiled', **tol)
  v = jax.vmap(lambda c: jnp.asarray(f(c), F))(jnp.asarray(counts, jnp.int32))
  ctx.close(list(np.asarray(v, np.float64)), want, 'batched', **tol)
  _, s = jax.lax.scan(lambda c, _: (c + 1, jnp.asarray(f(c), F)),
                      jnp.zeros([], jnp.int32), None, length=30)
  ctx.close(list(np.asarray(s, np.float64)), want[:30], 'looped', **tol)
  ctx.count('schedules')


@scenario(env='x32', quick=15, thorough=60)
def schedules(ctx):
  _check_schedule(ctx)


@scenario(env='x64', quick=15, thorough=60)
def schedules64(ctx):
  _check_schedule(ctx)


@scenario(env='x64', quick=26, thorough=260)
def functions(ctx):
  """Losses and tree utilities: eager, jit, vmap over a leading axis."""
  r = ctx.rng
  n, k = 5, 4
  x, y = r.normal(size=(n, k)) * 3, r.normal(size=(n, k))
  lab = np.eye(k)[r.integers(0, k, n)]
  m = r.normal(size=(n, k, k))
  psd = m @ np.swapaxes(m, 1, 2) + np.eye(k)
  st = r.integers(0, 9, n)
  table = [
      ('l2_loss', optax.l2_loss, (x, y)),
      ('huber_loss', lambda a, b: optax.huber_loss(a, b, .7), (x, y)),
      ('smooth_labels', lambda a: optax.smooth_labels(a, .2), (lab,)),
      ('sigmoid_ce', optax.sigmoid_binary_cross_entropy, (x, lab)),
      ('softmax_ce', optax.softmax_cross_entropy, (x, lab)),
      ('cosine_similarity', optax.cosine_similarity, (x, y)),
      ('cosine_distance', optax.cosine_distance, (x, y)),
      ('apply_updates', lambda a, b: optax.apply_updates({'u': a}, {'u': b}),
       (x, y)),
      ('incremental_update', lambda a, b: optax.incremental_update(
          [a], [b], .3), (x, y)),
      ('periodic_update', lambda a, b, s: optax.periodic_update([a], [b], s, 3),
       (x, y, st)),
      ('global_norm', lambda a, b: optax.global_norm({'a': a, 'b': [b]}), (x, y)),
      ('matrix_inverse_pth_root', lambda a: optax.matrix_inverse_pth_root(
          a, 3)[0], (psd,)),
      ('power_iteration', lambda a: optax.power_iteration(
          a, 2000, 1e-12)[1], (psd,)),
  ]
  name, fn, args = table[ctx.rep % len(table)]
  ctx.describe(function=name)
  args = [jnp.asarray(a) for a in args]
  rows = [[a[i] for a in args] for i in range(n)]
  want = [fn(*row) for row in rows]
  tol = dict(rtol=1e-9, atol=1e-10)
  if name in ('matrix_inverse_pth_root', 'power_iteration'):
    tol = dict(rtol=1e-4, atol=1e-4)
  with jax.checking_leaks():
    j = jax.jit(fn)
    ctx.close([j(*row) for row in rows], want, 'compiled', **tol)
  v = jax.vmap(fn)(*args)
  ctx.close([tree_map(lambda a: a[i], v) for i in range(n)], want, 'batched',
            **tol)
  ctx.count('functions')
