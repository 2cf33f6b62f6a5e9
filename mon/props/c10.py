"""C10: chain composes transformations in order with private states."""
import numpy as np

from mon import catalog, core, half, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Chains of recording spies and of library transformations, flat and '
        'nested, are driven over histories; an event log checks that each '
        'member is initialised and updated exactly once per call, in order, '
        'with its predecessor\'s output, its own state and the caller\'s '
        'params, and outputs are compared with composing the members by hand.')
ASSUMPTIONS = ['Chains have at least one member.']
MIN_EVALS = 2000
MIN_DISTINCT = 300
MIN_COUNTERS = {'spy calls': 1500}


def spy(log, i, a, b, c):
  """u -> a*u + b*state + c*params; state counts and accumulates."""
  def init(p):
    log.append(('init', i, p))
    return {'id': i, 'n': 0, 'm': tree_map(lambda x: np.zeros(np.shape(x)), p)}

  def update(u, s, p=None):
    log.append(('update', i, u, s, p))
    m = tree_map(lambda m, x: .5 * m + np.asarray(x), s['m'], u)
    out = tree_map(lambda x, y: a * np.asarray(x) + b * y, u, m)
    if p is not None:
      out = tree_map(lambda x, w: x + c * np.asarray(w), out, p)
    out = tree_map(np.asarray, out)
    log.append(('out', i, out))
    return out, {'id': i, 'n': s['n'] + 1, 'm': m}
  return optax.GradientTransformation(init, update)


def _nest(ctx, members, depth=0):
  """A random bracketing of the members, as chains of chains."""
  if len(members) == 1:
    return members[0] if ctx.coin() or depth == 0 else optax.chain(members[0])
  if depth > 2 or ctx.coin(.3):
    return optax.chain(*members)
  cut = int(ctx.rng.integers(1, len(members)))
  return optax.chain(_nest(ctx, members[:cut], depth + 1),
                     _nest(ctx, members[cut:], depth + 1))


@scenario(env='x64', quick=120, thorough=1200)
def spies(ctx):
  n = 1 + ctx.rep % 7
  log = []
  co = [(float(ctx.rng.normal()), float(ctx.rng.normal()), float(ctx.rng.normal()))
        for _ in range(n)]
  members = [spy(log, i, *co[i]) for i in range(n)]
  nested = ctx.coin() and n > 1
  opt = _nest(ctx, members) if nested else optax.chain(*members)
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  with_params = ctx.coin(.7)
  ctx.describe(members=n, nested=nested, tree=kind, params=with_params)
  state = opt.init(p)
  ctx.ok([e[:2] for e in log] == [('init', i) for i in range(n)],
         'order of initialisation', got=[e[:2] for e in log])
  ctx.ok(all(e[2] is p for e in log), 'params seen by init')
  if not nested:
    ctx.ok(len(state) == n, 'one state per member', got=len(state))
  gs = work.grad_history(ctx, p, 5)
  # The same members composed by hand.
  hand = [m.init(p) for m in members]
  for t, g in enumerate(gs):
    del log[:]
    u, state = (opt.update(g, state, p) if with_params else opt.update(g, state))
    ev = list(log)
    ctx.count('spy calls', n)
    ctx.ok([e[:2] for e in ev] == [(k, i) for i in range(n)
                                   for k in ('update', 'out')],
           f'order of updates at step {t}', got=[e[:2] for e in ev])
    cur = g
    for i in range(n):
      _, _, saw, s, q = ev[2 * i]
      ctx.same(saw, cur, f'input of member {i} at step {t}')
      ctx.ok(s['id'] == i and s['n'] == t, f'state of member {i} at step {t}',
             got=(s['id'], s['n']))
      ctx.ok((q is None) == (not with_params), f'params of member {i}', got=q)
      if q is not None:
        ctx.same(q, p, f'params of member {i} at step {t}')
      cur = ev[2 * i + 1][2]
    ctx.same(u, cur, f'output of the chain at step {t}')
    ref = g
    for i, m in enumerate(members):
      ref, hand[i] = m.update(ref, hand[i], p if with_params else None)
    ctx.same(u, ref, f'composition by hand at step {t}')
    p = work.add(p, tree_map(lambda x: .1 * np.tanh(x), u))


ORDINARY = [n for n, e in catalog.CATALOG.items()
            if not (e.per_example or e.lookahead or e.nonneg)]


@scenario(env='x64', quick=60, thorough=600)
def library(ctx):
  """Chains of library members equal composing them by hand."""
  k = 2 + ctx.rep % 4
  names = [ctx.pick(ORDINARY) for _ in range(k - 1)] + [ctx.cycle(ORDINARY)]
  ctx.rng.shuffle(names)
  names = [str(n) for n in names]
  members = [catalog.CATALOG[n].build(int(ctx.rng.integers(1000))) for n in names]
  if ctx.coin(.3):  # the same object again, right after itself
    at = int(ctx.rng.integers(k))
    members.insert(at, members[at])
    names.insert(at, names[at])
  kind = ctx.pick(catalog.kinds_for(names))
  p = work.params(ctx, kind)
  gs = work.grad_history(ctx, p, 4)
  nested = ctx.coin()
  opt = _nest(ctx, members) if nested else optax.chain(*members)
  ctx.describe(members=names, tree=kind, nested=nested)
  state = opt.init(p)
  hand = [m.init(p) for m in members]
  ctx.same(tree_leaves(state), tree_leaves(hand), 'initial states')
  for t, g in enumerate(gs):
    g = work.to_jax(g)
    u, state = opt.update(g, state, p)
    ref = g
    for i, m in enumerate(members):
      ref, hand[i] = m.update(ref, hand[i], p)
    ctx.same(u, ref, f'chain beside composition at step {t}')
    ctx.same(tree_leaves(state), tree_leaves(hand), f'states after step {t}')
    p = work.add(p, u)
  ctx.count('library chains')
  ctx.seen(*names, kind)


@scenario(env='x32', quick=40, thorough=400)
def bracketing(ctx):
  """Compiled: any bracketing, and identities in between, change nothing."""
  k = 3 + ctx.rep % 3
  names = [str(ctx.pick(ORDINARY)) for _ in range(k)]
  seeds = [int(ctx.rng.integers(1000)) for _ in names]
  mk = lambda: [catalog.CATALOG[n].build(s) for n, s in zip(names, seeds)]
  kind = ctx.pick(catalog.kinds_for(names))
  p = work.params(ctx, kind)
  gs = work.grad_history(ctx, p, 3, ctx.pick(['normal', 'integers', 'sparse']))
  ctx.describe(members=names, tree=kind)
  flat = optax.chain(*mk())
  ms = mk()
  at = int(ctx.rng.integers(len(ms) + 1))
  ms.insert(at, optax.identity())
  other = _nest(ctx, ms)
  s1, s2 = flat.init(p), other.init(p)
  for t, g in enumerate(gs):
    g = work.to_jax(g)
    u1, s1 = flat.update(g, s1, p)
    u2, s2 = other.update(g, s2, p)
    ctx.same(u2, u1, f'bracketing at step {t}')
    ctx.same(tree_leaves(s2), tree_leaves(s1), f'states at step {t}')
    p = work.add(p, u1)
  ctx.count('bracketings')


@scenario(env='x64', quick=30, thorough=240)
def shared_member(ctx):
  """The same transformation object used twice keeps two states."""
  name = ctx.cycle(['trace', 'scale_by_adam', 'ema', 'scale_by_rms', 'adam',
                    'apply_every', 'scale_by_schedule', 'multi_steps',
                    'inject_hyperparams', 'flatten'])
  e = catalog.CATALOG[name]
  m = e.build(int(ctx.rng.integers(1000)))
  kind = ctx.pick(work.KINDS)
  p = work.params(ctx, kind)
  gs = work.grad_history(ctx, p, 4)
  ctx.describe(member=name, tree=kind)
  opt = optax.chain(m, optax.scale(2.), m)
  s = opt.init(p)
  h1, h2 = m.init(p), m.init(p)
  for t, g in enumerate(gs):
    g = work.to_jax(g)
    u, s = opt.update(g, s, p)
    r, h1 = m.update(g, h1, p)
    r, h2 = m.update(tree_map(lambda x: 2. * x, r), h2, p)
    ctx.close(u, r, f'twice the same member, step {t}', rtol=1e-9, atol=1e-12)
    ctx.close([tree_leaves(s[0]), tree_leaves(s[2])],
              [tree_leaves(h1), tree_leaves(h2)], f'states, step {t}',
              rtol=1e-9, atol=1e-12)
  ctx.count('shared members')


@scenario(env='x64', quick=40, thorough=400)
def repeated(ctx):
  """Every occurrence of a member counts: initialised, updated, applied."""
  log = []
  inits = [0]

  def member(i, a):
    def init(p):
      inits[0] += 1
      log.append(('init', i, inits[0]))
      return {'serial': inits[0], 'n': 0}

    def update(u, s, p=None):
      log.append(('update', i, s['serial'], s['n']))
      return tree_map(lambda x: a * np.asarray(x) + s['n'], u), dict(s, n=s['n'] + 1)
    return optax.GradientTransformation(init, update)

  pool = [member(i, a) for i, a in enumerate([1.5, -.5, 2.])]
  n = int(ctx.rng.integers(2, 7))
  order = [int(ctx.rng.integers(3)) for _ in range(n)]
  if ctx.coin():
    order = sorted(order)  # neighbours repeat
  opt = (optax.chain(*[pool[i] for i in order]) if ctx.coin() or n < 2
         else _nest(ctx, [pool[i] for i in order]))
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  ctx.describe(order=order, tree=kind)
  s = opt.init(p)
  ctx.ok(log == [('init', i, k + 1) for k, i in enumerate(order)],
         'one initialisation for each occurrence', got=log)
  for t, g in enumerate(work.grad_history(ctx, p, 4)):
    del log[:]
    u, s = opt.update(g, s, p)
    ctx.ok(log == [('update', i, k + 1, t) for k, i in enumerate(order)],
           f'one update with its own state for each occurrence at {t}', got=log)
    want = g
    for i in order:
      want = tree_map(lambda x: (1.5, -.5, 2.)[i] * np.asarray(x) + t, want)
    ctx.same(u, want, f'output at {t}')
    ctx.count('spy calls', n)
  # Stateless library members in a row.
  k = int(ctx.rng.integers(2, 5))
  mk = ctx.cycle([lambda: optax.scale(.5), lambda: optax.add_decayed_weights(.25),
                  lambda: optax.centralize(), lambda: optax.clip(.75),
                  lambda: optax.scale_by_schedule(lambda c: .5 + c),
                  lambda: optax.identity()])
  one = mk()
  row = [one] * k if ctx.coin() else [mk() for _ in range(k)]
  opt = optax.chain(*row)
  s, hand = opt.init(p), [m.init(p) for m in row]
  ctx.ok(len(s) == k, 'one state per member', got=len(s))
  for t, g in enumerate(work.grad_history(ctx, p, 3)):
    g = work.to_jax(g)
    u, s = opt.update(g, s, p)
    for i, m in enumerate(row):
      g, hand[i] = m.update(g, hand[i], p)
    ctx.same(u, g, f'{k} members in a row at {t}')


@scenario(env='x64', quick=24, thorough=240)
def odd_states(ctx):
  """Whatever a member returns as its state is what it is handed next."""
  pool = [lambda: None, tuple, list, dict, lambda: 0, lambda: '', lambda: False,
          lambda: np.zeros(0), lambda: np.zeros(()), object, lambda: (None,),
          lambda: jnp.zeros(2), lambda: {'a': None}]
  n = int(ctx.rng.integers(1, 6))
  log = []

  def member(i):
    script = [ctx.pick(pool)() for _ in range(6)]

    def update(u, s, p=None):
      t = int(round(float(np.asarray(tree_leaves(p)[0]).ravel()[0])))
      log.append(s is script[t])
      return u, script[t + 1]
    return optax.GradientTransformation(lambda p: script[0], update)

  opt = optax.chain(*[member(i) for i in range(n)])
  ctx.describe(members=n)
  s = opt.init({'t': np.zeros(3)})
  for t in range(5):
    del log[:]
    g = {'t': ctx.rng.normal(size=3)}
    u, s = opt.update(g, s, {'t': np.full(3, float(t))})
    ctx.ok(log == [True] * n, f'states handed back at {t}', got=log)
    ctx.same(u, g, f'updates at {t}')
    ctx.count('spy calls', n)


@scenario(env='x32', quick=20, thorough=200)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  half.agree(ctx, {
      'simple': lambda: optax.chain(optax.trace(.5), optax.scale(-.5)),
      'nested': lambda: optax.chain(optax.chain(optax.add_decayed_weights(.5)),
                                    optax.chain(optax.scale(2.), optax.ema(.5)))})
