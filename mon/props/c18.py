"""C18: masked transforms exactly the selected parameters."""
import numpy as np

from mon import catalog, core, half, seq, spies, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Random masks, complete and prefix, given as trees and as functions, '
        'wrap probes and library transformations; selected leaves are '
        'compared with running the inner transformation on them alone, the '
        'others must pass bit-identical, and a probe logs what the inner '
        'transformation was shown.')
ASSUMPTIONS = ['Masks are prefixes of the parameter tree.']
MIN_EVALS = 2500
MIN_DISTINCT = 400
MIN_COUNTERS = {'masked steps': 300}


def _subtrees(t):
  """Children of a container node, with its rebuilder; None for a leaf."""
  leaves, d = jax.tree_util.tree_flatten(t, is_leaf=lambda x: x is not t)
  if len(leaves) == 1 and leaves[0] is t:
    return None
  return leaves, d


def random_mask(ctx, t, prefix, p_on):
  """A mask over t; with `prefix`, whole subtrees are decided at once."""
  sub = _subtrees(t)
  if sub is None or (prefix and ctx.coin(.3) and tree_leaves(t)):
    on = bool(ctx.rng.random() < p_on)
    # Booleans come from Python and from numpy.
    return ctx.pick([on, on, np.bool_(on), np.array(on)])
  kids, d = sub
  return d.unflatten([random_mask(ctx, k, prefix, p_on) for k in kids])


def expand(mask, t):
  """One flag per leaf of t."""
  return tree_leaves(tree_map(lambda m, s: tree_map(lambda _: m, s), mask, t))


def select(flags, xs):
  return [x for f, x in zip(flags, xs) if f]


@scenario(env='x64', quick=90, thorough=1200)
def probe(ctx):
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  prefix = ctx.coin(.4)
  on = ctx.pick([.5, .5, .2, .8, 1., 0.])
  mask = random_mask(ctx, p, prefix, on)
  flags = expand(mask, p)
  how = ctx.pick(['tree', 'function'])
  calls = []

  def fn(t):
    calls.append(tree_structure(t))
    return mask
  with_params = ctx.coin(.7)
  ctx.describe(tree=kind, flags=flags, given_as=how, prefix=prefix)
  opt = optax.masked(spies.probe(), mask if how == 'tree' else fn)
  upd = jax.jit(opt.update) if ctx.coin(.7) else opt.update
  state = opt.init(p)
  P = seq.leaves64(p)
  model = spies.ProbeModel(select(flags, P))
  sizes = [np.shape(x) for x in tree_leaves(state.inner_state['m'])]
  ctx.ok(sizes == [np.shape(x) for x in select(flags, P)],
         'state is kept for the selected parameters only', got=sizes)
  for t, g in enumerate(work.grad_history(ctx, p, 4)):
    P = seq.leaves64(p)
    u, state = upd(work.to_jax(g), state, *([p] if with_params else []))
    ctx.structure(u, g, f'updates at {t}')
    G, U = seq.leaves64(g), tree_leaves(u)
    want = model.step(select(flags, G), select(flags, P) if with_params else None)
    ctx.close(select(flags, U), want, f'selected updates at {t}', rtol=1e-10,
              scale=1.)
    off = [not f for f in flags]
    ctx.same(select(off, U), select(off, tree_leaves(g)),
             f'unselected updates at {t}')
    model.check(ctx, state.inner_state, f'step {t}')
    ctx.count('masked steps')
    ctx.seen(kind, tuple(flags), t, ctx.rep)
    p = work.add(p, tree_map(lambda x: .1 * jnp.tanh(x), u))
  ctx.ok(all(c == tree_structure(p) for c in calls),
         'structure shown to the mask function')


INNER = ['adam', 'sgd', 'adamw', 'trace', 'ema', 'add_decayed_weights', 'lamb',
         'clip', 'clip_by_global_norm', 'scale_by_trust_ratio', 'centralize',
         'scale_by_rms', 'fromage', 'sm3', 'apply_every', 'chain', 'deep',
         'multi_steps', 'zero_nans', 'adaptive_grad_clip', 'inject_hyperparams',
         'flatten', 'maybe_update']


@scenario(env='x64', quick=69, thorough=900)
def library(ctx):
  """Selected leaves train as if they were the whole model."""
  name = ctx.cycle(INNER)
  e = catalog.CATALOG[name]
  kind = ctx.pick([k for k in catalog.kinds_for([name]) if k not in ('vector', 'scalar')])
  p = work.params(ctx, kind)
  while True:
    flags = [ctx.coin(.6) for _ in tree_leaves(p)]
    if any(f and x.size for f, x in zip(flags, tree_leaves(p))):
      break
  mask = tree_structure(p).unflatten(flags)
  seed = int(ctx.rng.integers(1000))
  ctx.describe(inner=name, tree=kind, flags=flags)
  opt, inner = optax.masked(e.build(seed), mask), e.build(seed)
  sub = select(flags, tree_leaves(p))
  s1, s2 = opt.init(p), inner.init(sub)
  u1, u2 = jax.jit(opt.update), jax.jit(inner.update)
  for t, g in enumerate(work.grad_history(ctx, p, 4, 'normal')):
    g = work.to_jax(g)
    a, s1 = u1(g, s1, p)
    b, s2 = u2(select(flags, tree_leaves(g)), s2, select(flags, tree_leaves(p)))
    ctx.close(select(flags, tree_leaves(a)), tree_leaves(b),
              f'selected leaves at {t}', rtol=1e-9, atol=1e-13)
    off = [not f for f in flags]
    ctx.same(select(off, tree_leaves(a)), select(off, tree_leaves(g)),
             f'other leaves at {t}')
    ctx.close(tree_leaves(s1), tree_leaves(s2), f'state at {t}', rtol=1e-9,
              atol=1e-13)
    ctx.count('masked steps')
    p = work.add(p, a)


@scenario(env='x64', quick=30, thorough=300)
def partition(ctx):
  """Complementary masks in a chain split the model between two optimisers."""
  kind = ctx.pick([k for k in work.KINDS if k not in ('vector', 'scalar')])
  p = work.params(ctx, kind)
  by = ctx.pick(['ndim', 'size'])
  test = ((lambda x: x.ndim > 1) if by == 'ndim' else (lambda x: x.size > 3))
  a, b = optax.adam(.1), optax.sgd(.01, .9)
  on = lambda t: tree_map(lambda x: bool(test(x)), t)
  off = lambda t: tree_map(lambda x: not test(x), t)
  opt = optax.chain(optax.masked(a, on), optax.masked(b, off))
  flags = tree_leaves(on(p))
  nflags = [not f for f in flags]
  ctx.describe(tree=kind, by=by)
  s = opt.init(p)
  sa = a.init(select(flags, tree_leaves(p)))
  sb = b.init(select(nflags, tree_leaves(p)))
  upd = jax.jit(opt.update)
  for t, g in enumerate(work.grad_history(ctx, p, 4)):
    g = work.to_jax(g)
    u, s = upd(g, s, p)
    ua, sa = a.update(select(flags, tree_leaves(g)), sa)
    ub, sb = b.update(select(nflags, tree_leaves(g)), sb)
    ctx.close(select(flags, tree_leaves(u)), ua, f'first part at {t}', rtol=1e-9,
              atol=1e-13)
    ctx.close(select(nflags, tree_leaves(u)), ub, f'second part at {t}', rtol=1e-9,
              atol=1e-13)
    ctx.count('masked steps')


@scenario(env='x64', quick=16, thorough=160)
def falsy_params(ctx):
  """Params reach the inner transformation whatever their values are."""
  kind = ctx.cycle(['scalar', 'matrix_bias', 'vector', 'many'])
  p = tree_map(jnp.zeros_like, work.params(ctx, kind))
  mask = tree_map(lambda _: True, p)
  opt = optax.masked(spies.probe(), mask)
  model = spies.ProbeModel(seq.leaves64(p))
  s = opt.init(p)
  ctx.describe(tree=kind)
  for q in (p, tree_map(jnp.ones_like, p)):
    for g in work.grad_history(ctx, p, 2):
      u, s = opt.update(work.to_jax(g), s, q)
      ctx.close(tree_leaves(u), model.step(seq.leaves64(g), seq.leaves64(q)),
                'update', rtol=1e-10, scale=1.)
      ctx.count('masked steps')


@scenario(env='x32', quick=16, thorough=160)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  which = int(ctx.pick([0, 1]))

  def mask(tree):
    leaves, d = jax.tree_util.tree_flatten(tree)
    return d.unflatten([i % 2 == which for i in range(len(leaves))])
  half.agree(ctx, {'scale': lambda: optax.masked(optax.scale(-.5), mask),
                   'trace': lambda: optax.masked(optax.trace(.5), mask)})
