"""C09: a parameter's updates depend only on what they should."""
import numpy as np

from mon import catalog, core, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('For every transformation, runs that differ in one coordinate, one '
        'leaf, the container or the grouping of the parameters are compared '
        'by an interference monitor: element-wise rules must leave all other '
        'coordinates bit-identical, leaf-wise rules all other leaves, and no '
        'rule may see the container.')
ASSUMPTIONS = ['Transformations that combine leaves by design (global norm '
               'clipping, noise drawn per tree, rejection of non-finite '
               'gradients) are exempt from isolation and judged on '
               'container independence.']
MIN_EVALS = 2500
MIN_DISTINCT = 300
NAMES = catalog.NAMES
ELEMENT = [n for n, e in catalog.CATALOG.items() if e.locality == 'element']
LOCAL = [n for n, e in catalog.CATALOG.items() if e.locality != 'global']
TOL = dict(rtol=1e-9, atol=1e-12) if X64 else dict(rtol=1e-3, atol=1e-5)
MULTI = [k for k in work.KINDS if k not in ('vector', 'scalar')]
# The masks of these entries go by rank, not by value: still element-wise.


def _flat(p, lookahead):
  return tree_leaves(p.fast) if lookahead else tree_leaves(p)


def _setup(ctx, name, kind=None, steps=5):
  e = catalog.CATALOG[name]
  if kind is MULTI:
    kind = ctx.pick(catalog.kinds_for([name], MULTI))
  kind, p, gs = catalog.problem(ctx, e, kind, steps=steps,
                                style=ctx.pick(work.GRAD_STYLES))
  seed = int(ctx.rng.integers(1000))
  ctx.describe(transform=name, tree=kind, hp_seed=seed)
  return e, seed, kind, p, gs


def _run(e, seed, p, gs, update=None):
  opt = e.build(seed)
  us, s, q = catalog.run(e, opt, p, gs, update=update or jax.jit(opt.update))
  return us, s, q


def _per_leaf(us, e, i):
  return [tree_leaves(u.fast if e.lookahead else u)[i] for u in us]


@scenario(env='x64', quick=78, thorough=800)
def coordinate(ctx):
  """Changing one coordinate's history leaves every other one alone."""
  e, seed, kind, p, gs = _setup(ctx, ctx.cycle(ELEMENT))
  opt = e.build(seed)
  upd = jax.jit(opt.update)
  leaves = _flat(p, e.lookahead)
  cand = [i for i, l in enumerate(leaves) if l.size]
  i = ctx.pick(cand)
  j = int(ctx.rng.integers(leaves[i].size))
  new = float(ctx.rng.normal() * ctx.pick([1., 100., 1e-3, 1e9, 0.]))
  if ctx.rep % 3 == 1:
    new = ctx.pick([np.nan, np.inf, -np.inf])

  def poke(x, k, val):
    if k != i:
      return x
    y = np.array(x, copy=True).reshape(-1)
    y[j] = val
    return y.reshape(np.shape(x))

  def poke_tree(t, val):
    ls, d = jax.tree_util.tree_flatten(t)
    return d.unflatten([poke(l, k, val) for k, l in enumerate(ls)])

  a = catalog.run(e, opt, p, gs, update=upd)
  # Sometimes a single bad step, sometimes every step.
  when = ctx.pick([None, 0, 1, 3])
  gs2 = [poke_tree(g, new * (t + 1)) if when in (None, t) else g
         for t, g in enumerate(gs)]
  p2 = p
  if ctx.coin():
    if e.lookahead:
      p2 = optax.LookaheadParams.init_synced(work.to_jax(poke_tree(p.fast, abs(new))))
    elif np.isfinite(new) or not e.nonneg:
      p2 = work.to_jax(poke_tree(p, abs(new)))
  b = catalog.run(e, opt, p2, gs2, update=upd)
  ctx.describe(leaf=i, coordinate=j, value=new, when=when)
  for k in range(len(leaves)):
    for what, get in (('update', lambda r: r[0]), ('final params', lambda r: [r[2]])):
      x = np.stack([np.asarray(v).reshape(-1) for v in _per_leaf(get(a), e, k)])
      y = np.stack([np.asarray(v).reshape(-1) for v in _per_leaf(get(b), e, k)])
      if k == i:
        x, y = np.delete(x, j, 1), np.delete(y, j, 1)
      ctx.same([y], [x], f'{what} of other coordinates, leaf {k}')
  ctx.count('perturbed histories')


@scenario(env='x64', quick=35, thorough=350)
def bad_neighbour(ctx):
  """A NaN or infinity in one coordinate stays there."""
  name = ctx.cycle(ELEMENT)
  e, seed, kind, p, gs = _setup(ctx, name, MULTI)
  opt = e.build(seed)
  upd = jax.jit(opt.update)
  leaves = _flat(p, e.lookahead)
  # All leaves with several elements have one bad one.
  bad = ctx.pick([np.nan, np.nan, np.inf, -np.inf])
  when = ctx.pick([0, 0, 2])
  at = [int(ctx.rng.integers(max(l.size, 1))) for l in leaves]

  def poke(t):
    ls, d = jax.tree_util.tree_flatten(t)
    out = []
    for l, j in zip(ls, at):
      y = np.array(l, copy=True).reshape(-1)
      if y.size > 1:
        y[j] = bad
      out.append(y.reshape(np.shape(l)))
    return d.unflatten(out)
  ctx.describe(bad=bad, when=when)
  a = catalog.run(e, opt, p, gs, update=upd)
  b = catalog.run(e, opt, p, [poke(g) if t == when else g for t, g in enumerate(gs)],
                  update=upd)
  for k in range(len(leaves)):
    x = np.stack([np.asarray(v).reshape(-1) for v in _per_leaf(a[0], e, k)])
    y = np.stack([np.asarray(v).reshape(-1) for v in _per_leaf(b[0], e, k)])
    if leaves[k].size > 1:
      x, y = np.delete(x, at[k], 1), np.delete(y, at[k], 1)
    ctx.same([y], [x], f'update of other coordinates, leaf {k}')
  ctx.count('bad neighbours')
  ctx.seen(name, kind, seed, bad)


@scenario(env='x64', quick=84, thorough=800)
def leaf(ctx):
  """Changing one leaf's history, to NaN even, leaves other leaves alone."""
  name = ctx.cycle(LOCAL)
  e, seed, kind, p, gs = _setup(ctx, name, MULTI)
  opt = e.build(seed)
  upd = jax.jit(opt.update)
  leaves = _flat(p, e.lookahead)
  i = ctx.pick([k for k, l in enumerate(leaves) if l.size])
  bad = ctx.pick([None, np.nan, np.inf, 0., 1e6])

  def swap(t):
    ls, d = jax.tree_util.tree_flatten(t)
    x = np.asarray(ls[i])
    ls[i] = (ctx.rng.normal(size=x.shape).astype(x.dtype) if bad is None
             else np.full(x.shape, bad, x.dtype))
    return d.unflatten(ls)

  a = catalog.run(e, opt, p, gs, update=upd)
  b = catalog.run(e, opt, p, [swap(g) for g in gs], update=upd)
  ctx.describe(leaf=i, value=bad)
  if name == 'flatten' and bad is not None and not np.isfinite(bad):
    pass  # element-wise inside, so still isolated
  for k in range(len(leaves)):
    if k != i:
      ctx.same(_per_leaf(b[0], e, k), _per_leaf(a[0], e, k),
               f'updates of leaf {k} when leaf {i} changes')
      ctx.same(_per_leaf([b[2]], e, k), _per_leaf([a[2]], e, k),
               f'params of leaf {k} when leaf {i} changes')
  ctx.count('perturbed histories')


@scenario(env='x64', quick=84, thorough=800)
def alone(ctx):
  """A leaf is updated the same in a tree as on its own."""
  name = ctx.cycle(LOCAL)
  e, seed, kind, p, gs = _setup(ctx, name, MULTI)
  us, _, q = _run(e, seed, p, gs)
  leaves = _flat(p, e.lookahead)
  i = ctx.pick([k for k, l in enumerate(leaves) if l.size])
  pi = leaves[i]
  if e.lookahead:
    pi = optax.LookaheadParams.init_synced(pi)
  gi = [tree_leaves(g)[i] for g in gs]
  vs, _, r = _run(e, seed, pi, gi)
  ctx.describe(leaf=i)
  ctx.close(_per_leaf(vs, e, 0), _per_leaf(us, e, i), 'updates of a leaf alone',
            **TOL)
  ctx.close(_per_leaf([r], e, 0), _per_leaf([q], e, i), 'params of a leaf alone',
            **TOL)
  ctx.count('leaves alone')


@scenario(env='x64', quick=98, thorough=980)
def containers(ctx):
  """Only the sequence of leaves matters, not the container."""
  e, seed, kind, p, gs = _setup(ctx, ctx.cycle(NAMES), MULTI)
  us, _, q = _run(e, seed, p, gs)
  form = ctx.pick(['list', 'tuple', 'dict', 'nested', 'frozen', 'haiku'])

  def regroup(ls):
    if form == 'list':
      return list(ls)
    if form == 'tuple':
      return tuple(ls)
    if form == 'dict':
      return {f'k{i:03d}': l for i, l in enumerate(ls)}
    if form == 'frozen':
      from flax.core import FrozenDict
      return FrozenDict({f'k{i:03d}': l for i, l in enumerate(ls)})
    if form == 'haiku':
      import haiku
      return haiku.data_structures.to_immutable_dict(
          {f'k{i:03d}': {'w': l} for i, l in enumerate(ls)})
    out = [ls[-1]]
    for l in reversed(ls[:-1]):
      out = [l, {'rest': out}]
    return out

  def conv(t):
    if e.lookahead and isinstance(t, optax.LookaheadParams):
      return optax.LookaheadParams(fast=conv(t.fast), slow=conv(t.slow))
    return regroup(tree_leaves(t))

  vs, _, r = _run(e, seed, conv(p), [regroup(tree_leaves(g)) for g in gs])
  ctx.structure(vs[0], conv(p), 'regrouped updates')
  ctx.describe(form=form)
  ctx.close([tree_leaves(v) for v in vs], [tree_leaves(u) for u in us],
            f'updates in a {form}', **TOL)
  ctx.close(tree_leaves(r), tree_leaves(q), f'params in a {form}', **TOL)
  ctx.count('regrouped')


@scenario(env='x64', quick=66, thorough=660)
def reshaped(ctx):
  """Element-wise rules do not see the shape or the order of coordinates."""
  name = ctx.cycle([n for n in ELEMENT if n not in ('masked',)])
  e, seed, kind, p, gs = _setup(ctx, name, 'vector')
  n = 12
  perm = ctx.rng.permutation(n)
  base = np.abs(ctx.rng.normal(size=n)) if e.nonneg else ctx.rng.normal(size=n)
  h = [ctx.rng.normal(size=n) for _ in range(5)]
  shape = ctx.pick([(3, 4), (2, 3, 2), (12, 1), (1, 12), (2, 2, 3, 1)])
  wrap = optax.LookaheadParams.init_synced if e.lookahead else (lambda x: x)
  us, _, q = _run(e, seed, wrap(jnp.asarray(base)), h)
  f = lambda x: x[perm].reshape(shape)
  vs, _, r = _run(e, seed, wrap(jnp.asarray(f(base))), [f(x) for x in h])
  ctx.describe(shape=shape)
  for u, v in zip(us, vs):
    ctx.close([np.asarray(x) for x in tree_leaves(v)],
              [f(np.asarray(x)) for x in tree_leaves(u)],
              'permuted and reshaped updates', **TOL)
  ctx.close([np.asarray(x) for x in tree_leaves(r)],
            [f(np.asarray(x)) for x in tree_leaves(q)], 'params', **TOL)
  ctx.count('reshaped')
