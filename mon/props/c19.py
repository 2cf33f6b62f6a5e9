"""C19: flatten shows the inner transformation one vector and changes nothing else."""
import numpy as np

from mon import catalog, core, seq, spies, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Probes and library transformations run flattened on every tree kind; '
        'the monitor checks that the inner transformation sees exactly one '
        'vector with every coordinate of gradients and params in the same '
        'place, and that coordinate-wise rules give the updates they give '
        'without flattening.')
ASSUMPTIONS = ['Trees have at least one leaf and a single dtype.']
MIN_EVALS = 1500
MIN_DISTINCT = 300
MIN_COUNTERS = {'flattened steps': 250}


def vec(t):
  return np.concatenate([np.asarray(x).reshape(-1) for x in tree_leaves(t)])


@scenario(env='x64', quick=60, thorough=800)
def probe(ctx):
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  seen = []
  with_params = ctx.coin(.7)
  ctx.describe(tree=kind, params=with_params)
  opt = optax.flatten(spies.probe(seen=seen))
  state = opt.init(p)
  ctx.same(state['p0'], vec(p), 'params shown to init')
  model = spies.ProbeModel([vec(p)])
  for t, g in enumerate(work.grad_history(ctx, p, 4)):
    del seen[:]
    u, state = opt.update(work.to_jax(g), state, *([p] if with_params else []))
    ctx.ok(len(seen) == 1, 'the inner ran once', got=len(seen))
    ctx.same(seen[0][0], vec(g), f'gradients shown at {t}')
    if with_params:
      ctx.same(seen[0][2], vec(p), f'params shown at {t}')
    else:
      ctx.ok(seen[0][2] is None, 'params shown without any')
    want = model.step([vec(g)], [vec(p)] if with_params else None)
    ctx.structure(u, g, f'structure at {t}')
    ctx.ok([np.shape(x) for x in tree_leaves(u)] ==
           [np.shape(x) for x in tree_leaves(g)], f'shapes at {t}')
    ctx.close([vec(u)], want, f'updates at {t}', rtol=1e-12, scale=1.)
    model.check(ctx, state, f'step {t}')
    ctx.count('flattened steps')
    p = work.add(p, tree_map(lambda x: .1 * jnp.tanh(x), u))


ELEMENT = [n for n, e in catalog.CATALOG.items()
           if e.locality == 'element' and n not in ('masked', 'flatten') and
           not e.lookahead and not e.nonneg] + ['clip_by_global_norm']


@scenario(env='x64', quick=66, thorough=800)
def library(ctx):
  """Coordinate-wise rules cannot tell."""
  name = ctx.cycle(ELEMENT)
  e = catalog.CATALOG[name]
  kind = ctx.pick(work.KINDS)
  p = work.params(ctx, kind)
  seed = int(ctx.rng.integers(1000))
  ctx.describe(inner=name, tree=kind)
  a, b = optax.flatten(e.build(seed)), e.build(seed)
  s1, s2 = a.init(p), b.init(p)
  u1, u2 = jax.jit(a.update), jax.jit(b.update)
  for t, g in enumerate(work.grad_history(ctx, p, 4)):
    g = work.to_jax(g)
    x, s1 = u1(g, s1, p)
    y, s2 = u2(g, s2, p)
    ctx.close(x, y, f'flattened beside plain at {t}', rtol=1e-9, atol=1e-13)
    ctx.count('flattened steps')
    p = work.add(p, y)


@scenario(env='x32', quick=20, thorough=200)
def dtypes(ctx):
  dt = ctx.cycle([jnp.bfloat16, jnp.float16, jnp.float32])
  kind = ctx.pick(work.KINDS)
  p = work.params(ctx, kind, dtype=dt)
  opt = optax.flatten(optax.trace(.5))
  s = opt.init(p)
  ctx.describe(tree=kind, dtype=np.dtype(dt).name)
  ctx.ok(all(x.dtype == dt for x in tree_leaves(s)), 'dtype of the state')
  for g in work.grad_history(ctx, p, 2, 'integers'):
    u, s = opt.update(work.to_jax(g), s, p)
    ctx.ok(all(x.dtype == dt for x in tree_leaves(u)), 'dtype of updates')
    ctx.count('flattened steps')
