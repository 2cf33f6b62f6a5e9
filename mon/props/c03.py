"""C03: updates and states keep structure, shape and dtype."""
import numpy as np

from mon import catalog, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Every transformation runs on every tree kind at float16, bfloat16, '
        'float32, float64 and mixed dtypes, with 64-bit types on and off; the '
        'abstract value of each update is compared with the gradient and that '
        'of each state with the initial state, and a compiled loop carries '
        'the state.')
ASSUMPTIONS = ['Gradients have the dtypes of the parameters.']
MIN_EVALS = 3000
MIN_DISTINCT = 300


def _sig(tree):
  return [(np.shape(l), np.dtype(jnp.asarray(l).dtype).name)
          for l in tree_leaves(tree)]


def _check(ctx, entry, dtype, mixed=False):
  kind = ctx.pick([k for k in work.KINDS if k not in entry.skip_kinds])
  if entry.name == 'flatten':
    mixed = False  # concatenation needs one dtype
  if entry.name == 'deep' and mixed:
    return  # contains injected hyperparameters, judged below
  kind, p, gs = catalog.problem(ctx, entry, kind, steps=3, dtype=dtype)
  if mixed:
    cycle = [jnp.float32, jnp.bfloat16, jnp.float16, jnp.float32]
    if X64:
      cycle.append(jnp.float64)
    k = [0]

    def cast(x):
      k[0] += 1
      return jnp.asarray(x, cycle[k[0] % len(cycle)])
    if entry.lookahead:
      f = tree_map(cast, p.fast)
      p = optax.LookaheadParams.init_synced(f)
      like = f
    else:
      p = tree_map(cast, p)
      like = p
    gs = [tree_map(lambda a, b: np.asarray(a).astype(b.dtype), g, like) for g in gs]
  seed = int(ctx.rng.integers(1000))
  opt = entry.build(seed)
  ctx.describe(transform=entry.name, tree=kind,
               dtype='mixed' if mixed else np.dtype(dtype).name, hp_seed=seed)
  state = opt.init(p)
  s0, t0 = _sig(state), tree_structure(state)
  want = [(np.shape(l), np.dtype(l.dtype).name) for l in tree_leaves(p)]
  upd = jax.jit(opt.update) if ctx.coin() else opt.update
  q = p
  for i, g in enumerate(gs):
    u, state = upd(work.to_jax(g), state, q)
    if mixed and entry.name.startswith('inject'):
      # Known finding: hyperparameters take the dtype of the first leaf.
      first = tree_leaves(p)[0].dtype
      promoted = [(s, np.dtype(jnp.promote_types(d, first)).name)
                  for s, d in want]
      if _sig(u) != want and _sig(u) == promoted:
        ctx.known_finding('inject-first-leaf-dtype', 'inject_hyperparams '
                          'promotes leaves narrower than the first one')
        ctx.seen(entry.name, kind, str(want))
        return
    ctx.structure(u, p if entry.per_example or entry.lookahead else g,
                  f'updates at step {i}')
    ctx.ok(_sig(u) == want, f'shape or dtype of updates at step {i}',
           got=_sig(u), want=want)
    ctx.ok(tree_structure(state) == t0, f'state structure after step {i}',
           got=str(tree_structure(state)), want=str(t0))
    ctx.ok(_sig(state) == s0, f'shape or dtype of state after step {i}',
           got=_sig(state), want=s0)
    q2 = optax.apply_updates(q, u)
    ctx.ok(_sig(q2) == want and tree_structure(q2) == tree_structure(q),
           'applied parameters', got=_sig(q2), want=want)
    ctx._observe(entry.name, u)
    q = q2
  ctx.seen(entry.name, kind, str(dtype), mixed)
  # The state is a fixed point: it can be carried by a compiled loop.
  stacked = tree_map(lambda *x: jnp.stack([jnp.asarray(v) for v in x]), *gs)

  def body(c, g):
    s, w = c
    u, s = opt.update(g, s, w)
    return (s, optax.apply_updates(w, u)), u
  jax.eval_shape(lambda c, x: jax.lax.scan(body, c, x), (opt.init(p), p), stacked)
  ctx.count('loops')
  ctx.count(f'dtype {"mixed" if mixed else np.dtype(dtype).name}')


@scenario(env='x32', quick=156, thorough=1200)
def narrow(ctx):
  e = catalog.CATALOG[ctx.cycle(catalog.NAMES)]
  _check(ctx, e, ctx.cycle([jnp.float32, jnp.bfloat16, jnp.float16],
                           len(catalog.NAMES)))


@scenario(env='x64', quick=156, thorough=1200)
def wide(ctx):
  e = catalog.CATALOG[ctx.cycle(catalog.NAMES)]
  _check(ctx, e, ctx.cycle([jnp.float64, jnp.float32, jnp.bfloat16],
                           len(catalog.NAMES)))


@scenario(env='x32', quick=52, thorough=400)
def mixed32(ctx):
  e = catalog.CATALOG[ctx.cycle(catalog.NAMES)]
  _check(ctx, e, jnp.float32, mixed=True)


@scenario(env='x64', quick=52, thorough=400)
def mixed64(ctx):
  e = catalog.CATALOG[ctx.cycle(catalog.NAMES)]
  _check(ctx, e, jnp.float32, mixed=True)
