"""C07: stateless transformations compute their defining formula."""
import numpy as np

from mon import half, ref, seq, work
from mon.core import scenario, tree_leaves
from mon.env import F, X64, jax, jnp, optax

RULE = ('Scaling, weight decay, trust ratios, centralisation and identity are '
        'run on random trees, including zero and tiny norms, and compared with '
        'float64 formulas; invariants (norm matching, zero mean) are watched '
        'on the outputs themselves.')
ASSUMPTIONS = ['Float64 comparison at 1e-7.']
MIN_EVALS = 1500
MIN_DISTINCT = 400


def _setup(ctx, pstyles=('normal', 'some_zero', 'zeros')):
  kind = ctx.cycle(work.KINDS + ['tower'])
  ps = ctx.pick(pstyles)
  p = work.params(ctx, kind, scale=work.logu(ctx, 1e-3, 1e3), style=ps)
  style = ctx.pick(work.GRAD_STYLES)
  ctx.describe(tree=kind, style=style, params=ps)
  return kind, p, work.grad_history(ctx, p, 4, style)


@scenario(env='x64', quick=30)
def scale(ctx):
  _, p, gs = _setup(ctx)
  s = ctx.pick([-1., 0., .5, 1e-3, -7.25, 1, 2, -1, 1e6, 1e-9])
  ctx.describe(step_size=s)
  seq.follow(ctx, optax.scale(s), ref.Scale(seq.shapes(p), s), p, gs)
  seq.follow(ctx, optax.identity(), ref.Identity(seq.shapes(p)), p, gs,
             rtol=0.)


@scenario(env='x64', quick=30)
def weight_decay(ctx):
  _, p, gs = _setup(ctx)
  wd = ctx.pick([0., 1e-4, .1, 1., -.5, 1e-8, 100.])
  ctx.describe(weight_decay=wd)
  make = ctx.pick([optax.add_decayed_weights, optax.additive_weight_decay])
  big = max([1.] + [float(np.abs(x).max(initial=0.)) for x in seq.leaves64(p)] +
            [float(np.abs(x).max(initial=0.)) for g in gs for x in seq.leaves64(g)])
  seq.follow(ctx, make(wd), ref.Decay(seq.shapes(p), wd), p, gs, rtol=1e-9,
             scale_hint=big)


@scenario(env='x64', quick=60)
def trust_ratio(ctx):
  _, p, gs = _setup(ctx)
  mn = ctx.cycle([0., 1e-6, 1e-3, .5, 10., 1e-12, 1e4])
  ctx.describe(min_norm=mn)
  opt = optax.scale_by_trust_ratio(mn) if mn else optax.scale_by_trust_ratio()
  seq.follow(ctx, opt, ref.Trust(seq.shapes(p), mn), p, gs)
  # Without a floor, each leaf of the result has the norm of its parameter.
  opt = optax.scale_by_trust_ratio()
  for g in gs:
    u, _ = opt.update(work.to_jax(g), opt.init(p), p)
    for a, b, x in zip(seq.leaves64(u), seq.leaves64(g), seq.leaves64(p)):
      na, nb, nx = (np.sqrt((v * v).sum()) for v in (a, b, x))
      want = nx if nb > 0 and nx > 0 else nb
      ctx.ok(abs(na - want) <= 1e-7 * want, 'norm after the trust ratio',
             got=na, want=want)
      ctx.ok(np.all(a * b >= 0), 'trust ratio changed a sign')


@scenario(env='x64', quick=40)
def centralize(ctx):
  _, p, gs = _setup(ctx)
  ups, _, _ = seq.follow(ctx, optax.centralize(), ref.Centralize(seq.shapes(p)),
                         p, gs, rtol=1e-9, scale_hint=max(
                             [1e-6] + [float(np.abs(x).max(initial=0.)) for g in gs
                                       for x in seq.leaves64(g)]))
  for u, g in zip(ups, gs):
    for a, b in zip(seq.leaves64(u), seq.leaves64(g)):
      if a.ndim > 1 and a.size:
        m = a.reshape(a.shape[0], -1).mean(axis=1)
        ctx.ok(np.all(np.abs(m) <= 1e-9 * (1 + np.abs(b).max())),
               'rows are not centred', got=m)
      else:
        ctx.ok(np.array_equal(a, b), 'vectors must be left alone')


@scenario(env='x32', quick=20)
def single_precision(ctx):
  mode = ctx.cycle(['jit', 'eager'])
  _, p, gs = _setup(ctx)
  seq.follow(ctx, optax.scale_by_trust_ratio(), ref.Trust(seq.shapes(p)), p,
             gs, rtol=1e-4, mode=mode)
  seq.follow(ctx, optax.scale_by_trust_ratio(.1), ref.Trust(seq.shapes(p), .1),
             p, gs, rtol=1e-4, mode=mode)
  big = 1e-6 + max(float(np.abs(x).max(initial=0.)) for g in gs for x in seq.leaves64(g))
  seq.follow(ctx, optax.centralize(), ref.Centralize(seq.shapes(p)), p, gs,
             rtol=1e-5, mode=mode, scale_hint=big)
  seq.follow(ctx, optax.scale(-.3), ref.Scale(seq.shapes(p), -.3), p, gs,
             rtol=1e-5, mode=mode)


@scenario(env='x32', quick=30, thorough=300)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  half.agree(ctx, {
      'scale': lambda: optax.scale(-.3),
      'decay': lambda: optax.add_decayed_weights(.3),
      'trust': optax.scale_by_trust_ratio,
      'minimum': lambda: optax.scale_by_trust_ratio(3.),
      'centralize': optax.centralize})
