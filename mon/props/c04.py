"""C04: averaging preconditioners follow their published recurrences."""
import numpy as np

from mon import half, ref, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Random parameter trees, hyperparameters and gradient histories of '
        'twelve styles are driven through each preconditioner; every emitted '
        'update and statistic is compared with an independent float64 model.')
ASSUMPTIONS = ['Float64 runs are compared at 1e-7, float32 runs at 5e-4 '
               'relative to the combined magnitudes.']
MIN_EVALS = 2000
MIN_DISTINCT = 500


def _leaves(t):
  return [np.asarray(l).astype(np.float64) for l in tree_leaves(t)]


def _run(ctx, make, model, stats, steps, kind=None, style=None, mode='jit',
         grads=None, p=None, alt=None, rtol=None, styles=None):
  kind = kind or ctx.cycle(work.KINDS)
  p = work.params(ctx, kind) if p is None else p
  style = style or ctx.pick(styles or work.GRAD_STYLES)
  gs = grads or work.grad_history(ctx, p, steps, style)
  ctx.describe(tree=kind, style=style, steps=len(gs), mode=mode)
  opt = make()
  with_p = ctx.coin(0.3)
  ups, states, _ = work.drive(opt, p, gs, mode=mode, with_params=with_p)
  m = model([l.shape for l in tree_leaves(p)])
  a = alt([l.shape for l in tree_leaves(p)]) if alt else None
  top = 0.
  for t, g in enumerate(gs):
    gl = _leaves(g)
    want = m.step(gl)
    # Averages may cancel: errors are relative to what was averaged.
    top = max([top] + [float(np.abs(x).max(initial=0.)) for x in gl])
    scale = [np.maximum(np.abs(x), 1e-4 * min(1., top)) for x in want]
    if a is not None:
      # Known finding: recognised only by agreement with the recorded rule.
      awant = a.step(gl)
      if _agrees(tree_leaves(ups[t]), awant) and not _agrees(
          tree_leaves(ups[t]), want):
        ctx.known_finding('yogi-second-moment', 'scale_by_yogi averages '
                          'fourth powers')
        want, m_stats = awant, a
      else:
        m_stats = a if _agrees(tree_leaves(states[t + 1].nu), a.nu) and not (
            _agrees(tree_leaves(states[t + 1].nu), m.nu)) else m
    else:
      m_stats = m
    ctx.close(list(tree_leaves(ups[t])), want, f'update {t}', rtol=rtol,
              scale=scale)
    ctx.structure(ups[t], g, f'update {t}')
    st = states[t + 1]
    for name, attr in stats.items():
      ctx.close(list(tree_leaves(getattr(st, name))), getattr(m_stats, attr),
                f'state.{name} after {t}', rtol=rtol,
                scale=1e-4 * top if attr == 'mu' else None)
    if 'count' in st._fields:
      ctx.ok(int(st.count) == t + 1, f'count after {t} updates', got=st.count)
    ctx.count('steps')
  ctx.sample(tree=kind, style=style, last_update=ups[-1])


def _agrees(got, want):
  # Averages may cancel to nothing: relative to the largest of the leaf, too.
  r, a = (1e-7, 1e-11) if X64 else (5e-4, 1e-4)
  return all(np.allclose(np.asarray(g), w, rtol=r, atol=1e-30 + a * np.abs(
      w).max(initial=0.)) for g, w in zip(got, want))


def _hp(ctx):
  return dict(b1=work.decay_rate(ctx), b2=ctx.pick(
      [.02, 0.5, 0.9, 0.99, 0.999, 0.9999, float(ctx.rng.uniform(0.1, 1))]),
      eps=ctx.pick([1e-8, 1e-6, 1e-3, 0.1, 10., work.logu(ctx, 1e-10, 1.)]),
      eps_root=ctx.pick([0., 0., 1e-8, 1e-3, 0.5, 20.]))


@scenario(env='x64', quick=50)
def adam(ctx):
  hp = _hp(ctx)
  if ctx.rep % 5 == 0:
    hp = {}
  ctx.describe(hp=hp)
  _run(ctx, lambda: optax.scale_by_adam(**hp), lambda s: ref.Adam(s, **hp),
       {'mu': 'mu', 'nu': 'nu'}, 25)


@scenario(env='x64', quick=40)
def belief(ctx):
  hp = _hp(ctx)
  if ctx.rep % 5 == 0:
    hp = {'eps': 1e-8}
  ctx.describe(hp=hp)
  full = dict(eps=0., eps_root=1e-16)
  full.update(hp)
  _run(ctx, lambda: optax.scale_by_belief(**hp),
       lambda s: ref.Belief(s, **full), {'mu': 'mu', 'nu': 'nu'}, 25,
       # The default root makes exactly predicted gradients ill-conditioned.
       styles=[s for s in work.GRAD_STYLES if s not in ('constant',)])


@scenario(env='x64', quick=60)
def radam(ctx):
  hp = _hp(ctx)
  if ctx.rep % 4 == 0:
    hp = {}
  # Short memories keep rho small: both branches must be visited.
  hp['b2'] = ctx.pick([.3, .5, .5, .6, 0.8, 0.9, 0.95, 0.99, 0.999, .9999, .99999, float(ctx.rng.uniform(.75, 1))])
  hp['threshold'] = ctx.pick([4.5, 5., 5., 5.5, 8., 4.1, 20.])
  if hp['b2'] < .55 and ctx.coin(.7):
    hp['threshold'] = 3.2  # out of reach of such a memory
  ctx.describe(hp=hp)
  box = []

  def model(s):
    box.append(ref.Radam(s, **hp))
    return box[0]
  _run(ctx, lambda: optax.scale_by_radam(**hp), model,
       {'mu': 'mu', 'nu': 'nu'}, ctx.pick([12, 30, 60]))
  ctx.count('radam_rectified' if box[0].rho >= hp['threshold']
            else 'radam_unrectified')


@scenario(env='x64', quick=40)
def yogi(ctx):
  hp = _hp(ctx)
  hp['initial'] = ctx.pick([1e-6, 1e-6, 0.1, 1.])
  defaults = ctx.rep % 5 == 0
  if defaults:
    hp = dict(b1=.9, b2=.999, eps=1e-3, eps_root=0., initial=1e-6)
  ctx.describe(hp=hp)

  def make():
    if defaults:
      return optax.scale_by_yogi()
    k = dict(hp)
    k['initial_accumulator_value'] = k.pop('initial')
    return optax.scale_by_yogi(**k)
  # Where the order of the recorded rule makes no difference the published one
  # must hold exactly.
  style = 'ties' if ctx.rep % 6 == 0 else None
  _run(ctx, make, lambda s: ref.Yogi(s, **hp), {'mu': 'mu', 'nu': 'nu'}, 25,
       style=style, alt=lambda s: ref.Yogi(s, order=4, **hp))


@scenario(env='x64', quick=40)
def rms(ctx):
  hp = dict(decay=max(1e-4, work.decay_rate(ctx)), eps=ctx.pick([1e-8, 1e-3, .3, 3.]),
            initial=ctx.pick([0., 1., .01, 50.]))
  if ctx.rep % 5 == 0:
    hp = dict(decay=.9, eps=1e-8, initial=0.)
  ctx.describe(hp=hp)
  _run(ctx, lambda: optax.scale_by_rms(hp['decay'], hp['eps'], hp['initial'])
       if ctx.rep % 5 else optax.scale_by_rms(),
       lambda s: ref.Rms(s, **hp), {'nu': 'nu'}, 25)


@scenario(env='x64', quick=40)
def stddev(ctx):
  hp = dict(decay=ctx.pick([.1, .5, .9, .99]), eps=ctx.pick([1e-8, 1e-3, .3, 3.]),
            initial=ctx.pick([0., 1., .01, 50.]))
  if ctx.rep % 5 == 0:
    hp = dict(decay=.9, eps=1e-8, initial=0.)
  ctx.describe(hp=hp)
  _run(ctx, lambda: optax.scale_by_stddev(hp['decay'], hp['eps'], hp['initial'])
       if ctx.rep % 5 else optax.scale_by_stddev(),
       lambda s: ref.StdDev(s, **hp), {'nu': 'nu', 'mu': 'mu'}, 25, rtol=1e-6,
       # n - m^2 must not be all cancellation.
       styles=[s for s in work.GRAD_STYLES if s not in ('constant', 'large',
                                                        'lognormal', 'burst')])


@scenario(env='x64', quick=20)
def faint(ctx):
  """Gradients at far scales, with an epsilon that is smaller still."""
  which = ctx.cycle(['adam', 'belief', 'radam', 'rms', 'stddev'])
  unit = float(ctx.pick([1e-9, 1e-13, 1e-20, 1e12, 1e20]))
  hp = dict(b1=ctx.pick([.5, .9]), b2=ctx.pick([.9, .99]),
            eps=ctx.pick([1e-6, 1e-2, 1.]) * unit, eps_root=ctx.pick([0., 1e-3]) * unit ** 2)
  if which == 'belief':
    hp['eps_root'] = 1e-3 * unit ** 2
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  style = ctx.pick(['normal', 'ties', 'burst'])
  gs = [tree_map(lambda x: x * unit, g) for g in work.grad_history(ctx, p, 15, style)]
  ctx.describe(which=which, unit=unit, hp=hp)
  kw = dict(kind=kind, p=p, style=style, grads=gs)
  st = {'mu': 'mu', 'nu': 'nu'}
  if which == 'rms':
    _run(ctx, lambda: optax.scale_by_rms(hp['b2'], hp['eps'], 0.),
         lambda s: ref.Rms(s, hp['b2'], hp['eps'], 0.), {'nu': 'nu'}, 15, **kw)
  elif which == 'stddev':
    _run(ctx, lambda: optax.scale_by_stddev(.9, hp['eps'], 0.),
         lambda s: ref.StdDev(s, .9, hp['eps'], 0.), st, 15, rtol=1e-6, **kw)
  else:
    make, model = {'adam': (optax.scale_by_adam, ref.Adam),
                   'belief': (optax.scale_by_belief, ref.Belief),
                   'radam': (optax.scale_by_radam, ref.Radam)}[which]
    _run(ctx, lambda: make(**hp), lambda s: model(s, **hp), st, 15, **kw)


@scenario(env='x32', quick=36)
def float32(ctx):
  """The same rules at single precision, eagerly and compiled."""
  which = ctx.cycle(['adam', 'belief', 'radam', 'rms', 'yogi', 'stddev'])
  mode = ctx.cycle(['jit', 'eager'], 6)
  hp = dict(b1=ctx.pick([.5, .9, .99]), b2=ctx.pick([.9, .99, .999]),
            eps=1e-3, eps_root=ctx.pick([0., 1e-4]))
  ctx.describe(which=which, hp=hp)
  styles = ['normal', 'sparse', 'alternating', 'burst', 'ties', 'mostly_zero']
  n = 12 if mode == 'eager' else 30
  kw = dict(rtol=1e-3, mode=mode, styles=styles)
  st = {'mu': 'mu', 'nu': 'nu'}
  if which == 'adam':
    _run(ctx, lambda: optax.scale_by_adam(**hp), lambda s: ref.Adam(s, **hp),
         st, n, **kw)
  elif which == 'belief':
    kw['styles'] = ['normal', 'sparse', 'burst']
    _run(ctx, lambda: optax.scale_by_belief(**hp),
         lambda s: ref.Belief(s, **hp), st, n, **kw)
  elif which == 'radam':
    # rho is a difference of numbers of size 2 / (1 - b2).
    kw['rtol'] = 3e-2 if hp['b2'] > .9 else 1e-3
    _run(ctx, lambda: optax.scale_by_radam(**hp), lambda s: ref.Radam(s, **hp),
         st, n, **kw)
  elif which == 'yogi':
    kw['rtol'] = 4e-3
    _run(ctx, lambda: optax.scale_by_yogi(**hp),
         lambda s: ref.Yogi(s, **hp), st, n,
         alt=lambda s: ref.Yogi(s, order=4, **hp), **kw)
  elif which == 'rms':
    _run(ctx, lambda: optax.scale_by_rms(hp['b2'], 1e-3, .01),
         lambda s: ref.Rms(s, hp['b2'], 1e-3, .01), {'nu': 'nu'}, n, **kw)
  else:
    kw['rtol'] = 5e-3
    kw['styles'] = ['normal', 'ties', 'alternating']
    _run(ctx, lambda: optax.scale_by_stddev(hp['b1'], .1),
         lambda s: ref.StdDev(s, hp['b1'], .1), {'nu': 'nu'}, n, **kw)


@scenario(env='x64', quick=6, cost=3.)
def long_runs(ctx):
  """Thousands of steps inside one compiled loop, resumed from a late state."""
  which = ctx.cycle(['adam', 'belief', 'radam'])
  n = 3000
  hp = dict(b1=.9, b2=ctx.pick([.99, .999]), eps=1e-6, eps_root=1e-10)
  make = {'adam': optax.scale_by_adam, 'belief': optax.scale_by_belief,
          'radam': optax.scale_by_radam}[which]
  model = {'adam': ref.Adam, 'belief': ref.Belief, 'radam': ref.Radam}[which]
  opt = make(**hp)
  g = ctx.rng.normal(size=(n, 3)) * np.exp(ctx.rng.normal(size=(n, 1)))
  ctx.describe(which=which, hp=hp, steps=n)
  step = lambda s, x: opt.update(x, s)[::-1]
  _, ups = jax.jit(lambda s, x: jax.lax.scan(step, s, x))(
      opt.init(jnp.zeros(3)), jnp.asarray(g))
  m = model([(3,)], **hp)
  want = np.stack([m.step([x])[0] for x in g])
  ctx.close(ups, want, 'all updates', rtol=1e-6)
  ctx.count('steps', n)


@scenario(env='x32', quick=48, thorough=480)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  hp = dict(b1=float(ctx.pick([.5, .9])), b2=float(ctx.pick([.5, .9])), eps=.01)
  half.agree(ctx, {
      'adam': lambda: optax.scale_by_adam(**hp),
      'defaults': optax.scale_by_adam,
      'radam defaults': optax.scale_by_radam,
      'long memory': lambda: optax.scale_by_belief(.9, .999, .3),
      'belief': lambda: optax.scale_by_belief(**dict(hp, eps=.3)),
      'radam': lambda: optax.scale_by_radam(**dict(hp, eps=.3), threshold=4.1),
      'rms': lambda: optax.scale_by_rms(hp['b2'], .01, 1.),
      'stddev': lambda: optax.scale_by_stddev(.5, .3)}, slack=20.)
