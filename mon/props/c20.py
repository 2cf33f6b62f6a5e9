"""C20: maybe_update runs its inner transformation only when told to."""
import numpy as np

from mon import core, half, seq, spies, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Arbitrary on/off scripts and predicates decide each step around a '
        'probe; a model predicts the updates and inner state, skipped steps '
        'must return gradients and inner state bit-identical, and the step '
        'counter handed to the predicate must be 0, 1, 2, ...')
ASSUMPTIONS = ['Predicates are functions of the step.']
MIN_EVALS = 3000
MIN_DISTINCT = 400
MIN_COUNTERS = {'ran': 400, 'skipped': 400}


def _drive(ctx, rtol, n=16):
  kind = ctx.cycle(work.KINDS if n < 100 else ['matrix_bias', 'custom', 'crowd'])
  p = work.params(ctx, kind)
  how = ctx.cycle(['script', 'mod', 'after', 'never', 'always', 'python'])
  script = ctx.rng.random(n) < .5
  k = int(ctx.rng.integers(1, 6 if n < 100 else n))
  arr = jnp.asarray(script)
  fn, on = {
      'script': (lambda s: arr[s], lambda t: bool(script[t])),
      'mod': (lambda s: s % k == 0, lambda t: t % k == 0),
      'after': (lambda s: s >= k, lambda t: t >= k),
      'never': (lambda s: s < 0, lambda t: False),
      'always': (lambda s: s >= 0, lambda t: True),
      'python': (lambda s: True, lambda t: True),
  }[how]
  with_params = ctx.coin(.7)
  ctx.describe(tree=kind, how=how, k=k, script=script)
  opt = (optax.maybe_update(spies.probe(), fn) if ctx.coin() else
         optax.maybe_update(inner=spies.probe(), should_update_fn=fn))
  upd = jax.jit(opt.update) if ctx.coin(.6) or n > 100 else opt.update
  state = opt.init(p)
  model = spies.ProbeModel(seq.leaves64(p))
  for t, g in enumerate(work.grad_history(ctx, p, n)):
    ctx.ok(int(state.step) == t, f'step counter before {t}', got=state.step)
    old = state
    u, state = upd(work.to_jax(g), state, *([p] if with_params else []))
    if on(t):
      want = model.step(seq.leaves64(g), seq.leaves64(p) if with_params else None)
      ctx.close(list(tree_leaves(u)), want, f'update at {t}', rtol=rtol, scale=1.)
      ctx.count('ran')
    else:
      ctx.same(u, g, f'skipped update at {t}')
      ctx.same(state.inner_state, old.inner_state, f'inner state skipped at {t}')
      ctx.count('skipped')
    model.check(ctx, state.inner_state, f'step {t}', rtol=rtol * 10)
    ctx.seen(how, t, ctx.rep)
    p = tree_map(lambda x: x * .9 + .01, p)


@scenario(env='x64', quick=60, thorough=800)
def machine(ctx):
  _drive(ctx, 1e-10)


@scenario(env='x32', quick=30, thorough=400)
def machine32(ctx):
  _drive(ctx, 1e-4)


@scenario(env='x64', quick=12, thorough=120)
def long_history(ctx):
  _drive(ctx, 1e-10, n=400)


@scenario(env='x64', quick=20, thorough=200)
def counts_asked(ctx):
  """Eagerly, the predicate sees every step number once and in order."""
  log = []
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)

  def fn(s):
    log.append(int(s))
    return jnp.asarray(log[-1] % 2 == 0)
  opt = optax.maybe_update(optax.scale(3.), fn)
  s = opt.init(p)
  start = int(ctx.pick([0, 0, 7, 2**24 + 1, 2**30]))
  s = s._replace(step=jnp.asarray(start, s.step.dtype))
  ctx.describe(start=start, tree=kind)
  for t, g in enumerate(work.grad_history(ctx, p, 6)):
    del log[:]
    u, s = opt.update(work.to_jax(g), s)
    ctx.ok(log == [start + t], 'counts asked', got=log)
    on = (start + t) % 2 == 0
    ctx.close(u, tree_map(lambda x: np.asarray(x) * (3. if on else 1.), g), 'updates')
    ctx.count('ran' if on else 'skipped')


@scenario(env='x32', quick=16, thorough=160)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  half.agree(ctx, {
      'even': lambda: optax.maybe_update(optax.trace(.5), lambda n: n % 2 == 0),
      'late': lambda: optax.maybe_update(optax.scale(.3), lambda n: n >= 3)})
