"""C16: MultiSteps accumulates, then steps once with the mean or the sum."""
import numpy as np

from mon import catalog, core, half, seq, spies, work
from mon.core import scenario, tree_leaves, tree_map
from mon.env import F, X64, jax, jnp, optax

RULE = ('Constant and scheduled accumulation lengths drive a probe and library '
        'optimisers; an event model predicts at which mini-steps the inner '
        'transformation runs, on which combined gradient and which params, '
        'and what is returned and stored in between.')
ASSUMPTIONS = ['Accumulation lengths are at least one.']
MIN_EVALS = 4000
MIN_DISTINCT = 500
MIN_COUNTERS = {'gradient steps': 300, 'mini steps': 1000}


def _schedule(ctx):
  """(argument, length as a function of the gradient step)."""
  which = ctx.cycle(['int', 'one', 'table', 'mod', 'grow', 'python'])
  if which == 'int':
    k = int(ctx.rng.integers(2, 7))
    return which, k, lambda s: k
  if which == 'one':
    return which, 1, lambda s: 1
  if which == 'table':
    tab = ctx.rng.integers(1, 6, 40)
    arr = jnp.asarray(tab)
    return which, lambda s: arr[s], lambda s: int(tab[s])
  if which == 'mod':
    return which, lambda s: 1 + s % 3, lambda s: 1 + s % 3
  if which == 'grow':
    return which, lambda s: jnp.minimum(1 + s // 2, 5), lambda s: min(1 + s // 2, 5)
  return which, lambda s: 4, lambda s: 4


def _drive(ctx, rtol):
  which, arg, length = _schedule(ctx)
  mean = ctx.coin()
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  n = 30
  gs = work.grad_history(ctx, p, n, ctx.pick(['normal', 'lognormal', 'sparse',
                                              'integers', 'constant']))
  with_params = ctx.coin(.7)
  gt = ctx.coin(.4)
  ctx.describe(tree=kind, schedule=which, mean=mean, params=with_params)
  inner = spies.probe()
  ms = (optax.MultiSteps(inner, arg, mean) if ctx.coin() else
        optax.MultiSteps(inner, every_k_schedule=arg, use_grad_mean=mean))
  ctx.ok(ms.inner_opt is inner, 'the wrapped optimiser is exposed')
  opt = ms.gradient_transformation() if gt else ms
  upd = jax.jit(opt.update) if ctx.coin(.7) else opt.update
  state = opt.init(p)
  model = spies.ProbeModel(seq.leaves64(p))
  acc = [np.zeros(s) for s in seq.shapes(p)]
  mini = grad = 0
  ctx.ok(not bool(ms.has_updated(state)), 'has_updated before any step')
  for t, g in enumerate(gs):
    old = state
    k = length(grad)
    u, state = upd(work.to_jax(g), state, *([p] if with_params else []))
    acc = [a + x for a, x in zip(acc, seq.leaves64(g))]
    top = max([1.] + [np.abs(a).max(initial=0.) for a in acc])
    mini += 1
    ctx.count('mini steps')
    if mini == k:
      comb = [a / k for a in acc] if mean else acc
      want = model.step(comb, seq.leaves64(p) if with_params else None)
      ctx.close(list(tree_leaves(u)), want, f'gradient step {grad}', rtol=rtol,
                scale=top)
      mini, grad = 0, grad + 1
      acc = [np.zeros(s) for s in seq.shapes(p)]
      ctx.count('gradient steps')
    else:
      ctx.same(u, tree_map(np.zeros_like, g), f'update of mini step {t}')
      ctx.same(state.inner_opt_state, old.inner_opt_state,
               f'inner state of mini step {t}')
    model.check(ctx, state.inner_opt_state, f'mini step {t}', rtol=rtol * 10)
    ctx.close(list(tree_leaves(state.acc_grads)), acc, f'accumulated at {t}',
              rtol=rtol, scale=top)
    ctx.ok(int(state.mini_step) == mini, f'mini step counter at {t}',
           got=state.mini_step, want=mini)
    ctx.ok(int(state.gradient_step) == grad, f'gradient step counter at {t}',
           got=state.gradient_step, want=grad)
    ctx.ok(bool(ms.has_updated(state)) == (mini == 0), f'has_updated at {t}')
    ctx.seen(which, t, ctx.rep)
    p = tree_map(lambda x: x * .9 + .01, p)


@scenario(env='x64', quick=60, thorough=1000)
def machine(ctx):
  _drive(ctx, 1e-10)


@scenario(env='x32', quick=30, thorough=400)
def machine32(ctx):
  _drive(ctx, 1e-4)


EDGES = [3, 128, 255, 256, 1000, 4096, 32768, 65536, 10 ** 6, 2 ** 24 + 1,
         2 ** 31 - 20]


@scenario(env='x64', quick=22, thorough=220)
def late_schedule(ctx):
  """Schedules that change late, reached by resuming from a late state."""
  edge = ctx.cycle(EDGES)
  mean = ctx.coin()
  p = work.params(ctx, ctx.pick(['vector', 'matrix_bias']))
  before, after = (int(x) for x in ctx.rng.integers(1, 6, 2))
  ms = optax.MultiSteps(spies.probe(), lambda s: jnp.where(s >= edge, after, before),
                        mean)
  ctx.describe(edge=edge, lengths=(before, after), mean=mean)
  state = ms.init(p)
  state = state._replace(gradient_step=jnp.asarray(
      edge - 2, state.gradient_step.dtype))
  upd = jax.jit(ms.update)
  grad, mini = edge - 2, 0
  acc = [np.zeros(s) for s in seq.shapes(p)]
  model = spies.ProbeModel(seq.leaves64(p))
  for t, g in enumerate(work.grad_history(ctx, p, 2 * before + 3 * after, 'normal')):
    u, state = upd(work.to_jax(g), state, p)
    acc = [a + x for a, x in zip(acc, seq.leaves64(g))]
    mini += 1
    ctx.count('mini steps')
    k = after if grad >= edge else before
    if mini == k:
      want = model.step([a / k for a in acc] if mean else acc, seq.leaves64(p))
      ctx.close(list(tree_leaves(u)), want, f'gradient step {grad}', rtol=1e-9,
                scale=1.)
      mini, grad = 0, grad + 1
      acc = [np.zeros(s) for s in seq.shapes(p)]
      ctx.count('gradient steps')
    else:
      ctx.same(u, tree_map(np.zeros_like, g), f'update of mini step {t}')
    ctx.ok(int(state.mini_step) == mini and int(state.gradient_step) == grad,
           f'counters at {t}', got=(state.mini_step, state.gradient_step),
           want=(mini, grad))
    ctx.ok(bool(ms.has_updated(state)) == (mini == 0), f'has_updated at {t}')


@scenario(env='x64', quick=12, thorough=120)
def long_history(ctx):
  """Hundreds of gradient steps of changing length in one compiled loop."""
  period = int(ctx.pick([2, 3, 7]))
  mean = ctx.coin()
  base = int(ctx.pick([1, 2]))
  opt = optax.MultiSteps(optax.sgd(1., momentum=.5), lambda s: base + s % period, mean)
  n = 900
  g = ctx.rng.normal(size=(n, 3))
  ctx.describe(period=period, base=base, mean=mean)
  s0 = opt.init(jnp.zeros(3, F))
  _, us = jax.jit(lambda g: jax.lax.scan(
      lambda s, x: opt.update(x, s)[::-1], s0, g))(jnp.asarray(g, F))
  want, acc, tr, mini, grad = np.zeros((n, 3)), np.zeros(3), np.zeros(3), 0, 0
  for t in range(n):
    acc, mini = acc + g[t], mini + 1
    k = base + grad % period
    if mini == k:
      tr = (acc / k if mean else acc) + .5 * tr
      want[t] = -tr
      acc, mini, grad = np.zeros(3), 0, grad + 1
  ctx.close(us, want, 'every update of a long history', rtol=1e-9, scale=1.)
  ctx.count('mini steps', n)
  ctx.count('gradient steps', grad)


@scenario(env='x64', quick=60, thorough=600)
def equals_large_batch(ctx):
  """Training on k mini-batches equals training on their mean."""
  name = ctx.cycle(['adam', 'sgd', 'rmsprop', 'adamw', 'lamb', 'fromage', 'chain',
                    'radam', 'adagrad', 'flatten', 'masked', 'lookahead', 'sm3',
                    'clip_by_global_norm', 'inject_hyperparams'])
  e = catalog.CATALOG[name]
  if e.lookahead:
    name, e = 'adam', catalog.CATALOG['adam']
  kind = ctx.pick(work.PLAIN)
  p = work.params(ctx, kind)
  k = int(ctx.pick([1, 2, 3, 4, 5]))
  mean = ctx.coin()
  seed = int(ctx.rng.integers(1000))
  ctx.describe(inner=name, tree=kind, k=k, mean=mean)
  gs = work.grad_history(ctx, p, 4 * k, 'normal')
  ms = optax.MultiSteps(e.build(seed), k, use_grad_mean=mean)
  upd = jax.jit(ms.update)
  inner = e.build(seed)
  iupd = jax.jit(inner.update)
  s, q = ms.init(p), p
  s2, q2 = inner.init(p), p
  for i in range(4):
    for g in gs[i * k:(i + 1) * k]:
      u, s = upd(work.to_jax(g), s, q)
      q = optax.apply_updates(q, u)
      ctx.count('mini steps')
    big = tree_map(lambda *x: sum(x) / (k if mean else 1), *gs[i * k:(i + 1) * k])
    u, s2 = iupd(work.to_jax(big), s2, q2)
    q2 = optax.apply_updates(q2, u)
    ctx.close(q, q2, f'params after {i + 1} large batches', rtol=1e-8, atol=1e-10)
    ctx.count('gradient steps')


@scenario(env='x64', quick=40, thorough=400)
def faulty_window(ctx):
  """A non-finite gradient spoils its own window only; nothing is rounded."""
  which, arg, length = _schedule(ctx)
  mean = ctx.coin()
  kind = ctx.cycle(work.KINDS)
  p = work.params(ctx, kind)
  n = 26
  gs = work.grad_history(ctx, p, n, ctx.pick(['normal', 'huge', 'tiny', 'one_huge']))
  for t in range(n):
    if ctx.coin(.12):
      v = ctx.pick([np.nan, np.inf, -np.inf])
      gs[t] = tree_map(lambda x: np.full_like(x, v) if ctx.coin(.7) else x, gs[t])
  guard = ctx.coin(.4)
  inner = optax.apply_if_finite(optax.scale(.5), 10 ** 6) if guard else optax.scale(.5)
  ctx.describe(tree=kind, schedule=which, mean=mean, guard=guard)
  ms = optax.MultiSteps(inner, arg, mean)
  upd = jax.jit(ms.update) if ctx.coin(.7) else ms.update
  s = ms.init(p)
  mini = grad = 0
  win = []
  for t, g in enumerate(gs):
    u, s = upd(work.to_jax(g), s, p)
    win.append(seq.leaves64(g))
    mini += 1
    ctx.count('mini steps')
    k = length(grad)
    if mini < k:
      ctx.same(u, tree_map(np.zeros_like, g), f'update of mini step {t}')
      continue
    with np.errstate(all='ignore'):
      want = [.5 * sum(w[i] for w in win) / (k if mean else 1)
              for i in range(len(win[0]))]
    if guard and not all(np.all(np.isfinite(w)) for w in want):
      want = [np.zeros_like(w) for w in want]
    scale = [np.max([np.abs(np.where(np.isfinite(w[i]), w[i], 0.)) for w in win],
                    axis=0) for i in range(len(want))]
    ctx.close(list(tree_leaves(u)), want, f'gradient step {grad} at {t}',
              rtol=1e-12, scale=scale)
    ctx.finite(s.acc_grads, f'accumulator after gradient step {grad}')
    ctx.count('gradient steps')
    win, mini, grad = [], 0, grad + 1


@scenario(env='x32', quick=12, thorough=100)
def long_windows(ctx):
  """Windows of up to a thousand mini-steps, compiled as one loop."""
  k = int(ctx.cycle([10, 25, 300, 41, 49, 1000, 64, 98, 100, 130, 257, 513]))
  mean = ctx.coin()
  n = 2 * k + int(ctx.rng.integers(0, k))
  ctx.describe(k=k, mean=mean)
  ms = optax.MultiSteps(optax.scale(-1.), k, mean)
  g = jnp.asarray(ctx.rng.integers(-3, 4, size=(n, 3)), F)

  def body(s, x):
    u, s = ms.update(x, s)
    return s, (u, ms.has_updated(s), s.mini_step, s.gradient_step)
  _, (us, up, mini, grad) = jax.jit(
      lambda g: jax.lax.scan(body, ms.init(jnp.zeros(3, F)), g))(g)
  want = np.zeros((n, 3))
  for i in range(n // k):
    want[i * k + k - 1] = -np.asarray(g[i * k:(i + 1) * k], np.float64).sum(0) / (
        k if mean else 1)
  ctx.close(us, want, 'updates', rtol=1e-5, scale=1.)
  at = np.arange(1, n + 1)
  ctx.ok(np.array_equal(up, at % k == 0), 'has_updated')
  ctx.ok(np.array_equal(mini, at % k), 'mini step counter')
  ctx.ok(np.array_equal(grad, at // k), 'gradient step counter')
  ctx.count('mini steps', n)


@scenario(env='x32', quick=16, thorough=160)
def half_precision(ctx):
  """The same rules at bfloat16 and float16."""
  k = int(ctx.pick([1, 2, 3]))
  half.agree(ctx, {
      'mean': lambda: optax.MultiSteps(optax.sgd(.5), k).gradient_transformation(),
      'sum': lambda: optax.MultiSteps(optax.sgd(.5, .5), k, False)
                     .gradient_transformation()})
