"""C01: init and update are pure; runs repeat, interleave and resume exactly."""
import os
import pickle
import random
import subprocess
import sys
import tempfile
import threading

import numpy as np

from mon import catalog, core, work
from mon.core import scenario, tree_leaves, tree_map, tree_structure
from mon.env import F, X64, jax, jnp, optax

RULE = ('Every transformation of the library is driven eagerly and compiled; a '
        'monitor snapshots every argument (numpy-backed, so in-place writes '
        'are possible) before each call and compares it afterwards, replays '
        'calls, interleaves two models through one transformation, runs '
        'threads concurrently and resumes a serialised state in a new process '
        'with another hash seed.')
ASSUMPTIONS = ['Bit-identity is demanded only between executions of the same '
               'code in the same mode.']
MIN_EVALS = 3000
MIN_DISTINCT = 400
MIN_COUNTERS = {'resumed in another process': 40, 'threads': 20}
NAMES = catalog.NAMES


def _freeze(tree):
  """Independent copies of all leaves, with the structure."""
  return ([np.array(l, copy=True) for l in tree_leaves(tree)],
          tree_structure(tree), [id(l) for l in tree_leaves(tree)])


def _unchanged(ctx, tree, snap, what):
  leaves, treedef, ids = snap
  ctx.ok(tree_structure(tree) == treedef, f'{what}: container was changed',
         got=str(tree_structure(tree)), want=str(treedef))
  now = tree_leaves(tree)
  ctx.ok([id(l) for l in now] == ids, f'{what}: a leaf was replaced in place')
  for i, (a, b) in enumerate(zip(now, leaves)):
    a = np.asarray(a)
    ctx.ok(a.dtype == b.dtype and a.shape == b.shape and
           a.tobytes() == b.tobytes(), f'{what}: leaf {i} was overwritten',
           got=a, want=b)


def _globals():
  """The global random states a library must leave alone."""
  st = np.random.get_state()
  return (st[0], st[1].tobytes(), st[2:], random.getstate())


def _writable(tree):
  return tree_map(lambda l: np.array(l, copy=True), tree)


def _setup(ctx, name, steps=4, kind=None):
  e = catalog.CATALOG[name]
  kind, p, gs = catalog.problem(ctx, e, kind, steps=steps)
  seed = int(ctx.rng.integers(1000))
  ctx.describe(transform=name, tree=kind, hp_seed=seed)
  return e, seed, kind, p, gs


@scenario(env='x64', quick=98, thorough=980)
def arguments_untouched(ctx):
  """Numpy arguments and all containers survive each call unchanged."""
  e, seed, kind, p, gs = _setup(ctx, ctx.cycle(NAMES), steps=3)
  opt = e.build(seed)
  p = _writable(p)
  snap = _freeze(p)
  before = _globals()
  state = opt.init(p)
  _unchanged(ctx, p, snap, 'params after init')
  if ctx.coin():
    state = _writable(state)
  for t, g in enumerate(gs):
    g = _writable(g)
    sp, ss, sg = _freeze(p), _freeze(state), _freeze(g)
    u1, s1 = opt.update(g, state, p)
    for what, tree, s in (('params', p, sp), ('state', state, ss),
                          ('gradients', g, sg)):
      _unchanged(ctx, tree, s, f'{what} after update {t}')
    # The very same call gives the very same answer.
    u2, s2 = opt.update(g, state, p)
    ctx.same(u2, u1, f'repeated update {t}')
    ctx.same(s2, s1, f'state of repeated update {t}')
    _unchanged(ctx, state, ss, f'state after repeated update {t}')
    ctx.count('calls', 2)
    state = s1
    p = _writable(work.add(p, u1))
  ctx.ok(_globals() == before, 'global random state was changed')
  ctx.seen(e.name, kind, seed)


@scenario(env='x32', quick=49, thorough=490)
def replay_jit(ctx):
  """Branching histories from one state; then the first branch again."""
  e, seed, kind, p, gs = _setup(ctx, ctx.cycle(NAMES), steps=6)
  opt = e.build(seed)
  upd = jax.jit(opt.update)
  i1, i2 = opt.init(p), opt.init(p)
  ctx.same(i2, i1, 'initial state twice')
  a = catalog.run(e, opt, p, gs[:3], i1, upd)
  other = catalog.run(e, opt, p, gs[3:], i1, upd)
  b = catalog.run(e, opt, p, gs[:3], i1, upd)
  ctx.same(b, a, 'run repeated after another run from the same state')
  # A second transformation built from the same arguments is the same function.
  c = catalog.run(e, e.build(seed), p, gs[:3])
  d = catalog.run(e, e.build(seed), p, gs[:3])
  ctx.same(d, c, 'run of a rebuilt transformation')
  del other
  ctx.count('calls', 15)


def _twin(ctx, e, p, steps):
  """A second model with p's structure and other shapes."""
  how = ctx.pick(['grow', 'reverse', 'grow', 'dtype', 'rank', 'rank'])
  batch = 3

  def leaf(x):
    s = np.shape(x)
    s = s[::-1] if how == 'reverse' else tuple(
        d + 1 if how == 'grow' else d for d in s)
    if how == 'rank' and ctx.coin():
      s = (2,) + s if len(s) < 2 else s[1:]
    v = ctx.rng.normal(size=s)
    return jnp.asarray(np.abs(v) if e.nonneg else v,
                       np.float32 if how == 'dtype' else np.asarray(x).dtype)
  q = tree_map(leaf, p.fast if e.lookahead else p)
  like = q
  if e.per_example:
    like = tree_map(lambda a: np.zeros((batch,) + np.shape(a), a.dtype), q)
  gs = work.grad_history(ctx, like, steps)
  if e.lookahead:
    q = optax.LookaheadParams.init_synced(q)
  return q, gs


@scenario(env='x64', quick=98, thorough=490)
def interleaved(ctx):
  """One transformation serves two models of different shape, interleaved."""
  e, seed, kind, p, gs = _setup(ctx, ctx.cycle(NAMES), steps=4)
  twin = ctx.coin(.6)
  if twin:  # the same structure with other sizes
    kind2, (p2, gs2) = kind + ' twin', _twin(ctx, e, p, 4)
  else:
    kind2, p2, gs2 = catalog.problem(ctx, e, None, steps=4)
  opt = e.build(seed)
  jit = ctx.coin()
  upd = jax.jit(opt.update) if jit else opt.update
  ctx.describe(other_tree=kind2, jit=jit)
  a = catalog.run(e, opt, p, gs, update=upd)
  b = catalog.run(e, opt, p2, gs2, update=upd)
  # Fresh object, alternating calls.
  opt = e.build(seed)
  upd = jax.jit(opt.update) if jit else opt.update
  s1, s2 = opt.init(p), opt.init(p2)
  q1, q2, us1, us2 = p, p2, [], []
  for g1, g2 in zip(gs, gs2):
    u, s1 = upd(work.to_jax(g1), s1, q1)
    q1 = work.add(q1, u)
    us1.append(u)
    u, s2 = upd(work.to_jax(g2), s2, q2)
    q2 = work.add(q2, u)
    us2.append(u)
  ctx.same((us1, s1, q1), a, 'first model, interleaved with a second')
  ctx.same((us2, s2, q2), b, 'second model, interleaved with a first')
  ctx.count('calls', 16)


RESHAPING = ['flatten', 'masked', 'multi_transform', 'chain', 'inject_hyperparams',
             'multi_steps', 'apply_if_finite', 'lookahead', 'maybe_update']
RESHAPING = [n for n in RESHAPING if n in catalog.CATALOG]


@scenario(env='x32', quick=36, thorough=288)
def same_structure_other_shapes(ctx):
  """One object serves many models that differ only in their shapes."""
  e, seed, kind, p, gs = _setup(ctx, ctx.cycle(RESHAPING), steps=2)
  models = [(p, gs)] + [_twin(ctx, e, p, 2) for _ in range(3)]
  want = [catalog.run(e, e.build(seed), q, h) for q, h in models]
  opt = e.build(seed)
  order = list(ctx.rng.permutation(len(models))) * 2
  for i in order:
    q, h = models[i]
    ctx.same(catalog.run(e, opt, q, h), want[i], f'model {i} after others in {order}')
    ctx.count('calls', 3)
  ctx.seen(e.name, kind, seed)


@scenario(env='x32', quick=10, thorough=80, cost=3.)
def threads(ctx):
  """Threads drive the same transformation object concurrently."""
  n = 5
  jobs = []
  for i in range(n):
    name = NAMES[(ctx.rep * n + i) % len(NAMES)]
    e, seed, kind, p, gs = _setup(ctx, name, steps=5)
    opt = e.build(seed)
    _, _, gs2 = catalog.problem(ctx, e, kind, steps=5)
    jobs += [(e, opt, p, gs), (e, opt, p, gs2)]
  want = [catalog.run(e, opt, p, gs) for e, opt, p, gs in jobs]
  got = [None] * len(jobs)
  errors = []
  start = threading.Barrier(len(jobs))
  old = sys.getswitchinterval()
  sys.setswitchinterval(1e-5)

  def work_one(i):
    e, opt, p, gs = jobs[i]
    try:
      start.wait()
      got[i] = catalog.run(e, opt, p, gs)
    except Exception as ex:  # pylint: disable=broad-except
      errors.append(f'{e.name}: {type(ex).__name__}: {ex}')
  ts = [threading.Thread(target=work_one, args=(i,)) for i in range(len(jobs))]
  for t in ts:
    t.start()
  for t in ts:
    t.join()
  sys.setswitchinterval(old)
  ctx.ok(not errors, 'a thread failed', errors=errors)
  for (e, *_), g, w in zip(jobs, got, want):
    ctx.same(g, w, f'{e.name} in a thread beside others')
    ctx.count('threads')


def _resume_child(path):
  """Runs in the new process."""
  with open(path, 'rb') as f:
    jobs = pickle.load(f)
  out = []
  for name, seed, state, p, gs in jobs:
    e = catalog.CATALOG[name]
    try:
      u, s, q = catalog.run(e, e.build(seed), p, gs,
                            state=tree_map(jnp.asarray, state))
      out.append(('ok', [np.asarray(l) for l in tree_leaves((u, s, q))]))
    except Exception as ex:  # pylint: disable=broad-except
      out.append(('error', f'{type(ex).__name__}: {ex}'))
  with open(path + '.out', 'wb') as f:
    pickle.dump(out, f)


def _resume(ctx, part, parts):
  jobs, want = [], []
  for i, name in enumerate(NAMES):
    if i % parts != part % parts:
      continue
    e, seed, kind, p, gs = _setup(ctx, name, steps=6)
    cut = int(ctx.rng.integers(0, 6))
    opt = e.build(seed)
    # A process that stops at `cut` and continues from the saved state...
    _, s, q = catalog.run(e, opt, p, gs[:cut])
    jobs.append((name, seed, tree_map(np.asarray, s), tree_map(np.asarray, q),
                 gs[cut:]))
    # ... beside one that never stops, and one that restores the state itself.
    full = catalog.run(e, opt, p, gs)
    here = catalog.run(e, e.build(seed), tree_map(np.asarray, q), gs[cut:],
                       state=tree_map(jnp.asarray, tree_map(np.array, s)))
    want.append((name, cut, full, here))
  with tempfile.TemporaryDirectory() as tmp:
    path = os.path.join(tmp, 'jobs')
    with open(path, 'wb') as f:
      pickle.dump(jobs, f)
    env = dict(os.environ, PYTHONHASHSEED=str(1 + ctx.rep * 7))
    r = subprocess.run(
        [sys.executable, '-W', 'ignore', '-c',
         'import sys; from mon.props import c01; c01._resume_child(sys.argv[1])',
         path], env=env, capture_output=True, text=True)
    if r.returncode:
      raise core.HarnessError(r.stderr[-2000:])
    with open(path + '.out', 'rb') as f:
      out = pickle.load(f)
  for (name, cut, full, here), (status, got) in zip(want, out):
    ctx.describe(transform=name, cut=cut)
    if not ctx.ok(status == 'ok', f'{name}: resuming raised', error=got):
      continue
    ctx.same(got, [np.asarray(l) for l in tree_leaves(here)],
             f'{name} resumed at step {cut} in a new process')
    us, s, q = full
    ctx.close(got, [np.asarray(l) for l in tree_leaves((us[cut:], s, q))],
              f'{name} resumed at step {cut} beside an uninterrupted run',
              rtol=1e-9 if X64 else 1e-3, scale=1.)
    ctx.count('resumed in another process')


@scenario(env='x64', quick=4, thorough=24, cost=25.)
def resume_process(ctx):
  _resume(ctx, ctx.rep, 4)


@scenario(env='x32', quick=4, thorough=24, cost=25.)
def resume_process32(ctx):
  _resume(ctx, ctx.rep, 4)


@scenario(env='x64', quick=49, thorough=490)
def functions_pure(ctx):
  """Losses, updates, linear algebra and schedules do not write to arguments."""
  r = ctx.rng
  a = np.asarray(r.normal(size=(4, 3)))
  b = np.asarray(r.normal(size=(4, 3)))
  lab = np.eye(3)[r.integers(0, 3, 4)]
  idx = r.integers(0, 3, 4)
  tree = work.params(ctx, ctx.cycle(work.KINDS))
  t1, t2 = _writable(tree), _writable(tree)
  m = a.T @ a
  table = {5: .5, 2: .3, 9: 2.}
  ct = [dict(init_value=0., peak_value=1., warmup_steps=3, decay_steps=7),
        dict(init_value=0., peak_value=.5, warmup_steps=2, decay_steps=5)]
  calls = [
      ('l2_loss', optax.l2_loss, (a, b)),
      ('huber_loss', optax.huber_loss, (a, b)),
      ('cosine_similarity', optax.cosine_similarity, (a, b)),
      ('cosine_distance', optax.cosine_distance, (a, b)),
      ('sigmoid_binary_cross_entropy', optax.sigmoid_binary_cross_entropy,
       (a, lab)),
      ('softmax_cross_entropy', optax.softmax_cross_entropy, (a, lab)),
      ('smooth_labels', lambda x: optax.smooth_labels(x, .1), (lab,)),
      ('apply_updates', optax.apply_updates, (t1, t2)),
      ('incremental_update', lambda x, y: optax.incremental_update(x, y, .3),
       (t1, t2)),
      ('periodic_update', lambda x, y: optax.periodic_update(
          x, y, jnp.asarray(4), 2), (t1, t2)),
      ('global_norm', optax.global_norm, (t1,)),
      ('matrix_inverse_pth_root', lambda x: optax.matrix_inverse_pth_root(x, 2),
       (m,)),
      ('piecewise_constant', lambda t: optax.piecewise_constant_schedule(
          1., t)(jnp.asarray(4)), (table,)),
      ('piecewise_interpolate', lambda t: optax.piecewise_interpolate_schedule(
          'linear', 1., t)(jnp.asarray(4)), (table,)),
      ('sgdr', lambda c: optax.sgdr_schedule(c)(jnp.asarray(9)), (ct,)),
  ]
  name, fn, args = calls[ctx.rep % len(calls)]
  ctx.describe(function=name)
  snap = [_freeze(x) for x in args]
  keys = list(table)
  before = _globals()
  first = fn(*args)
  ctx.ok(_globals() == before, f'{name} changed the global random state')
  for x, s in zip(args, snap):
    _unchanged(ctx, x, s, f'argument of {name}')
  ctx.ok(list(table) == keys, 'order of the table')
  second = fn(*args)
  ctx.same(second, first, f'{name} twice')
  ctx.seen(name, ctx.rep)
