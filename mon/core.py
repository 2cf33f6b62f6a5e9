"""Monitor context: oracles report to it, it keeps verdicts and coverage."""
import hashlib
import json
import traceback
import zlib

import numpy as np

from mon.env import jax, jnp

tree_leaves = jax.tree_util.tree_leaves
tree_structure = jax.tree_util.tree_structure
tree_map = jax.tree_util.tree_map

MAX_VIOLATIONS_PER_CASE = 2


class StopCase(Exception):
  """The case has reported enough violations."""


class HarnessError(Exception):
  """The harness, not the code under test, is at fault."""


SCENARIOS = {}


def scenario(env='x64', quick=8, thorough=None, cost=1.0):
  """Declares a workload: `quick`/`thorough` repetitions with different seeds."""
  def deco(fn):
    fn.env, fn.quick, fn.cost = env, quick, cost
    fn.thorough = quick * 8 if thorough is None else thorough
    fn.is_scenario = True
    return fn
  return deco


def scenarios_of(module):
  return {n: f for n, f in vars(module).items()
          if getattr(f, 'is_scenario', False)}


def np_of(x):
  return np.asarray(x)


def is_int_key(a):
  return a.dtype.kind in 'iub'


def short(x, n=300):
  try:
    if isinstance(x, (str, int, float, bool, type(None))):
      s = repr(x)
    else:
      s = repr(jax.tree_util.tree_map(
          lambda a: np.asarray(a).tolist() if hasattr(a, 'shape') else a, x))
  except Exception:  # pylint: disable=broad-except
    s = repr(x)
  return s if len(s) <= n else s[:n] + '...'


def digest(*trees):
  h = hashlib.blake2b(digest_size=12)
  for t in trees:
    for leaf in tree_leaves(t):
      a = np.asarray(leaf)
      h.update(str(a.dtype).encode() + str(a.shape).encode())
      h.update(np.ascontiguousarray(a).tobytes())
    h.update(b'|')
  return h.hexdigest()


class Ctx:
  """One case: one scenario run with one seed."""

  def __init__(self, prop, tier, seed, name, rep):
    self.prop, self.tier, self.seed = prop, tier, seed
    self.name, self.rep = name, rep
    self.case = f'{name}#{rep}'
    self.rng = np.random.default_rng(
        [seed, rep, zlib.crc32(f'{prop}/{name}'.encode())])
    self.evals = 0
    self.distinct = set()
    self.counters = {}
    self.violations = []
    self.known = {}
    self.samples = []
    self.note = {}
    self.margin = (0., '')  # the closest call among tolerant comparisons

  # -- workload helpers ------------------------------------------------------
  def pick(self, seq):
    seq = list(seq)
    return seq[int(self.rng.integers(len(seq)))]

  def cycle(self, seq, stride=1):
    """Deterministically walks `seq` with the repetition number."""
    seq = list(seq)
    return seq[(self.rep // stride) % len(seq)]

  def coin(self, p=0.5):
    return bool(self.rng.random() < p)

  def describe(self, **kw):
    self.note.update({k: short(v, 200) for k, v in kw.items()})

  # -- observations ----------------------------------------------------------
  def count(self, what, n=1):
    self.counters[what] = self.counters.get(what, 0) + n

  def seen(self, *key):
    h = hashlib.blake2b(repr(key).encode(), digest_size=10).hexdigest()
    self.distinct.add(h)

  def sample(self, **kw):
    if len(self.samples) < 2:
      self.samples.append({k: short(v, 160) for k, v in kw.items()})

  def _observe(self, what, tree):
    """A non-trivial observation is one whose values are not all zero."""
    leaves = [np.asarray(l) for l in tree_leaves(tree)]
    if any(l.size and np.any(l != 0) for l in leaves):
      self.distinct.add(digest(leaves) + what[:24])

  # -- verdicts --------------------------------------------------------------
  def fail(self, what, **detail):
    self.violations.append({
        'case': self.case, 'what': what, 'note': dict(self.note),
        'detail': {k: short(v) for k, v in detail.items()}})
    if len(self.violations) >= MAX_VIOLATIONS_PER_CASE:
      raise StopCase()

  def known_finding(self, key, what):
    """The mechanism `key` was seen; the driver decides if it is listed."""
    self.known[key] = what

  def ok(self, cond, what, **detail):
    self.evals += 1
    if not bool(cond):
      self.fail(what, **detail)
      return False
    return True

  def structure(self, got, want, what):
    self.evals += 1
    a, b = tree_structure(got), tree_structure(want)
    if a != b:
      self.fail(f'{what}: structure differs', got=str(a), want=str(b))
      return False
    return True

  def same(self, got, want, what, dtypes=True):
    """Bit-identical trees (NaNs compare equal)."""
    if not self.structure(got, want, what):
      return False
    self._observe(what, got)
    for i, (g, w) in enumerate(zip(tree_leaves(got), tree_leaves(want))):
      g, w = np.asarray(g), np.asarray(w)
      self.evals += 1
      if g.shape != w.shape or (dtypes and g.dtype != w.dtype):
        self.fail(f'{what}: leaf {i} is {g.dtype}{g.shape}, '
                  f'expected {w.dtype}{w.shape}')
        return False
      if not dtypes:
        g, w = g.astype(np.float64), w.astype(np.float64)
      if g.dtype.kind in 'fcV':
        eq = (g == w) | ((g != g) & (w != w))
      else:
        eq = g == w
      if not np.all(eq):
        self.fail(f'{what}: leaf {i} differs', got=g, want=w)
        return False
    return True

  def close(self, got, want, what, rtol=None, atol=0., scale=None,
            shapes=True):
    """Leafwise |got - want| <= rtol * max(|want|, scale) + atol.

    `scale` (a number or tree like `want`) is the magnitude of the quantities
    that were combined, for results of cancellation.
    """
    if rtol is None:
      from mon import env
      rtol = 1e-7 if env.X64 else 2e-4
    if not self.structure(got, want, what):
      return False
    self._observe(what, got)
    wl = tree_leaves(want)
    if scale is None:
      sl = [0.] * len(wl)
    elif np.isscalar(scale):
      sl = [scale] * len(wl)
    else:
      sl = tree_leaves(scale)
    for i, (g, w, s) in enumerate(zip(tree_leaves(got), wl, sl)):
      self.evals += 1
      g, w = np.asarray(g), np.asarray(w)
      if shapes and g.shape != w.shape:
        self.fail(f'{what}: leaf {i} has shape {g.shape}, expected {w.shape}')
        return False
      g, w = g.astype(np.float64), w.astype(np.float64)
      if g.shape != w.shape:
        g, w = np.broadcast_arrays(g, w)
      with np.errstate(all='ignore'):
        tol = rtol * np.maximum(np.abs(w), np.abs(np.asarray(s, np.float64))) + atol
        fin = np.isfinite(w)
        good = np.where(fin, np.abs(g - w) <= tol,
                        (g == w) | (np.isnan(g) & np.isnan(w)))
      if not np.all(good):
        bad = np.argwhere(~np.atleast_1d(good))[0].tolist()
        self.fail(f'{what}: leaf {i} is off at {bad}', got=g, want=w,
                  max_abs=float(np.nanmax(np.abs(g - w))) if g.size else 0)
        return False
      with np.errstate(all='ignore'):
        m = np.max(np.abs(g - w) / tol, initial=0.,
                   where=fin & (tol > 0) & (g != w))
      if m > self.margin[0]:
        self.margin = (float(m), what)
    return True

  def finite(self, tree, what):
    self._observe(what, tree)
    for i, l in enumerate(tree_leaves(tree)):
      self.evals += 1
      l = np.asarray(l)
      if l.dtype.kind in 'iub' or l.dtype == np.uint32:
        continue
      if not np.all(np.isfinite(l.astype(np.float64))):
        self.fail(f'{what}: leaf {i} is not finite', got=l)
        return False
    return True

  def raises(self, exc, fn, what):
    self.evals += 1
    try:
      out = fn()
    except exc as e:
      self.seen(what, type(e).__name__)
      return True
    except Exception as e:  # pylint: disable=broad-except
      self.fail(f'{what}: raised {type(e).__name__} instead', error=str(e))
      return False
    self.fail(f'{what}: was accepted silently', got=out)
    return False

  # -- result ----------------------------------------------------------------
  def result(self):
    return {'case': self.case, 'evals': self.evals,
            'distinct': sorted(self.distinct), 'counters': self.counters,
            'violations': self.violations, 'known': self.known,
            'samples': self.samples, 'note': self.note,
            'margin': self.margin}


def in_repo(tb):
  """Whether the innermost relevant frames run through the code under test."""
  from mon import env
  import os
  root = os.path.realpath(env.REPO) + os.sep
  for frame in traceback.extract_tb(tb):
    if os.path.realpath(frame.filename).startswith(root):
      return True
  return False


def run_case(module, prop, tier, seed, name, rep):
  ctx = Ctx(prop, tier, seed, name, rep)
  fn = scenarios_of(module)[name]
  np.random.seed((seed * 1000003 + rep) % (2**32))
  try:
    fn(ctx)
  except StopCase:
    pass
  except HarnessError:
    raise
  except Exception as e:  # pylint: disable=broad-except
    # Supported use must not raise: the exception itself is the observation.
    ctx.violations.append({
        'case': ctx.case, 'note': dict(ctx.note),
        'what': f'raised {type(e).__name__}: {str(e)[:300]}',
        'detail': {'in_repo': in_repo(e.__traceback__),
                   'traceback': ''.join(traceback.format_exception(e))[-2500:]}})
  return ctx.result()
