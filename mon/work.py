"""Workload generators: parameter trees, gradient histories, hyperparameters."""
import collections

import numpy as np

from mon.env import jax, jnp, F, X64
from mon.core import tree_map, tree_leaves, tree_structure

Pair = collections.namedtuple('Pair', ['first', 'second'])


@jax.tree_util.register_pytree_node_class
class Node:
  """A user-registered container."""

  def __init__(self, kernel, bias):
    self.kernel, self.bias = kernel, bias

  def tree_flatten(self):
    return (self.kernel, self.bias), 'aux'

  @classmethod
  def tree_unflatten(cls, aux, children):
    assert aux == 'aux'
    return cls(*children)


# Shapes come from a small pool so that per-op compilations are shared.
TREES = {
    'vector': lambda: (3,),
    'matrix_bias': lambda: {'w': (4, 3), 'b': (3,)},
    'nested': lambda: {'a': {'b': [(), (2, 1, 3)]}, 'c': ((4, 3), {'d': (3,)})},
    'holes': lambda: {'x': (4, 3), 'n': None, 'e': {}, 't': [], 'y': [(3,), None]},
    'custom': lambda: {'n': Node((4, 3), (3,)), 'p': Pair((), [(2, 1, 3)])},
    'empty_leaf': lambda: {'z': (0, 3), 'w': (3,)},
    'scalar': lambda: (),
    'many': lambda: [(3,)] * 11,
    'conv': lambda: {'k': (2, 3, 2, 2), 'b': (2,)},
    'one': lambda: {'w': (1, 1), 'v': (1,), 'u': (1, 5), 't': (5, 1)},
    'rank5': lambda: {'k': (2, 2, 3, 2, 2), 'b': (3,)},
    'crowd': lambda: [(3,), ()] * 21,
    'wide': lambda: {'w': (33, 9), 'b': (300,), 's': (), 'l': (40, 3)},
    'big': lambda: {'e': (64, 80), 'v': (5003,), 's': ()},
    'tower': lambda: [(4, 3), (3,)] * 36,
    'ordered': lambda: collections.OrderedDict(
        [('z', (3,)), ('a', (4, 3)), ('m', ((), (3,)))]),
}
# Trees too large for work that grows with the square of their size.
LARGE = ('big', 'tower')
# Trees for optimisers that look at the rank of parameters.
KINDS = [k for k in TREES if k != 'tower']
PLAIN = [k for k in KINDS if k != 'empty_leaf']


def _is_shape(x):
  return isinstance(x, tuple) and all(isinstance(i, int) for i in x) and (
      not isinstance(x, Pair))


def build(kind, leaf):
  """The tree `kind` with `leaf(shape, index)` at its leaves."""
  n = [0]

  def rec(t):
    if t is None:
      return None
    if _is_shape(t):
      n[0] += 1
      return leaf(t, n[0] - 1)
    if isinstance(t, dict):
      return type(t)((k, rec(v)) for k, v in t.items())
    if isinstance(t, list):
      return [rec(v) for v in t]
    if isinstance(t, Node):
      return Node(rec(t.kernel), rec(t.bias))
    if isinstance(t, Pair):
      return Pair(*[rec(v) for v in t])
    if isinstance(t, tuple):
      return tuple(rec(v) for v in t)
    raise TypeError(t)

  return rec(TREES[kind]())


def params(ctx, kind, dtype=None, scale=1., style='normal'):
  dtype = dtype or F
  rng = ctx.rng

  def leaf(shape, i):
    if style == 'zeros' or (style == 'some_zero' and i % 2 == 0):
      x = np.zeros(shape)
    elif style == 'positive':
      x = np.abs(rng.normal(size=shape)) * scale
    else:
      x = rng.normal(size=shape) * scale
    return jnp.asarray(x, dtype)
  return build(kind, leaf)


GRAD_STYLES = ['normal', 'small', 'large', 'lognormal', 'constant', 'sparse',
               'alternating', 'burst', 'ties', 'decaying', 'mostly_zero',
               'integers', 'huge', 'tiny', 'one_huge']


def grad_history(ctx, like, steps, style=None, dtype=None):
  """A list of `steps` gradient trees (numpy float64 rounded to the dtype)."""
  rng = ctx.rng
  style = style or ctx.pick(GRAD_STYLES)
  leaves, treedef = jax.tree_util.tree_flatten(like)
  shapes = [np.shape(l) for l in leaves]
  dts = [np.asarray(l).dtype if dtype is None else dtype for l in leaves]
  base = [rng.normal(size=s) for s in shapes]
  hist = []
  for t in range(steps):
    out = []
    for s, b, dt in zip(shapes, base, dts):
      n = rng.normal(size=s)
      if style == 'normal':
        g = n
      elif style == 'small':
        g = n * 1e-4
      elif style == 'large':
        g = n * 1e3
      elif style == 'lognormal':
        g = n * np.exp(2.5 * rng.normal(size=s))
      elif style == 'constant':
        g = b
      elif style == 'sparse':
        g = np.where(rng.random(s) < 0.3, n, 0.)
      elif style == 'alternating':
        g = b * (-1.) ** t
      elif style == 'burst':
        g = n * (50. if t % 7 == 3 else 0.02)
      elif style == 'ties':
        g = np.where(rng.random(s) < 0.5, 1., -1.)
      elif style == 'decaying':
        g = (b + 0.1 * n) * 0.8 ** t
      elif style == 'mostly_zero':
        g = n if t % 4 == 1 else np.zeros(s)
      elif style == 'huge':
        g = n * 1e8
      elif style == 'tiny':
        g = n * 1e-7
      elif style == 'one_huge':  # one coordinate dwarfs all others
        g = np.array(n)
        if g.size and (t + len(out)) % 2 == 0:
          g.reshape(-1)[rng.integers(g.size)] *= 1e7
      elif style == 'integers':
        g = rng.integers(-3, 4, size=s).astype(float)
      else:
        raise ValueError(style)
      out.append(np.asarray(g, dt))
    hist.append(jax.tree_util.tree_unflatten(treedef, out))
  return hist


def to_jax(tree):
  return tree_map(jnp.asarray, tree)


def f64(tree):
  return tree_map(lambda a: np.asarray(a).astype(np.float64), tree)


def zeros_like64(tree):
  return tree_map(lambda a: np.zeros(np.shape(a)), tree)


def add(p, u):
  """The optimiser step, computed by the harness."""
  return tree_map(lambda a, b: jnp.asarray(a + b, a.dtype), p, u)


def logu(ctx, lo, hi):
  return float(np.exp(ctx.rng.uniform(np.log(lo), np.log(hi))))


def decay_rate(ctx):
  return ctx.pick([0., 0.1, 0.5, 0.9, 0.95, 0.99, 0.999, 0.9999, 1e-4,
                   float(ctx.rng.uniform(0, 1))])


def drive(opt, params, grads, state=None, mode='jit', with_params=True,
          apply=True, on_step=None):
  """Runs `opt` over `grads`; returns lists of updates, states, params."""
  update = opt.update
  if mode == 'jit':
    update = jax.jit(opt.update)
  if state is None:
    state = opt.init(params)
  ups, states, ps = [], [state], [params]
  for g in grads:
    g = to_jax(g)
    if with_params:
      u, state = update(g, state, params)
    else:
      u, state = update(g, state)
    if apply:
      params = add(params, u)
    ups.append(u)
    states.append(state)
    ps.append(params)
  return ups, states, ps
