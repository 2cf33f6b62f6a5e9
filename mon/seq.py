"""Drives a transformation beside a reference model, comparing every step."""
import numpy as np

from mon import work
from mon.core import tree_leaves, tree_map
from mon.env import F, X64, jax, jnp


def leaves64(t):
  return [np.asarray(l).astype(np.float64) for l in tree_leaves(t)]


def follow(ctx, opt, model, p, gs, stats=None, rtol=None, mode='jit',
           apply=True, scale_hint=0., what='update', needs_params=True,
           params_seq=None):
  """Runs both; `model` has step(grads, params); returns the last state."""
  update = jax.jit(opt.update) if mode == 'jit' else opt.update
  state = opt.init(p)
  ups = []
  for t, g in enumerate(gs):
    if params_seq is not None:
      p = params_seq[t]
    jg = work.to_jax(g)
    u, state = (update(jg, state, p) if needs_params else update(jg, state))
    want = model.step(leaves64(g), leaves64(p))
    ctx.structure(u, g, f'{what} {t}')
    ctx.close(list(tree_leaves(u)), want, f'{what} {t}', rtol=rtol,
              scale=[np.maximum(np.abs(w), scale_hint) for w in want])
    for name, attr in (stats or {}).items():
      ctx.close(list(tree_leaves(getattr(state, name))),
                getattr(model, attr), f'state.{name} after {t}', rtol=rtol)
    ctx.count('steps')
    ups.append(u)
    if apply:
      p = work.add(p, u)
  return ups, state, p


def shapes(p):
  return [np.shape(l) for l in tree_leaves(p)]
