"""Every gradient transformation of the library, buildable from (name, seed)."""
import dataclasses
import random
from typing import Callable

import numpy as np

from mon import work
from mon.core import tree_leaves, tree_map
from mon.env import jax, jnp, optax


@dataclasses.dataclass
class Entry:
  name: str
  make: Callable  # random.Random -> GradientTransformation
  needs_params: bool = False
  # 'element': coordinates are independent; 'leaf': leaves are independent;
  # 'global': everything may interact.
  locality: str = 'element'
  per_example: bool = False
  lookahead: bool = False
  noise: bool = False
  counts: bool = False  # keeps a saturating int32 step counter
  skip_kinds: tuple = ()
  nonneg: bool = False

  def build(self, seed):
    return self.make(random.Random(seed))


CATALOG = {}


def _add(name, make, **kw):
  CATALOG[name] = Entry(name, make, **kw)


def _lr(r):
  if r.random() < .5:
    return r.choice([1e-2, .1, .5])
  return r.choice([optax.linear_schedule(.1, .01, 5),
                   optax.exponential_decay(.1, 4, .7),
                   optax.cosine_decay_schedule(.1, 9)])


def _ahp(r):
  return dict(b1=r.choice([.9, .5]), b2=r.choice([.999, .9]))


# Preconditioners and elementary transformations.
_add('identity', lambda r: optax.identity())
_add('scale', lambda r: optax.scale(r.choice([-.1, 2.])))
_add('trace', lambda r: optax.trace(r.choice([.9, .5]), r.random() < .5))
_add('ema', lambda r: optax.ema(r.choice([.9, .5]), r.random() < .5), counts=True)
_add('scale_by_rss', lambda r: optax.scale_by_rss(r.choice([.1, 1.])))
_add('scale_by_rms', lambda r: optax.scale_by_rms(r.choice([.9, .5])))
_add('scale_by_stddev', lambda r: optax.scale_by_stddev(r.choice([.9, .5]), 1e-3))
_add('scale_by_adam', lambda r: optax.scale_by_adam(**_ahp(r)), counts=True)
_add('scale_by_belief', lambda r: optax.scale_by_belief(eps=1e-6, **_ahp(r)), counts=True)
_add('scale_by_yogi', lambda r: optax.scale_by_yogi(**_ahp(r)), counts=True)
_add('scale_by_radam', lambda r: optax.scale_by_radam(**_ahp(r)), counts=True)
_add('scale_by_sm3', lambda r: optax.scale_by_sm3(r.choice([.9, .5])), locality='leaf')
_add('scale_by_schedule', lambda r: optax.scale_by_schedule(
    optax.linear_schedule(1., .1, 5)), counts=True)
_add('scale_by_trust_ratio', lambda r: optax.scale_by_trust_ratio(r.choice([0., .1])),
     needs_params=True, locality='leaf')
_add('add_decayed_weights', lambda r: optax.add_decayed_weights(r.choice([.1, .01])),
     needs_params=True)
_add('centralize', lambda r: optax.centralize(), locality='leaf')
_add('apply_every', lambda r: optax.apply_every(r.choice([1, 2, 3])))
_add('add_noise', lambda r: optax.add_noise(r.choice([.1, 1.]), .55, r.randrange(99)),
     noise=True, locality='global', counts=True)
_add('clip', lambda r: optax.clip(r.choice([.1, 1.])))
_add('clip_by_global_norm', lambda r: optax.clip_by_global_norm(r.choice([.5, 1.])),
     locality='global')
_add('adaptive_grad_clip', lambda r: optax.adaptive_grad_clip(r.choice([.1, .01])),
     needs_params=True, locality='leaf', skip_kinds=('rank5',))
_add('zero_nans', lambda r: optax.zero_nans())
_add('keep_params_nonnegative', lambda r: optax.keep_params_nonnegative(),
     needs_params=True, nonneg=True)
_add('dp_aggregate', lambda r: optax.differentially_private_aggregate(
    1., r.choice([0., .5]), r.randrange(99)), per_example=True, noise=True,
     locality='global')

# Named optimisers.
_add('sgd', lambda r: optax.sgd(_lr(r), r.choice([None, .9]), r.random() < .5))
_add('adam', lambda r: optax.adam(_lr(r), **_ahp(r)), counts=True)
_add('adamw', lambda r: optax.adamw(_lr(r), weight_decay=.05, **_ahp(r)),
     needs_params=True, counts=True)
_add('adabelief', lambda r: optax.adabelief(_lr(r), eps=1e-6, **_ahp(r)), counts=True)
_add('adagrad', lambda r: optax.adagrad(_lr(r)))
_add('fromage', lambda r: optax.fromage(r.choice([.01, .1])), needs_params=True,
     locality='leaf')
_add('lamb', lambda r: optax.lamb(_lr(r), weight_decay=.05, **_ahp(r)),
     needs_params=True, locality='leaf', counts=True)
_add('noisy_sgd', lambda r: optax.noisy_sgd(_lr(r), .1, .55, r.randrange(99)),
     noise=True, locality='global', counts=True)
_add('radam', lambda r: optax.radam(_lr(r), **_ahp(r)), counts=True)
_add('rmsprop', lambda r: optax.rmsprop(
    _lr(r), eps=1e-3, centered=r.random() < .5, momentum=r.choice([None, .9]),
    nesterov=r.random() < .5))
_add('sm3', lambda r: optax.sm3(r.choice([.1, .5])), locality='leaf')
_add('yogi', lambda r: optax.yogi(_lr(r), **_ahp(r)), counts=True)
_add('dpsgd', lambda r: optax.dpsgd(_lr(r), 1., r.choice([0., .5]), r.randrange(99),
                                    r.choice([None, .9])),
     per_example=True, noise=True, locality='global')

# Wrappers.
_add('chain', lambda r: optax.chain(
    optax.clip(1.), optax.scale_by_adam(**_ahp(r)), optax.add_decayed_weights(.01),
    optax.scale(-.1)), needs_params=True, counts=True)
_add('nested_chain', lambda r: optax.chain(
    optax.chain(optax.trace(.9), optax.identity()),
    optax.chain(optax.chain(optax.scale_by_rms(eps=1e-3)), optax.scale(-.1))))
_add('masked', lambda r: optax.masked(
    optax.adam(.1), lambda t: tree_map(lambda x: x.ndim != 1, t)), counts=True)
_add('flatten', lambda r: optax.flatten(optax.adam(_lr(r))), counts=True)
_add('multi_steps', lambda r: optax.MultiSteps(
    optax.adam(.1), r.choice([1, 2, 3]), r.random() < .5).gradient_transformation())
_add('multi_steps_schedule', lambda r: optax.MultiSteps(
    optax.sgd(.1, .9), lambda s: 1 + s % 3).gradient_transformation())
_add('apply_if_finite', lambda r: optax.apply_if_finite(
    optax.adam(_lr(r)), r.choice([0, 2])), locality='global', counts=True)
_add('maybe_update', lambda r: optax.maybe_update(
    optax.adam(.1), lambda s: s % 3 != 1))
_add('inject_hyperparams', lambda r: optax.inject_hyperparams(optax.adam)(
    learning_rate=optax.linear_schedule(.1, .01, 6), b1=r.choice([.9, .5])),
     counts=True)
_add('inject_constant', lambda r: optax.inject_hyperparams(optax.sgd)(
    learning_rate=.1, momentum=.9), counts=True)
_add('lookahead', lambda r: optax.lookahead(
    optax.adam(.1), r.choice([1, 2, 3]), .5, r.random() < .5),
     needs_params=True, lookahead=True)
_add('deep', lambda r: optax.apply_if_finite(optax.chain(
    optax.zero_nans(), optax.clip_by_global_norm(1.),
    optax.masked(optax.add_decayed_weights(.1), lambda t: tree_map(
        lambda x: x.ndim != 1, t)),
    optax.inject_hyperparams(optax.adam)(.1)), 3),
     needs_params=True, locality='global', counts=True)

NAMES = list(CATALOG)


def problem(ctx, entry, kind=None, steps=4, dtype=None, style='normal', batch=3,
            scale=1.):
  """Initial params and a gradient history fitting the entry."""
  kind = kind or ctx.pick([k for k in work.KINDS if k not in entry.skip_kinds])
  p = work.params(ctx, kind, dtype=dtype, scale=scale,
                  style='positive' if entry.nonneg else 'normal')
  like = p
  if entry.per_example:
    like = tree_map(lambda a: np.zeros((batch,) + np.shape(a), a.dtype), p)
  gs = work.grad_history(ctx, like, steps, style)
  if entry.lookahead:
    p = optax.LookaheadParams.init_synced(p)
  return kind, p, gs


def run(entry, opt, p, gs, state=None, update=None, apply=True):
  """Updates, final state and params of a run over gs."""
  update = update or opt.update
  state = opt.init(p) if state is None else state
  ups = []
  for g in gs:
    u, state = update(work.to_jax(g), state, p)
    if apply:
      p = work.add(p, u)
    ups.append(u)
  return ups, state, p


def kinds_for(names, kinds=None):
  """The tree kinds that all the named entries support."""
  bad = {k for n in names for k in CATALOG[n].skip_kinds}
  return [k for k in (kinds or work.KINDS) if k not in bad]
