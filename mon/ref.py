"""Reference models of the published update rules, in numpy float64.

Each model keeps its own history-dependent state per leaf and is written from
the papers' recurrences (and the documented deviations), not from the code.
"""
import numpy as np


class Ref:
  """Model over a list of leaves. step(grads, params) -> updates."""

  def __init__(self, shapes):
    self.shapes = [tuple(s) for s in shapes]
    self.t = 0
    self.setup()

  def zeros(self, fill=0.):
    return [np.full(s, fill, np.float64) for s in self.shapes]

  def setup(self):
    pass

  def step(self, g, p=None):
    self.t += 1
    return self.rule(g, p)


def _ema(decay, old, new):
  return [decay * o + (1. - decay) * n for o, n in zip(old, new)]


def _sq(xs):
  return [x * x for x in xs]


class Adam(Ref):
  def __init__(self, shapes, b1=.9, b2=.999, eps=1e-8, eps_root=0.):
    self.b1, self.b2, self.eps, self.eps_root = b1, b2, eps, eps_root
    super().__init__(shapes)

  def setup(self):
    self.mu, self.nu = self.zeros(), self.zeros()

  def rule(self, g, p):
    self.mu = _ema(self.b1, self.mu, g)
    self.nu = _ema(self.b2, self.nu, _sq(g))
    return self.precondition()

  def precondition(self):
    c1, c2 = 1. - self.b1 ** self.t, 1. - self.b2 ** self.t
    return [(m / c1) / (np.sqrt(v / c2 + self.eps_root) + self.eps)
            for m, v in zip(self.mu, self.nu)]


class Belief(Adam):
  """AdaBelief; the belief is the deviation from the previous prediction."""

  def rule(self, g, p):
    dev = [x - m for x, m in zip(g, self.mu)]
    self.mu = _ema(self.b1, self.mu, g)
    self.nu = _ema(self.b2, self.nu, _sq(dev))
    return self.precondition()


class Yogi(Adam):
  """Additive second moment (Zaheer et al., algorithm 2), bias corrected."""

  def __init__(self, shapes, initial=1e-6, order=2, **kw):
    self.initial, self.order = initial, order
    super().__init__(shapes, **kw)

  def setup(self):
    self.mu, self.nu = self.zeros(self.initial), self.zeros(self.initial)

  def rule(self, g, p):
    self.mu = _ema(self.b1, self.mu, g)
    if self.order == 2:
      self.nu = [v - (1 - self.b2) * np.sign(v - x * x) * x * x
                 for v, x in zip(self.nu, g)]
    else:  # the recorded defect: an average of fourth powers
      self.nu = [self.b2 * v + (1 - self.b2) * np.abs(np.sign(v - x * x)) * x ** 4
                 for v, x in zip(self.nu, g)]
    return self.precondition()


class Radam(Adam):
  def __init__(self, shapes, threshold=5., **kw):
    self.threshold = threshold
    super().__init__(shapes, **kw)

  def precondition(self):
    rho_inf = 2. / (1. - self.b2) - 1.
    b2t = self.b2 ** self.t
    self.rho = rho_inf - 2. * self.t * b2t / (1. - b2t)
    c1, c2 = 1. - self.b1 ** self.t, 1. - b2t
    if self.rho < self.threshold:
      return [m / c1 for m in self.mu]
    r = np.sqrt((self.rho - 4) * (self.rho - 2) * rho_inf /
                ((rho_inf - 4) * (rho_inf - 2) * self.rho))
    return [r * (m / c1) / (np.sqrt(v / c2 + self.eps_root) + self.eps)
            for m, v in zip(self.mu, self.nu)]


class Rms(Ref):
  def __init__(self, shapes, decay=.9, eps=1e-8, initial=0.):
    self.decay, self.eps, self.initial = decay, eps, initial
    super().__init__(shapes)

  def setup(self):
    self.nu = self.zeros(self.initial)

  def rule(self, g, p):
    self.nu = _ema(self.decay, self.nu, _sq(g))
    return [x / np.sqrt(v + self.eps) for x, v in zip(g, self.nu)]


class StdDev(Rms):
  def setup(self):
    self.mu, self.nu = self.zeros(), self.zeros(self.initial)

  def rule(self, g, p):
    self.mu = _ema(self.decay, self.mu, g)
    self.nu = _ema(self.decay, self.nu, _sq(g))
    self.var = [np.maximum(v - m * m, 0.) for m, v in zip(self.mu, self.nu)]
    return [x / np.sqrt(v + self.eps) for x, v in zip(g, self.var)]


class Adagrad(Ref):
  def __init__(self, shapes, initial=.1, eps=1e-7):
    self.initial, self.eps = initial, eps
    super().__init__(shapes)

  def setup(self):
    self.acc = self.zeros(self.initial)

  def rule(self, g, p):
    self.acc = [a + x * x for a, x in zip(self.acc, g)]
    with np.errstate(all='ignore'):
      return [np.where(a > 0, x / np.sqrt(a + self.eps), 0.)
              for x, a in zip(g, self.acc)]


class Sm3(Ref):
  """SM3-II with the cover of co-dimension one slices, and momentum."""

  def __init__(self, shapes, b1=.9, b2=1., eps=1e-8):
    self.b1, self.b2, self.eps = b1, b2, eps
    super().__init__(shapes)

  def setup(self):
    self.cover = [[np.zeros(n) for n in s] or [np.zeros(())]
                  for s in self.shapes]
    self.m = self.zeros()
    self.sumsq = self.zeros()

  def rule(self, g, p):
    w = 1. if self.b2 == 1. else 1. - self.b2
    ups = []
    self.acc = []
    for i, x in enumerate(g):
      nd = x.ndim
      if nd == 0:
        bound = self.cover[i][0]
      else:
        bound = np.full(x.shape, np.inf)
        for ax in range(nd):
          sh = [1] * nd
          sh[ax] = x.shape[ax]
          bound = np.minimum(bound, self.cover[i][ax].reshape(sh))
      acc = self.b2 * bound + w * x * x
      self.sumsq[i] = self.sumsq[i] + x * x
      self.acc.append(acc)
      if nd == 0:
        self.cover[i] = [acc]
      else:
        self.cover[i] = [
            acc.max(axis=tuple(a for a in range(nd) if a != ax), initial=0.)
            for ax in range(nd)]
      with np.errstate(all='ignore'):
        ups.append(np.where(acc > 0, x / np.sqrt(acc + self.eps), 0.))
    self.m = _ema(self.b1, self.m, ups)
    return list(self.m)


class Trace(Ref):
  def __init__(self, shapes, decay=.9, nesterov=False):
    self.decay, self.nesterov = decay, nesterov
    super().__init__(shapes)

  def setup(self):
    self.tr = self.zeros()

  def rule(self, g, p):
    self.tr = [x + self.decay * t for x, t in zip(g, self.tr)]
    if self.nesterov:
      return [x + self.decay * t for x, t in zip(g, self.tr)]
    return list(self.tr)


class Ema(Ref):
  def __init__(self, shapes, decay=.9, debias=True):
    self.decay, self.debias = decay, debias
    super().__init__(shapes)

  def setup(self):
    self.avg = self.zeros()

  def rule(self, g, p):
    self.avg = _ema(self.decay, self.avg, g)
    if self.debias:
      return [a / (1. - self.decay ** self.t) for a in self.avg]
    return list(self.avg)


class Scale(Ref):
  def __init__(self, shapes, s):
    self.s = s
    super().__init__(shapes)

  def rule(self, g, p):
    s = self.s(self.t - 1) if callable(self.s) else self.s
    return [s * x for x in g]


class Decay(Ref):
  def __init__(self, shapes, wd):
    self.wd = wd
    super().__init__(shapes)

  def rule(self, g, p):
    return [x + self.wd * w for x, w in zip(g, p)]


class Trust(Ref):
  def __init__(self, shapes, min_norm=0.):
    self.min_norm = min_norm
    super().__init__(shapes)

  def rule(self, g, p):
    out = []
    for x, w in zip(g, p):
      nw = max(np.sqrt(np.sum(w * w)), self.min_norm)
      nx = max(np.sqrt(np.sum(x * x)), self.min_norm)
      out.append(x * (1. if nw == 0. or nx == 0. else nw / nx))
    return out


class Centralize(Ref):
  def rule(self, g, p):
    return [x - x.mean(axis=tuple(range(1, x.ndim)), keepdims=True)
            if x.ndim > 1 else x for x in g]


class Clip(Ref):
  def __init__(self, shapes, delta):
    self.delta = delta
    super().__init__(shapes)

  def rule(self, g, p):
    return [np.clip(x, -self.delta, self.delta) for x in g]


class GlobalNorm(Ref):
  def __init__(self, shapes, bound):
    self.bound = bound
    super().__init__(shapes)

  def rule(self, g, p):
    n = np.sqrt(sum(np.sum(x * x) for x in g))
    return [x if n < self.bound else x / n * self.bound for x in g]


class Identity(Ref):
  def rule(self, g, p):
    return list(g)


class Chain:
  def __init__(self, *refs):
    self.refs = refs

  def step(self, g, p=None):
    for r in self.refs:
      g = r.step(g, p)
    return g
