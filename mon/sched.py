"""Exact schedules in numpy float64, from their documented definitions."""
import math

import numpy as np


def polynomial(init, end, power, steps, begin=0):
  if steps <= 0:
    return lambda c: init
  begin = max(begin, 0)

  def f(c):
    d = min(max(c - begin, 0), steps)
    return (init - end) * (1. - d / steps) ** power + end
  return f


def piecewise_constant(init, table=None):
  def f(c):
    v = init
    for b, s in (table or {}).items():
      if c >= b:
        v *= s
    return v
  return f


def exponential(init, steps, rate, begin=0, staircase=False, end=None):
  if steps <= 0 or rate == 0:
    return lambda c: init
  begin = max(begin, 0)

  def f(c):
    d = c - begin
    if d <= 0:
      v = init
    else:
      v = init * rate ** (d // steps if staircase else d / steps)
    if end is not None:
      v = max(v, end) if rate < 1. else min(v, end)
    return v
  return f


def cosine(init, steps, alpha=0.):
  def f(c):
    x = min(c, steps) / steps
    return init * ((1 - alpha) * .5 * (1 + math.cos(math.pi * x)) + alpha)
  return f


def interpolate(kind, init, table=None):
  pts = [(0, init)]
  v = init
  for b, s in sorted((table or {}).items()):
    v *= s
    pts.append((b, v))

  def f(c):
    if c >= pts[-1][0]:
      return pts[-1][1]
    for (b0, v0), (b1, v1) in zip(pts, pts[1:]):
      if b0 <= c < b1:
        x = (c - b0) / (b1 - b0)
        if kind == 'cosine':
          x = .5 * (1 - math.cos(math.pi * x))
        return v0 + (v1 - v0) * x
    raise AssertionError
  return f


def join(fs, bounds):
  def f(c):
    i, off = 0, 0
    for k, b in enumerate(bounds):
      if c >= b:
        i, off = k + 1, b
    return fs[i](c - off)
  return f


def warmup_cosine(init, peak, warmup, decay, end=0.):
  return join([polynomial(init, peak, 1, warmup),
               cosine(peak, decay - warmup, end / peak)], [warmup])


def warmup_exponential(init, peak, warmup, steps, rate, begin=0,
                       staircase=False, end=None):
  return join([polynomial(init, peak, 1, warmup),
               exponential(peak, steps, rate, begin, staircase, end)], [warmup])


def sgdr(cycles):
  bounds, at = [], 0
  for k in cycles:
    at += k['decay_steps']
    bounds.append(at)
  return join([warmup_cosine(k['init_value'], k['peak_value'],
                             k['warmup_steps'], k['decay_steps'],
                             k.get('end_value', 0.)) for k in cycles],
              bounds[:-1])


def merge(items):
  out = {}
  for b, s in items:
    out[b] = out.get(b, 1.) * s
  return out


def linear_onecycle(steps, peak, pct_start=.3, pct_final=.85, div=25., final=1e4):
  return interpolate('linear', peak / div, merge([
      (int(pct_start * steps), div), (int(pct_final * steps), 1. / div),
      (steps, 1. / final)]))


def cosine_onecycle(steps, peak, pct_start=.3, div=25., final=1e4):
  return interpolate('cosine', peak / div, merge([
      (int(pct_start * steps), div), (steps, 1. / (div * final))]))
