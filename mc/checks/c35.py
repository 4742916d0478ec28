"""C35: the CUDA ops which estimate densities and their derivatives, under all
schedules."""

import numpy as np

from mc import spaces
from mc.cuda import space
from mc.engine import Violation

AXES = {2: spaces.AXIS3, 3: spaces.AXIS3, 4: spaces.AXIS2, 5: spaces.AXIS2,
        6: spaces.AXIS2}


def cases(tier):
  thorough = tier == 'thorough'
  for d in (2, 3, 4, 5, 6):
    nmax = {2: 3, 3: 2, 4: 2, 5: 2, 6: 1}[d] + (thorough and d < 5)
    for i, chunk in enumerate(space.cut(
        spaces.clouds(d, AXES[d], nmax), 30)):
      for radius in (0.875, 'mixed'):
        for mode in (0, 1):
          yield {'kind': 'clouds', 'd': d, 'clouds': chunk, 'radius': radius,
                 'mode': mode, 'pattern': i % 3, 'order': i % 3,
                 'width': (0.2, 0.5, 1.0, 'mixed')[i % 4]}
    for kind in spaces.KINDS if d < 6 else ():
      for mode in (0, 1):
        yield {'kind': 'structured', 'd': d, 'cloud': kind, 'mode': mode,
               'radius': 1.25, 'order': 1, 'width': 'mixed'}
    for n, batch in ((33, 2), (64, 1), (257, 3)) + (
        ((1030, 1), (2500, 4)) if thorough else ()):
      for mode in (0, 1):
        yield {'kind': 'many', 'd': d, 'n': n, 'batch': batch, 'mode': mode,
               'radius': 0.3 if d < 4 else 0.6, 'order': n % 3, 'width': 0.5}


def close(got, want, what, scale, detail):
  if got.shape != want.shape or not np.all(np.isfinite(got)) or \
      not np.all(np.abs(got - want) <= 2e-5 * (scale + np.abs(want)) + 1e-30):
    bad = np.abs(got - want).max() if got.shape == want.shape else '-'
    raise Violation('%s, largest difference %s:\n%s\ngot  %s\nwant %s' % (
        what, bad, detail, got.tolist()[:20], want.tolist()[:20]))


def check_pdf(rec, configs, points, ids, radii, width, mode, order, what):
  d, n = points.shape[1], len(points)
  inv = (np.float32(1) / radii).astype(np.float32)
  inv_width = (np.float32(1) / width).astype(np.float32)
  neighbors, ends = space.neighborhoods(points, ids, inv, order)
  scale = inv_width.astype(np.float64) if mode == 0 else \
      np.full(d, np.sqrt(float(n)))
  p, c = neighbors[:, 0], neighbors[:, 1]
  x = points.astype(np.float64)
  rel = (x[p] - x[c]) * inv.astype(np.float64) * scale
  value = np.prod(np.exp(-0.5 * rel * rel) * 0.3989422804014327 * scale, -1)
  want = np.zeros(n)
  np.add.at(want, c, value)
  upstream = np.array([(-1) ** k * (0.25 + (k * 5 % 8) / 4) for k in range(n)])
  grad = -(value * upstream[c])[:, None] * rel * inv * scale
  want_grad = np.zeros([n, d])
  np.add.at(want_grad, p, grad)
  np.add.at(want_grad, c, -grad)
  size = np.zeros([n, d])
  np.add.at(size, p, np.abs(grad))
  np.add.at(size, c, np.abs(grad))
  detail = 'points %s, batch ids %s, radii %s, bandwidth %s, mode %d' % (
      points.tolist()[:20], list(ids)[:20], radii.tolist(), width.tolist(),
      mode)
  inputs = [points, neighbors, ends, inv_width, inv]
  for op in ('ComputePdf', 'ComputePdfWithPtGrads'):
    for config, (got,) in space.succeeds(rec, configs, op, inputs, mode=mode):
      close(got, want, '%s, %s on %s' % (what, op, config), want.max(), detail)
  for config, (got,) in space.succeeds(
      rec, configs, 'ComputePdfPtGrads', inputs + [upstream], mode=mode):
    close(got, want_grad, '%s, derivatives on %s' % (what, config),
          size.max(), detail)


def vector(value, d, scale):
  if value == 'mixed':
    return scale * np.array([1, 0.5, 1.5, 0.75, 2, 1][:d], np.float32)
  return np.full(d, value, np.float32)


def check(case, rec):
  d = case['d']
  radii = vector(case['radius'], d, np.float32(1.125))
  width = vector(case['width'], d, np.float32(0.5))
  rest = (radii, width, case['mode'], case['order'])
  if case['kind'] == 'clouds':
    for group in space.cut(case['clouds'], 2):
      points, ids = spaces.interleave(group, case['pattern'])
      check_pdf(rec, space.ALL + space.FIXED[1:], points, ids, *rest,
                what='clouds')
  elif case['kind'] == 'structured':
    points = np.array(spaces.structured(d, case['cloud']), np.float32)
    check_pdf(rec, space.FIXED, points, np.arange(len(points)) % 2, *rest,
              what=case['cloud'])
  else:
    points = space.spread(case['n'], d).astype(np.float32)
    check_pdf(rec, space.WIDE, points,
              np.arange(case['n']) * 5 % case['batch'], *rest, what='many')
