"""C34: the CUDA op which samples points, under all schedules."""

import numpy as np

from mc import spaces
from mc.cuda import space
from mc.engine import Violation

AXES = {2: spaces.AXIS4, 3: spaces.AXIS3, 4: spaces.AXIS2, 5: spaces.AXIS2,
        6: spaces.AXIS2}


def cases(tier):
  thorough = tier == 'thorough'
  for d in (2, 3, 4, 5, 6):
    nmax = {2: 3, 3: 2 + thorough, 4: 2 + thorough, 5: 2, 6: 1 + thorough}[d]
    for i, chunk in enumerate(space.cut(
        spaces.clouds(d, AXES[d], nmax), 30)):
      for k, cell in enumerate((0.75, 1.5, 'mixed')):
        for mode in (0, 1):
          if mode and (i + k) % 2 and not thorough:
            continue
          yield {'kind': 'clouds', 'd': d, 'clouds': chunk, 'cell': cell,
                 'mode': mode, 'pattern': (i + k) % 3, 'order': (i + k) % 3,
                 'alone': i % 2}
    for kind in spaces.KINDS if d < 6 else ():
      for cell in (0.75, 2.0, 'mixed'):
        for mode in (0, 1):
          yield {'kind': 'structured', 'd': d, 'cloud': kind, 'cell': cell,
                 'mode': mode, 'order': 0}
    for n, batch in ((33, 2), (64, 1), (130, 3), (520, 2)) + (
        ((1030, 1), (3000, 4)) if thorough else ()):
      for mode in (0, 1):
        yield {'kind': 'many', 'd': d, 'n': n, 'batch': batch, 'mode': mode,
               'order': n % 3}


def sample(rec, configs, grid, radii, mode, order, what):
  inv = (np.float32(1) / radii).astype(np.float32)
  neighbors, ends = space.neighborhoods(grid.points, grid.ids, inv, order)
  n = len(grid.points)
  near = [set() for _ in range(n)]
  for p, c in neighbors.tolist():
    near[c].add(p)
  for config, (points, ids, indices) in space.succeeds(
      rec, configs, 'Sampling',
      [grid.points, grid.ids, grid.keys, grid.num_cells, neighbors, ends],
      mode=mode):
    def fail(text):
      raise Violation('%s, mode %d on %s: %s\npoints %s, batch ids %s\n'
                      'radii %s, cells %s\ngot %s %s %s' % (
                          what, mode, config, text, grid.points.tolist()[:30],
                          grid.ids.tolist()[:30], radii.tolist(),
                          grid.num_cells.tolist(), points.tolist()[:30],
                          ids.tolist()[:30], indices.tolist()[:30]))
    if mode == 0:
      chosen = indices.tolist()
      if len(points) != len(chosen) or len(ids) != len(chosen):
        fail('outputs of different lengths')
      if len(set(chosen)) != len(chosen) or \
          not all(0 <= i < n for i in chosen):
        fail('no set of indices')
      if not np.array_equal(points, grid.points[indices]) or \
          not np.array_equal(ids, grid.ids[indices]):
        fail('not the points of the indices')
      chosen = set(chosen)
      for i in range(n):
        hits = near[i] & chosen
        if i in chosen and hits != {i}:
          fail('samples %d and %s are neighbors' % (i, hits))
        if i not in chosen and not hits:
          fail('point %d has no sample in its neighborhood' % i)
    else:
      want = {}
      for key in np.unique(grid.keys):
        at = grid.keys == key
        want[int(key)] = (grid.points[at].astype(np.float64).mean(0),
                          int(grid.ids[at][0]))
      if len(points) != len(want) or len(ids) != len(want):
        fail('%d cells with points' % len(want))
      left = list(want.values())
      for p, b in zip(points, ids.tolist()):
        match = [i for i, (q, c) in enumerate(left)
                 if c == b and np.allclose(p, q, rtol=1e-5, atol=1e-5)]
        if not match:
          fail('%s of element %d is no average of a cell' % (p.tolist(), b))
        left.pop(match[0])


def check(case, rec):
  if case['kind'] == 'clouds':
    d = case['d']
    cell = np.array([0.75, 1.5, 1.0, 2.0, 0.75, 1.5][:d], np.float32) \
        if case['cell'] == 'mixed' else np.full(d, case['cell'], np.float32)
    for group in space.cut(case['clouds'], 1 if case['alone'] else 2):
      points, ids = spaces.interleave(group, case['pattern'])
      grid = space.Grid(points, ids, len(group), cell)
      # the order of up to four samples is enumerated
      configs = space.ALL[:1] + space.FIXED[1:] \
          if len(points) <= 4 else space.FIXED
      sample(rec, configs, grid, cell, case['mode'], case['order'], 'clouds')
    return
  if case['kind'] == 'structured':
    points = np.array(spaces.structured(case['d'], case['cloud']), np.float32)
    ids = np.arange(len(points)) % 2
    d = case['d']
    cell = np.array([0.75, 1.5, 1.0, 2.0, 0.75, 1.5][:d], np.float32) \
        if case['cell'] == 'mixed' else np.full(d, case['cell'], np.float32)
    sample(rec, space.FIXED, space.Grid(points, ids, 2, cell), cell,
           case['mode'], case['order'], case['cloud'])
    return
  n, d = case['n'], case['d']
  points = space.spread(n, d).astype(np.float32)
  ids = np.arange(n) * 5 % case['batch']
  cell = np.full(d, {2: 0.125, 3: 0.25}.get(d, 0.5), np.float32)
  sample(rec, space.WIDE, space.Grid(points, ids, case['batch'], cell), cell,
         case['mode'], case['order'], 'many')
