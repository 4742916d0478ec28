"""C32: the CUDA ops which compute the keys of points and the access structure
of a grid, under all schedules."""

import itertools

import numpy as np

from mc import spaces
from mc.cuda import space
from mc.engine import Violation

# cell sizes whose inverse is exact, so that points on the border between cells
# have one right cell
CELLS = [0.5, 1.0, 0.25]
AXIS = [-1.0, -0.25, 0.5, 2.0, 8.0]


def cases(tier):
  thorough = tier == 'thorough'
  for d in (2, 3, 4, 5, 6):
    axis = AXIS if d == 2 else AXIS[:4] if d == 3 else [-0.75, 0.5] \
        if d == 4 else [-0.25, 2.0]
    nmax = {2: 3, 3: 2}.get(d, 1)
    if d > 3:
      nmax = 2 + thorough - (d == 6)
    clouds = spaces.clouds(d, axis, nmax)
    for i, chunk in enumerate(space.cut(clouds, 60)):
      for cells in ([1] * d, [2] * d, [2, 3, 1, 4, 2, 3][:d]):
        for batch in (1, 3):
          yield {'op': 'keys', 'd': d, 'clouds': chunk, 'cells': cells,
                 'size': CELLS[i % 3], 'batch': batch}
    for n in (31, 64, 65, 300) + ((1000, 5000) if thorough else ()):
      for batch in (1, 4):
        yield {'op': 'keys', 'd': d, 'many': n, 'batch': batch, 'size': 0.125,
               'cells': [7, 5, 3, 2, 2, 3][:d]}
    # keys which need 64 bits
    yield {'op': 'keys', 'd': d, 'many': 40, 'batch': 3, 'size': 2.0 ** -17,
           'cells': [100000, 99999] + [3] * (d - 2)}
  for cells, batch, nmax in (
      ([2, 2], 2, 5), ([3, 2], 1, 5), ([1, 1], 3, 4), ([2, 1, 2], 2, 4),
      ([1, 2, 3], 1, 5), ([2, 2, 2], 2, 3), ([2, 1, 2, 2], 1, 4),
      ([1, 2, 1, 2, 2], 2, 3), ([2, 1, 1, 1, 2, 2], 1, 4)):
    total = batch * int(np.prod(cells))
    for n in range(1, nmax + 2 + 2 * thorough):
      for i, chunk in enumerate(space.cut(
          itertools.combinations_with_replacement(range(total), n), 400)):
        yield {'op': 'ds', 'cells': cells, 'batch': batch,
               'keys': [list(c) for c in chunk]}
  for d in (2, 3, 4, 6):
    for n in (63, 64, 65, 257, 1000) + ((20000,) if thorough else ()):
      yield {'op': 'ds', 'cells': [5, 4, 3, 2, 2, 2][:d], 'batch': 3,
             'many': n}


def check_keys(case, rec, points, ids, smin):
  cells = space.cells_of(points, ids, smin, case['cells'], 1 / case['size'])
  want = space.keys_of(cells, ids, case['cells'])
  for config, (got,) in space.succeeds(
      rec, space.ALL + space.FIXED, 'ComputeKeys',
      [points, ids, smin, case['cells'], [1 / case['size']] * case['d']]):
    if not np.array_equal(got, want):
      raise Violation('keys on %s: points %s, ids %s\ngot  %s\nwant %s' % (
          config, points.tolist(), ids, got.tolist(), want.tolist()))


def check_ds(case, rec, keys):
  want = space.grid_ds(keys, case['cells'], case['batch'])
  for config, (got,) in space.succeeds(
      rec, space.ALL + space.FIXED, 'BuildGridDs',
      [keys, case['cells'], case['cells']], batch_size=case['batch']):
    if got.shape != want.shape or not np.array_equal(got, want):
      raise Violation('grid of the keys %s on %s:\ngot  %s\nwant %s' % (
          keys.tolist(), config, got.tolist(), want.tolist()))


def check(case, rec):
  d = case.get('d')
  if case['op'] == 'keys':
    low = np.array([[0.25 * b - 0.5 + 0.125 * k for k in range(d)]
                    for b in range(case['batch'])], np.float32)
    smin = low / np.float32(case['size'])
    if 'many' in case:
      n = case['many']
      points = (space.spread(n, d) * 2 - 0.75).astype(np.float32)
      check_keys(case, rec, points, [i * 7 % case['batch'] for i in range(n)],
                 smin)
      return
    for i, cloud in enumerate(case['clouds']):
      points = np.array(cloud, np.float32)
      ids = [(i + k) % case['batch'] for k in range(len(points))]
      check_keys(case, rec, points, ids, smin)
    return
  total = case['batch'] * int(np.prod(case['cells']))
  if 'many' in case:
    keys = [(i * i * 7 + i // 3) % total for i in range(case['many'])]
    check_ds(case, rec, np.array(sorted(keys, reverse=True), np.int64))
    return
  for keys in case['keys']:
    check_ds(case, rec, np.array(sorted(keys, reverse=True), np.int64))
