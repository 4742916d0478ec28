"""C33: the CUDA op which finds neighbors, under all schedules."""

import numpy as np

from mc import spaces
from mc.cuda import space
from mc.engine import Violation

# gaps equal to, below and above the radii, whose inverse is exact
AXES = {2: [-1.0, 0.0, 0.75, 3.0], 3: [-1.0, 0.0, 0.75], 4: [0.0, 0.625],
        5: [0.0, 0.5], 6: [0.0, 0.5]}
SHAPES = ['cell', 'half', 'mixed', 'big']


def cases(tier):
  thorough = tier == 'thorough'
  # all clouds, one of the fixed configurations in either direction
  for d in (2, 3, 4, 5, 6):
    nmax = {2: 3, 3: 2, 4: 2, 5: 2, 6: 1}[d] + (thorough and d < 5)
    for i, chunk in enumerate(space.cut(
        spaces.clouds(d, AXES[d], nmax), 25)):
      for k, shape in enumerate(SHAPES):
        if not thorough and d > 2 and (i + k) % 2:
          continue
        for limit in (0, 1 + (i + k) % 2):
          yield {'kind': 'clouds', 'd': d, 'clouds': chunk, 'shape': shape,
                 'centers': ['self', 'lattice'][(i + k // 2) % 2],
                 'pattern': i % 3, 'limit': limit}
  # all orders in which the threads may store the neighbors
  for d in (2, 3, 4, 5):
    for n in (2, 3, 4, 5) + ((6,) if thorough else ()):
      for m in ((1, 2) if n < 4 else (1,)):
        for limit in range(0, n + 1):
          if limit and m * n > 5:
            continue
          for apart in (0, 1):
            yield {'kind': 'orders', 'd': d, 'n': n, 'm': m, 'limit': limit,
                   'apart': apart}
  # many centers and points
  for d in (2, 3, 4, 5, 6):
    for kind in spaces.KINDS if d < 6 else ():
      for shape in SHAPES:
        for limit in (0, 3):
          yield {'kind': 'structured', 'd': d, 'cloud': kind, 'shape': shape,
                 'limit': limit}
    for n, batch in ((33, 2), (64, 1), (130, 3), (520, 2)) + (
        ((1030, 1), (2000, 5)) if thorough else ()):
      if d > 4 and n > 200:
        continue
      for limit in (0, 2):
        yield {'kind': 'many', 'd': d, 'n': n, 'batch': batch, 'limit': limit}


def find(rec, configs, grid, centers, cids, radii, limit, what):
  inv = (np.float32(1) / np.asarray(radii, np.float32)).astype(np.float32)
  want, edge = space.pairs(grid.points, grid.ids, centers, cids, inv)
  if edge:
    rec.skipped += 1
    return
  sizes = np.bincount([c for _, c in want], minlength=len(centers))
  if limit:
    sizes = np.minimum(sizes, limit)
  ends = np.cumsum(sizes)
  for config, (got_ends, got) in space.succeeds(
      rec, configs, 'FindNeighbors',
      [centers, cids, grid.points, grid.keys, grid.ds, grid.num_cells,
       grid.smin, grid.inv, inv], max_neighs=limit):
    def fail(text):
      raise Violation(
          '%s, limit %d, radii %s on %s: %s\npoints %s\ncenters %s\n'
          'ends %s\nneighbors %s\nall pairs %s' % (
              what, limit, list(radii), config, text, grid.points.tolist()[:20],
              np.asarray(centers).tolist()[:20], got_ends.tolist()[:40],
              got.tolist()[:60], sorted(want)[:60]))
    if got_ends.shape != ends.shape or not np.array_equal(got_ends, ends):
      fail('the ends are not %s' % ends.tolist()[:40])
    found = [tuple(r) for r in got.tolist()]
    if len(set(found)) != len(found):
      fail('a pair is listed twice')
    if not set(found) <= want:
      fail('a pair is not closer than the radius')
    if len(found) != ends[-1]:
      fail('%d pairs' % len(found))
    if not np.array_equal(got[:, 1], np.repeat(np.arange(len(sizes)), sizes)):
      fail('pairs are not grouped by center')


def radii_of(shape, d, cell):
  return {'cell': [cell] * d, 'half': [cell / 2] * d,
          'mixed': [cell * [1, 0.5, 0.25][k % 3] for k in range(d)],
          'big': [cell * 0.984375] * d}[shape]


def check(case, rec):
  d, kind = case.get('d'), case['kind']
  if kind == 'clouds':
    batch = 2
    for group in space.cut(case['clouds'], batch):
      while len(group) < batch:
        group = group + [group[0]]
      points, ids = spaces.interleave(group, case['pattern'])
      cell = {'big': 1.5, 'mixed': [1.0, 2.0, 1.0, 2.0, 1.0, 1.5][:d]}.get(
          case['shape'], 1.0)
      grid = space.Grid(points, ids, batch, cell)
      small = float(np.min(grid.cell))
      if case['centers'] == 'self':
        centers, cids = points, ids
      else:
        all_ = np.array(spaces.positions(d, AXES[d]), np.float32)[::max(
            1, len(AXES[d]) ** d // 9)]
        centers = np.concatenate([all_, all_ + np.float32(0.125)])
        cids = np.arange(len(centers)) % batch
      find(rec, space.FIXED, grid, centers, cids,
           radii_of(case['shape'], d, small), case['limit'], 'clouds')
    return
  if kind == 'orders':
    base = np.array([[0.0] * d, [0.25] * d, [0.5] + [0.0] * (d - 1),
                     [0.0] * (d - 1) + [0.5], [0.375] * d], np.float32)
    points = base[:case['n']].copy()
    if case['apart']:  # in different cells, which different threads visit
      points[1::2, -1] += 0.75
      points[2::3, 0] += 0.625
    cell = 1.0
    grid = space.Grid(points, [0] * len(points), 1, cell)
    centers = np.array([[0.25] * d, [0.125] * d], np.float32)[:case['m']]
    find(rec, space.ALL[:1] if case['m'] > 1 or case['limit'] else space.ALL,
         grid, centers, [0] * len(centers), [cell * (1 if d < 4 else 0.984375)]
         * d, case['limit'], 'orders')
    return
  if kind == 'structured':
    points = np.array(spaces.structured(d, case['cloud']), np.float32)
    ids = np.arange(len(points)) % 2
    grid = space.Grid(points, ids, 2, 1.0)
    find(rec, space.FIXED, grid, points, ids, radii_of(case['shape'], d, 1.0),
         case['limit'], case['cloud'])
    return
  n, batch = case['n'], case['batch']
  points = space.spread(n, d).astype(np.float32)
  ids = np.arange(n) * 5 % batch
  grid = space.Grid(points, ids, batch, {2: 0.25, 3: 0.375}.get(d, 0.5))
  centers = space.spread(n // 2, d, 3).astype(np.float32) * np.float32(1.25)
  find(rec, space.WIDE, grid, centers, np.arange(n // 2) % batch,
       radii_of('cell', d, float(grid.cell[0])), case['limit'], 'many')
