"""C07: max_neighbors bounds every neighborhood and drops nothing else."""

import numpy as np

from pylib.pc.Neighborhood import compute_neighborhoods

from mc import spaces
from mc.checks import c04, c06
from mc.impl import npy, pc


def cases(tier):
  small = {2: (spaces.AXIS3, 3), 3: (spaces.AXIS2, 3), 4: (spaces.AXIS2, 2)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 3),
             4: (spaces.AXIS2, 3)}
  for d, (axis, nmax) in small.items():
    for size in (1, 8) if d == 2 else (8,):
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for i, rad in enumerate([[0.75], [1.75], 'aniso2']):
          for cen in c06.CENTERS:
            for limit in (1, 2, 3):
              if size == 1 and (k + i + limit) % 2 and tier == 'quick':
                continue
              yield {'d': d, 'clouds': pack, 'radii': rad, 'mult': 1.0,
                     'centers': cen, 'pattern': (k + i) % 3, 'empty': k % 2,
                     'limit': limit}
  for d in (2, 3, 4):
    for kind in ('lattice', 'skewed', 'dups'):
      for cen in c06.CENTERS:
        for limit in (1, 2, 3, 5, 7, 8, 16, 100):
          yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                    spaces.structured(d, 'dups')],
                 'radii': [1.25], 'mult': 1.0, 'centers': cen, 'pattern': 1,
                 'empty': 0, 'limit': limit}
  for d in (2, 3):
    for a, kind in enumerate(spaces.WIDE):
      for l, cen in enumerate(c06.CENTERS):
        for limit in (1, 4, 9):
          yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                                    spaces.structured(d, kind)],
                 'radii': [1.25], 'mult': 1.0, 'centers': cen,
                 'pattern': l % 3, 'empty': 0, 'limit': limit}
  for a, kind in enumerate(spaces.HUGE):
    for l, limit in enumerate((3, 300)):
      yield {'d': 2 + l, 'clouds': [spaces.structured(2 + l, 'skewed'),
                                    spaces.structured(2 + l, kind)],
             'radii': [0.75], 'mult': 1.0, 'centers': c06.CENTERS[a],
             'pattern': l % 3, 'empty': 0, 'limit': limit}
  # larger cells, and grids with another bounding box
  n = 0
  for d in (2, 3, 4):
    for kind in ('lattice', 'skewed', 'dups'):
      for cen in c06.CENTERS:
        for box in c04.BOXES:
          for mult in (1.0, 1.5) if box else (1.5, 4.0):
            n += 1
            yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                                      spaces.structured(d, kind)],
                   'radii': c06.RADII[n % 4], 'mult': mult, 'centers': cen,
                   'pattern': n % 3, 'empty': n // 3 % 2, 'limit': 1 + n % 5,
                   'box': box}


def check(case, rec):
  cl, grid, rad, full, centers, pts, ids, b = c06.make(case)
  rad_arg = np.array(rad, np.float32) if len(rad) > 1 else rad[0]
  nb = pc.Neighborhood(grid, rad_arg, centers, max_neighbors=case['limit'])
  spts, sids = npy(grid._sorted_points), npy(grid._sorted_batch_ids)
  if centers is None:
    cpts, cids = spts, sids
  else:
    cpts, cids = npy(centers._points), npy(centers._batch_ids)
  c06.compare(nb._original_neigh_ids, nb._samples_neigh_ranges, pts, ids,
              cpts, cids, full, 'original ids', limit=case['limit'])
  c06.compare(nb._neighbors, nb._samples_neigh_ranges, spts, sids, cpts, cids,
              full, 'sorted ids', limit=case['limit'])
  pairs, ranges = compute_neighborhoods(
      grid, rad_arg, centers, case['limit'], return_ranges=True)
  c06.compare(pairs, ranges, pts, ids, cpts, cids, full,
              'compute_neighborhoods', limit=case['limit'])
  rec.op(3)
  rec.state((case['d'], full.tolist(), case['limit'], npy(pairs).tolist(),
             pts.tolist()))
