"""C31: the neighbor search without a grid equals its definition."""

import numpy as np

from pylib.pc.custom_ops.custom_ops_tf import find_neighbors_no_grid

from mc import ref, spaces
from mc.checks import c06
from mc.impl import cloud, need, need_equal, npy

RADII = [0.75, 1.0, 1.5, 0.3, 5.0]
CENTERS = ['same', 'other', 'sparse']


def cases(tier):
  small = {1: (spaces.AXIS4, 3), 2: (spaces.AXIS4, 2), 3: (spaces.AXIS3, 2)}
  sizes = (1, 4)
  if tier == 'thorough':
    small = {1: (spaces.AXIS4, 4), 2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 2),
             4: (spaces.AXIS3, 2)}
  for d, (axis, nmax) in small.items():
    for size in sizes:
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for i in range(len(RADII)):
          for l, cen in enumerate(CENTERS):
            yield {'d': d, 'clouds': pack, 'radius': RADII[i],
                   'centers': cen, 'pattern': (k + i + l) % 3,
                   'empty': (k + l) % 2}
  for d in (2, 3, 4, 5):
    for a, kind in enumerate(spaces.KINDS):
      for r in RADII:
        for l, cen in enumerate(CENTERS):
          yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                    spaces.structured(d, 'skewed')],
                 'radius': r, 'centers': cen, 'pattern': (a + l) % 3,
                 'empty': 0}
  for d in (2, 3):
    for a, kind in enumerate(spaces.WIDE + spaces.HUGE):
      for l, cen in enumerate(CENTERS):
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(d, 'skewed')],
               'radius': 1.5, 'centers': cen, 'pattern': (a + l) % 3,
               'empty': 0}


def check(case, rec):
  d = case['d']
  pts, ids = spaces.interleave(case['clouds'], case['pattern'])
  b = len(case['clouds']) + case['empty']
  cin = cloud(pts, ids, b)
  if case['centers'] == 'same':
    cpts, cids, cout = pts, ids, cin
  else:
    cpts, cids = spaces.interleave(
        c06.center_rows(case['centers'], case['clouds'], d),
        (case['pattern'] + 1) % 3)
    cout = cloud(cpts, cids, b)
  r = case['radius']
  ranges, pairs = find_neighbors_no_grid(cin, cout, r)
  ranges, pairs = npy(ranges).astype(np.int64), npy(pairs)
  dist = ref.scaled_distances(pts, cpts, np.ones(d))
  same = ids[None, :] == cids[:, None]
  rounding = (np.abs(dist - r) < 2e-6 * (1 + np.abs(pts).max())) & (dist != r)
  # distances along one axis are exact
  rounding |= (dist == r) & (np.sum(
      pts[None] != cpts[:, None], axis=-1) > 1)
  need(pairs.ndim == 2 and pairs.shape[1] == 2, 'pairs of shape %s',
       pairs.shape)
  got = np.zeros(dist.shape, np.int64)
  np.add.at(got, (pairs[:, 1], pairs[:, 0]), 1)
  want = (same & (dist <= r)).astype(np.int64)
  bad = (got != want) & ~(rounding & same & (got <= 1))
  if bad.any():
    c, p = [x[0] for x in np.nonzero(bad)]
    need(False, 'point %s (element %d) and center %s (element %d) are listed '
         '%d times, radius %g', pts[p].tolist(), ids[p], cpts[c].tolist(),
         cids[c], got[c, p], r)
  need_equal(ranges, np.cumsum(got.sum(1)), 'ranges')
  need(np.all(np.diff(pairs[:, 1]) >= 0), 'pairs are not grouped: %s',
       pairs.tolist())
  rec.op()
  rec.state((d, r, pts.tolist(), ids.tolist(), pairs.tolist()))
