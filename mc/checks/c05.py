"""C05: the grid data structure lists exactly the points of every column."""

import numpy as np

from mc.checks import c04
from mc.impl import need, npy


cases = c04.cases


def check(case, rec):
  cl, grid, cells, box, pts, ids, b = c04.make_grid(case)
  num = npy(grid._num_cells).astype(np.int64)
  spts, sids = npy(grid._sorted_points), npy(grid._sorted_batch_ids)
  first = npy(grid.get_DS())
  again = npy(grid.get_DS())
  rec.op(3)
  need(np.array_equal(first, again), 'second access differs')
  need(first.shape == (b, num[0], num[1], 2), 'shape %s, expected %s',
       first.shape, (b, num[0], num[1], 2))
  lo = npy(box._aabb_min)
  a, c = c04.possible_cells(spts, sids, lo, cells, num)
  owner = np.full(len(pts), -1)
  start, end = first[..., 0], first[..., 1]
  for e, i, j in zip(*np.nonzero(end > start)):
    s, t = start[e, i, j], end[e, i, j]
    need(0 <= s and t <= len(pts), 'range %d:%d of column %s', s, t,
         (e, i, j))
    for p in range(s, t):
      need(owner[p] == -1, 'point %d is listed in two columns', p)
      owner[p] = 1
      need(sids[p] == e and a[p, 0] <= i <= c[p, 0] and
           a[p, 1] <= j <= c[p, 1],
           'column %s lists point %s of element %d, which lies in column '
           '%s..%s', (e, i, j), spts[p].tolist(), sids[p], a[p, :2].tolist(),
           c[p, :2].tolist())
  need(np.all(owner == 1), 'points %s are in no column',
       np.nonzero(owner != 1)[0].tolist())
  rec.state((case['d'], first.tobytes(), tuple(num.tolist())))
