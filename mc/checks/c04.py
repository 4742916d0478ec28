"""C04: grid keys name the cell and batch element every point lies in."""

import numpy as np

from mc import spaces
from mc.impl import cloud, need, need_equal, npy, pc

CELLS = [[0.75], [0.5], [1.0], [3.0], 'aniso', 'aniso2', [0.3]]
BOXES = [None, 'bigger', 'smaller', 'shifted']


def cell_sizes(spec, d):
  if spec == 'aniso':
    return [[0.75, 1.5, 0.5, 2.0, 1.0][k] for k in range(d)]
  if spec == 'aniso2':
    return [[2.0, 0.375, 1.0, 0.25, 0.5][k] for k in range(d)]
  return list(spec)


def cases(tier):
  small = {2: (spaces.AXIS4, 2), 3: (spaces.AXIS3, 2), 4: (spaces.AXIS2, 2),
           5: (spaces.AXIS2, 1)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 3),
             4: (spaces.AXIS3, 2), 5: (spaces.AXIS2, 2)}
  for d, (axis, nmax) in small.items():
    for size in (1, 3, 16):
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for j, spec in enumerate(CELLS):
          if size == 1 and d > 2 and (k + j) % 3 and tier == 'quick':
            continue
          for box in BOXES if size == 3 else [None]:
            yield {'d': d, 'clouds': pack, 'cells': spec, 'box': box,
                   'pattern': (k + j) % 3, 'empty': k % 2}
  for d in (2, 3, 4, 5):
    for kind in spaces.KINDS + ['tiny']:
      for spec in CELLS + [[0.046875]]:
        if spec == [0.046875] and (kind not in ('tiny', 'single')):
          continue
        for box in BOXES:
          for other in ('pair', 'skewed'):
            yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                      spaces.structured(d, other)],
                   'cells': spec, 'box': box, 'pattern': 1, 'empty': 0}
  for d in (2, 3, 4, 5):
    for a, kind in enumerate(spaces.WIDE):
      for i, spec in enumerate(CELLS):
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(d, 'skewed'),
                                  spaces.structured(d, 'line')][i % 2:],
               'cells': spec, 'box': None, 'pattern': (a + i) % 3, 'empty': i % 2}
  for d in (2, 3):
    for a, kind in enumerate(spaces.HUGE):
      yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                spaces.structured(d, 'skewed')],
             'cells': CELLS[(d + a) % len(CELLS)], 'box': None,
             'pattern': (d + a) % 3, 'empty': a}
  # many batch elements
  for d in (2, 3, 4):
    for i in range(3):
      yield {'d': d, 'clouds': many(d, 70), 'cells': CELLS[i], 'box': None,
             'pattern': i, 'empty': i}
  # more cells than 32 bit integers can number
  for d in (3, 4):
    for count in (1, 3):
      for fine in ((1e-5,) if tier == 'quick' else (1e-5, 3e-6)):
        yield {'d': d, 'clouds': [spaces.structured(d, 'skewed')] * count,
               'cells': [1.0, 1.0] + [fine * 2 ** -k for k in range(d - 2)],
               'box': None, 'pattern': 1, 'empty': 0}


def many(d, count):
  """Elements with no points up to three of them."""
  return [[[0.5 * ((i * 3 + j * (k + 1)) % 7) + 0.125 * i for k in range(d)]
           for j in range((i * 5 + 1) % 4)] for i in range(count)]


def make_box(spec, pts, ids, b, d):
  if spec is None:
    return None
  if spec == 'bigger':
    extra = np.concatenate([np.full([b, d], -2.25), np.full([b, d], 3.125)])
  elif spec == 'smaller':
    extra = np.concatenate([np.full([b, d], -0.5), np.full([b, d], 0.5)])
  else:
    extra = np.concatenate([np.full([b, d], 0.25), np.full([b, d], 2.75)])
  eids = np.concatenate([np.arange(b), np.arange(b)])
  if spec == 'bigger':
    extra = np.concatenate([extra, pts])
    eids = np.concatenate([eids, ids])
  return cloud(extra, eids, b).get_AABB()


def make_grid(case):
  d, pack = case['d'], case['clouds']
  pts, ids = spaces.interleave(pack, case['pattern'])
  b = len(pack) + case.get('empty', 0)
  given = make_box(case['box'], pts, ids, b, d)
  cl = cloud(pts, ids, b)
  cells = cell_sizes(case['cells'], d)
  grid = pc.Grid(cl, np.array(cells, np.float32) if len(cells) > 1
                 else cells[0], given)
  if len(cells) == 1:
    cells = cells * d
  box = given if given is not None else cl.get_AABB()
  return cl, grid, np.array(cells, np.float32), box, pts, ids, b


def possible_cells(pts, ids, lo, cells, num):
  """Lowest and highest admissible cell index per point and axis: a point on
  a face (up to rounding) belongs to either cell; points outside of the box
  belong to the outermost cells."""
  rel = (pts.astype(np.float64) - lo[ids].astype(np.float64)) \
      / cells.astype(np.float64)
  tol = 1e-6 * (1 + np.abs(pts).astype(np.float64) + np.abs(lo[ids])) / cells \
      + 1e-6 * np.abs(rel)
  a = np.clip(np.floor(rel - tol), 0, num - 1)
  c = np.clip(np.floor(rel + tol), 0, num - 1)
  return a.astype(np.int64), c.astype(np.int64)


def check(case, rec):
  cl, grid, cells, box, pts, ids, b = make_grid(case)
  d = case['d']
  rec.op()
  num = npy(grid._num_cells).astype(np.int64)
  lo, hi = npy(box._aabb_min), npy(box._aabb_max)
  present = np.arange(b) if case['box'] else np.unique(ids)
  ext = (hi[present].astype(np.float64) - lo[present]).max(0)
  need(num.shape == (d,) and np.all(num >= 1), 'number of cells %s', num)
  need(np.all(num * cells.astype(np.float64) >= ext * (1 - 1e-5) - 1e-6),
       '%s cells of size %s do not cover the extent %s', num, cells, ext)
  need(np.all((num - 1) * cells.astype(np.float64) <=
              ext * (1 + 1e-5) + 1e-6),
       '%s cells of size %s are more than needed for the extent %s', num,
       cells, ext)
  keys = npy(grid._cur_keys)
  need(keys.shape == (len(pts),), 'keys of shape %s', keys.shape)
  mult = [int(np.prod([int(x) for x in num[k + 1:]])) for k in range(d)]
  total = int(np.prod([int(x) for x in num]))
  first, last = possible_cells(pts, ids, lo, cells, num)
  for i in range(len(pts)):
    key = int(keys[i])
    need(key // total == ids[i],
         'key %d of point %s of element %d: names element %d (%s cells)', key,
         pts[i].tolist(), ids[i], key // total, num.tolist())
    rest = key % total
    for k in range(d):
      c = rest // mult[k]
      rest = rest % mult[k]
      need(first[i, k] <= c <= last[i, k],
           'key %d of point %s: cell %d in axis %d, expected %d..%d '
           '(box from %s, cells %s, %s of them)', key, pts[i].tolist(), c, k,
           first[i, k], last[i, k], lo[ids[i]].tolist(), cells.tolist(),
           num.tolist())
  order = npy(grid._sorted_indices)
  need(sorted(order.tolist()) == list(range(len(pts))),
       'sorted indices %s are not a permutation', order.tolist())
  skeys = npy(grid._sorted_keys)
  need_equal(skeys, keys[order], 'sorted keys')
  need(np.all(np.diff(skeys) <= 0), 'keys are not sorted: %s', skeys.tolist())
  need_equal(grid._sorted_points, pts[order], 'sorted points')
  need_equal(grid._sorted_batch_ids, ids[order], 'sorted batch ids')
  rec.op(4)
  rec.state((d, tuple(num.tolist()), keys.tolist()))
