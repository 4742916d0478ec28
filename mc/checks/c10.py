"""C10: cell average sampling returns the mean of every occupied cell."""

import itertools
from collections import Counter

import numpy as np

from mc import spaces
from mc.checks import c04
from mc.engine import Skip, Violation
from mc.impl import need, need_equal, npy, pc

CELLS = [[0.8], [0.3], [1.6], [2.0], 'anisoc', [5.0], [0.75]]
MODES = ['cell_sizes', 'grid', 'sample', 'sample2']


def cases(tier):
  small = {2: (spaces.AXIS4, 2), 3: (spaces.AXIS3, 2), 4: (spaces.AXIS2, 2)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 3),
             4: (spaces.AXIS3, 2), 5: (spaces.AXIS2, 2)}
  n = 0
  for d, (axis, nmax) in small.items():
    for size in (1, 3, 16):
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for j, spec in enumerate(CELLS):
          if size == 1 and (k + j) % 3 and tier == 'quick':
            continue
          n += 1
          mode = MODES[n % 4]
          box = None
          if mode != 'cell_sizes':
            box = c04.BOXES[(n // 4) % 4]
          yield {'d': d, 'clouds': pack, 'cells': spec, 'box': box,
                 'mode': mode, 'pattern': (k + j) % 3, 'empty': k % 2}
  for d in (2, 3, 4, 5):
    for kind in spaces.KINDS + ['tiny']:
      for spec in CELLS:
        for box in c04.BOXES:
          for mode in MODES:
            if mode == 'cell_sizes' and box is not None:
              continue
            if d > 3 and mode not in ('grid',):
              continue
            yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                      spaces.structured(d, 'skewed')],
                   'cells': spec, 'box': box, 'mode': mode, 'pattern': 1,
                   'empty': 1}
    for a, kind in enumerate(spaces.WIDE + ['odd'] + (
        spaces.HUGE if d < 4 else [])):
      for i, spec in enumerate(CELLS):
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(d, 'skewed')],
               'cells': spec, 'box': None,
               'mode': MODES[(a + i) % 4] if d < 4 else 'grid',
               'pattern': (a + i) % 3, 'empty': i % 2}


def match(spts, pts, cells):
  """Whether the samples are the means of the groups of equal cells."""
  groups = {}
  for q, cell in zip(pts, cells):
    groups.setdefault(tuple(cell), []).append(q)
  means = [np.mean(np.asarray(g, np.float64), axis=0)
           for g in groups.values()]
  # what adding the points of the group in single precision, in any order,
  # can cost
  tols = [(len(g) + 4) * 2.**-24 * np.abs(np.asarray(g, np.float64)).max(0)
          + 1e-30 for g in groups.values()]
  if len(means) != len(spts):
    return False, means
  free = list(range(len(spts)))
  for m, tol in zip(means, tols):
    hit = [i for i in free if np.all(np.abs(spts[i] - m) <= tol)]
    if not hit:
      return False, means
    free.remove(min(hit, key=lambda i: np.abs(spts[i] - m).max()))
  return True, means


def check(case, rec):
  spec = case['cells']
  if spec == 'anisoc':
    case = dict(case, cells=[0.8, 1.6, 0.6, 1.1, 2.0][:case['d']])
  cl, grid, cells, box, pts, ids, b = c04.make_grid(case)
  if case['mode'] == 'cell_sizes':
    arg = cells if len(set(cells.tolist())) > 1 else float(cells[0])
    out = pc.cell_average_sampling(cl, cell_sizes=arg)
  elif case['mode'] == 'grid':
    out = pc.cell_average_sampling(cl, grid=grid)
  else:
    nb = pc.Neighborhood(grid, cells)
    out, index = pc.sample(nb, 'cell average' if case['mode'] == 'sample'
                           else 'average')
    need(index is None, 'cell average sampling returns ids')
  rec.op(2)
  spts, sids = npy(out._points), npy(out._batch_ids)
  need(len(spts) == len(sids) and spts.shape[1:] == (case['d'],),
       'sampled points of shape %s, ids %s', spts.shape, sids.shape)
  need(len(sids) == 0 or (sids.min() >= 0 and sids.max() < b),
       'batch ids %s', sids.tolist())
  lo, hi = npy(box._aabb_min), npy(box._aabb_max)
  present = np.arange(b) if case['box'] else np.unique(ids)
  ext = (hi[present].astype(np.float64) - lo[present]).max(0)
  # enough cells to cover the box; a last cell more makes no difference to
  # points inside, but to those outside of a given box
  num = np.maximum(np.ceil(ext / cells - 1e-6), 1)
  if case['box'] and np.any(np.abs(np.round(ext / cells) - ext / cells)
                            < 1e-5):
    raise Skip()
  first, last = c04.possible_cells(pts, ids, lo, cells, num)
  for e in range(b):
    sel = ids == e
    choices = [list(itertools.product(*[range(x, y + 1) for x, y in
                                        zip(f, l)]))
               for f, l in zip(first[sel], last[sel])]
    total = int(np.prod([len(c) for c in choices], dtype=np.float64)) \
        if len(choices) else 1
    if total > 512:
      rec.skipped += 1
      continue
    got, means = spts[sids == e], None
    for assignment in itertools.product(*choices):
      fits, means = match(got, pts[sel], assignment)
      if fits:
        break
    else:
      raise Violation(
          'element %d, points %s, cells %s from %s: samples %s instead of %s'
          % (e, pts[sel].tolist(), cells.tolist(), lo[e].tolist(),
             got.tolist(), [m.tolist() for m in means]))
  need_equal(npy(out.get_sizes()).reshape(-1),
             np.bincount(sids, minlength=b), 'sizes')
  rec.state((case['d'], cells.tolist(), pts.tolist(), ids.tolist(),
             spts.tolist()))
