"""C06: neighborhoods hold exactly the pairs closer than the radius."""

import numpy as np

from pylib.pc.Neighborhood import compute_neighborhoods

from mc import ref, spaces
from mc.checks import c04
from mc.impl import Violation, cloud, need, need_equal, npy, pc

RADII = [[0.75], [1.0], 'aniso', 'aniso2']
# cell sizes in units of the radius
CELLS = [1.0, 1.5]
CENTERS = ['self', 'same', 'other', 'sparse', 'own']


def radii(spec, d):
  if spec == 'aniso':
    return [[0.75, 1.5, 0.5, 2.25, 1.0][k] for k in range(d)]
  if spec == 'aniso2':
    return [[2.25, 0.5, 1.0, 0.75, 0.5][k] for k in range(d)]
  return list(spec)


def center_rows(kind, pack, d):
  """Center points per batch element."""
  if kind == 'same':
    return pack
  out = []
  for b, c in enumerate(pack):
    base = [[x + (0.25 if k % 2 else -0.375) for k, x in enumerate(p)]
            for p in c]
    # inside, in between and on all sides outside of the bounding box
    grid = [[-1.5 + 0.75 * ((i * (k + 1) + b) % 6) for k in range(d)]
            for i in range(5)]
    corners = [[-1.75] * d, [2.5] * d, [0.0] * d]
    if kind == 'sparse':
      # an element without centers, and one with a single one
      out.append([] if b % 3 == 1 else base[:1])
    else:
      out.append(base + grid + corners)
  if not any(out):
    out[0] = [[0.0] * d]
  return out


def cases(tier):
  small = {2: (spaces.AXIS4, 2), 3: (spaces.AXIS3, 2), 4: (spaces.AXIS2, 2)}
  sizes = {2: (1, 3, 16), 3: (16,), 4: (16,)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 3),
             4: (spaces.AXIS3, 2)}
    sizes = {2: (1, 3, 16), 3: (1, 3, 16), 4: (1, 3, 16)}
  for d, (axis, nmax) in small.items():
    for size in sizes[d]:
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for i, rad in enumerate(RADII):
          for j, mult in enumerate(CELLS):
            for l, cen in enumerate(CENTERS):
              if tier == 'quick' and size == 1 and (i + j + k + l) % 2:
                continue
              yield {'d': d, 'clouds': pack, 'radii': rad, 'mult': mult,
                     'centers': cen, 'pattern': (k + i + j + l) % 3,
                     'empty': (k + l) % 2}
  if tier == 'quick':
    # triples of points
    for k, pack in enumerate(spaces.packs(
        spaces.clouds(2, spaces.AXIS4, 3, 3), 24)):
      for rad in RADII:
        for cen in CENTERS:
          yield {'d': 2, 'clouds': pack, 'radii': rad, 'mult': 1.0,
                 'centers': cen, 'pattern': k % 3, 'empty': 0}
  kinds = spaces.KINDS
  for d in (2, 3, 4, 5):
    for a, kind in enumerate(kinds):
      for rad in RADII + [[3.0]]:
        for mult in CELLS + [4.0]:
          for l, cen in enumerate(CENTERS):
            yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                      spaces.structured(
                                          d, kinds[(a + l) % len(kinds)])],
                   'radii': rad, 'mult': mult, 'centers': cen,
                   'pattern': (a + l) % 3, 'empty': 0}
  for d in (2, 3, 4, 5):
    for a, kind in enumerate(spaces.WIDE):
      for i, rad in enumerate(RADII):
        for l, cen in enumerate(CENTERS):
          if (a + i + l) % 2 and tier == 'quick':
            continue
          yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                                    spaces.structured(d, kind)],
                 'radii': rad, 'mult': [1.0, 1.5][i % 2], 'centers': cen,
                 'pattern': (a + l) % 3, 'empty': 0}
  for d in (2, 3):
    for a, kind in enumerate(spaces.HUGE):
      for l, cen in enumerate(CENTERS[:2]):
        yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                                  spaces.structured(d, kind)],
               'radii': [0.75], 'mult': 1.0, 'centers': cen,
               'pattern': (a + l) % 3, 'empty': 0}
  for d in (2, 3):
    for l, cen in enumerate(CENTERS):
      yield {'d': d, 'clouds': c04.many(d, 70), 'radii': [1.0], 'mult': 1.0,
             'centers': cen, 'pattern': l % 3, 'empty': 1}
  # grids with a bounding box that is not the one of their points
  n = 0
  for d, axis, nmax in ((2, spaces.AXIS4, 2), (3, spaces.AXIS2, 2)):
    for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                          16 if tier == 'quick' else 3)):
      for rad in RADII:
        for cen in CENTERS:
          for mult in CELLS:
            for box in c04.BOXES[1:]:
              n += 1
              if tier == 'quick' and n % 2:
                continue
              yield {'d': d, 'clouds': pack, 'radii': rad, 'mult': mult,
                     'centers': cen, 'pattern': k % 3, 'empty': k % 2,
                     'box': box}
  for d in (2, 3, 4, 5):
    for a, kind in enumerate(kinds):
      for i, rad in enumerate(RADII):
        for l, cen in enumerate(CENTERS):
          for box in c04.BOXES[1:]:
            n += 1
            if tier == 'quick' and n % 3:
              continue
            yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                                      spaces.structured(d, kind)],
                   'radii': rad, 'mult': [1.0, 1.5, 4.0][(i + l) % 3],
                   'centers': cen, 'pattern': (a + l) % 3, 'empty': 0,
                   'box': box}


def make(case):
  """Returns grid, radii and center cloud (None for the grid's points)."""
  d, pack = case['d'], case['clouds']
  pts, ids = spaces.interleave(pack, case['pattern'])
  b = len(pack) + case['empty']
  cl = cloud(pts, ids, b)
  box = c04.make_box(case.get('box'), pts, ids, b, d)
  rad = radii(case['radii'], d)
  full = np.array(rad * d if len(rad) == 1 else rad, np.float32)
  cells = full * np.float32(case['mult'])
  grid = pc.Grid(cl, cells if case['pattern'] else
                 (cells if len(rad) > 1 else float(cells[0])), box)
  if case['centers'] == 'self':
    return cl, grid, rad, full, None, pts, ids, b
  if case['centers'] == 'own':
    return cl, grid, rad, full, cl, pts, ids, b
  cpts, cids = spaces.interleave(center_rows(case['centers'], pack, d),
                                 (case['pattern'] + 1) % 3)
  return cl, grid, rad, full, cloud(cpts, cids, b), pts, ids, b


def expected(pts, ids, cpts, cids, full):
  """Pairs which must, and pairs which may be neighbors: pairs whose distance
  equals the radius up to rounding, but not exactly, are not decided."""
  d = ref.scaled_distances(pts, cpts, full)
  same = ids[None, :] == cids[:, None]
  fuzzy = (np.abs(d - 1.0) < 2e-6) & (d != 1.0)
  must = same & (d < 1.0) & ~fuzzy
  may = same & ((d < 1.0) | fuzzy)
  return must, may


def compare(pairs, ranges, pts, ids, cpts, cids, full, what, limit=0):
  """pairs: [M, 2] of (point, center)."""
  pairs, ranges = npy(pairs).astype(np.int64), npy(ranges).astype(np.int64)
  must, may = expected(pts, ids, cpts, cids, full)
  m = len(pairs)
  need(pairs.shape == (m, 2), '%s: pairs of shape %s', what, pairs.shape)
  need(ranges.shape == (len(cpts),), '%s: ranges of shape %s for %d centers',
       what, ranges.shape, len(cpts))
  got = np.zeros(must.shape, np.int64)
  if m:
    need(pairs.min() >= 0 and pairs[:, 0].max() < len(pts) and
         pairs[:, 1].max() < len(cpts), '%s: invalid ids %s', what,
         pairs.tolist())
    np.add.at(got, (pairs[:, 1], pairs[:, 0]), 1)
  need(got.max(initial=0) <= 1, '%s: a pair is listed twice: %s', what,
       pairs.tolist())
  wrong = (got == 1) & ~may
  if wrong.any():
    c, p = [x[0] for x in np.nonzero(wrong)]
    raise Violation(
        '%s: point %s of element %d is listed as neighbor of center %s of '
        'element %d, radius %s' % (what, pts[p].tolist(), ids[p],
                                   cpts[c].tolist(), cids[c], full.tolist()))
  count = got.sum(1)
  if limit:
    low = np.minimum(must.sum(1), limit)
    high = np.minimum(may.sum(1), limit)
    bad = (count < low) | (count > high)
    if bad.any():
      c = np.nonzero(bad)[0][0]
      raise Violation('%s: center %s has %d neighbors instead of %d' % (
          what, cpts[c].tolist(), count[c], low[c]))
  else:
    missing = must & (got == 0)
    if missing.any():
      c, p = [x[0] for x in np.nonzero(missing)]
      raise Violation(
          '%s: point %s of element %d is missing in the neighborhood of '
          'center %s, radius %s' % (what, pts[p].tolist(), ids[p],
                                    cpts[c].tolist(), full.tolist()))
  # ranges[i] is the end of the neighbors of center i
  ends = np.cumsum(count)
  need_equal(ranges, ends, '%s: ranges' % what)
  need(np.all(np.diff(pairs[:, 1]) >= 0),
       '%s: pairs are not grouped by center: %s', what, pairs.tolist())


def check(case, rec):
  cl, grid, rad, full, centers, pts, ids, b = make(case)
  nb = pc.Neighborhood(grid, rad if len(rad) > 1 else rad[0], centers)
  rec.op(2)
  spts, sids = npy(grid._sorted_points), npy(grid._sorted_batch_ids)
  if centers is None:
    cpts, cids = spts, sids
  else:
    cpts, cids = npy(centers._points), npy(centers._batch_ids)
  used = nb._point_cloud_sampled
  need_equal(used._points, cpts, 'center points of the neighborhood')
  need_equal(used._batch_ids, cids, 'batch ids of the centers')
  compare(nb._original_neigh_ids, nb._samples_neigh_ranges, pts, ids, cpts,
          cids, full, 'pairs w.r.t. the input points')
  compare(nb._neighbors, nb._samples_neigh_ranges, spts, sids, cpts, cids,
          full, 'pairs w.r.t. the sorted points')
  rad_arg = np.array(rad, np.float32) if len(rad) > 1 else rad[0]
  pairs, ranges = compute_neighborhoods(
      grid, rad_arg, centers, return_ranges=True)
  compare(pairs, ranges, pts, ids, cpts, cids, full, 'compute_neighborhoods')
  rec.op()
  rec.state((case['d'], full.tolist(), pts.tolist(), len(cpts),
             npy(pairs).tolist()))
