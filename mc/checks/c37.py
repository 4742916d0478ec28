"""C37: the CUDA ops on devices and inputs of every size: many blocks, loops
over the grid, scans over several levels; no data race, no access outside of a
buffer, nothing read before it is written, no use of released buffers."""

import numpy as np

from mc.cuda import space
from mc.engine import Violation

CASE_TIMEOUT = 800

DEVICES = [dict(sms=s, blocks_per_sm=b, explore=False, reverse=bool(r),
                lazy=bool(z), poison=p)
           for s, b, r, z, p in ((1, 1, 0, 1, 0), (1, 1, 1, 0, 1),
                                 (2, 1, 1, 1, 1), (3, 2, 0, 0, 1),
                                 (80, 16, 1, 1, 0), (80, 16, 0, 0, 1))]


def cases(tier):
  thorough = tier == 'thorough'
  # the scan works on blocks of 512 elements, in two levels from 262145
  for n in (1, 2, 3, 31, 32, 33, 63, 64, 65, 511, 512, 513, 575, 576, 577, 1023,
            1024, 1025, 1536, 1537, 4100) + (
                (20000, 131073, 262144, 262145, 270001) if thorough else
                (8193,)):
    for limit in (0, 1):
      if n > 100000:
        for k in (0, 1):
          yield {'kind': 'scan', 'n': n, 'limit': limit, 'devices': [k]}
      else:
        yield {'kind': 'scan', 'n': n, 'limit': limit,
               'devices': list(range(len(DEVICES)))}
  for d in (2, 3, 4, 5, 6):
    for n, m in ((1, 1), (1, 40), (40, 1), (31, 33), (64, 65), (129, 257),
                 (600, 100)) + (((1100, 700), (3000, 3000)) if thorough
                                else ()):
      if d > 4 and n * m > 3000 and not thorough:
        continue
      for batch in (1, 3):
        yield {'kind': 'ops', 'd': d, 'n': n, 'm': m, 'batch': batch}


def same(rec, devices, name, inputs, order=None, **attributes):
  """The result of an op, which all devices have to agree on."""
  first, device = None, None
  for config, result in space.succeeds(rec, devices, name, inputs,
                                       **attributes):
    if order is not None:
      result = order(result)
    if first is None:
      first, device = result, config
      continue
    for o, (a, b) in enumerate(zip(first, result)):
      if a.shape != b.shape or not (
          np.allclose(a, b, rtol=1e-4, atol=1e-4 * (1 + np.abs(a).max(
              initial=0))) if a.dtype.kind == 'f' else np.array_equal(a, b)):
        raise Violation(
            'output %d of %s differs between %s and %s\n%s\n%s' % (
                o, name, device, config, a.ravel().tolist()[:30],
                b.ravel().tolist()[:30]))
  return first


def by_pair(result):
  ends, pairs = result
  order = np.lexsort((pairs[:, 0], pairs[:, 1]))
  return ends, pairs[order]


def by_index(result):
  points, ids, indices = result
  order = np.argsort(indices, kind='stable')
  return points[order], ids[order], indices[order]


def by_point(result):
  points, ids = result[:2]
  order = np.lexsort(tuple(points.T) + (ids,))
  return points[order], ids[order]


def check(case, rec):
  if case['kind'] == 'scan':
    # two points in one cell; every center has 0, 1 or 2 neighbors
    n = case['n']
    points = np.array([[0.25, 0.25], [0.75, 0.25]], np.float32)
    i = np.arange(n, dtype=np.int64)
    kind = (i * 7 + i // 5 + i // 64) % 3
    centers = np.zeros([n, 2], np.float32)
    centers[:, 0] = np.array([5.0, -0.125, 0.5])[kind]
    centers[:, 1] = 0.25
    sizes = np.minimum(kind, case['limit']) if case['limit'] else kind
    ends = np.cumsum(sizes)
    for k in case['devices']:
      for config, (got, pairs) in space.succeeds(
          rec, [DEVICES[k]], 'FindNeighbors',
          [centers, np.zeros(n), points, [0, 0], [[[[0, 2]]]], [1, 1],
           [[0, 0]], [1, 1], [2, 2]], max_neighs=case['limit']):
        if not np.array_equal(got, ends):
          bad = int(np.nonzero(got != ends)[0][0]) if got.shape == ends.shape \
              else -1
          raise Violation('ends of %d neighborhoods on %s: wrong from %d on: '
                          '%s instead of %s' % (
                              n, config, bad, got[bad:bad + 5].tolist(),
                              ends[bad:bad + 5].tolist()))
        if not np.array_equal(pairs[:, 1], np.repeat(i, sizes)):
          raise Violation('centers of the pairs on %s' % config)
        if case['limit'] == 0:
          one = pairs[np.repeat(kind, sizes) == 1]
          two = pairs[np.repeat(kind, sizes) == 2]
          if one[:, 0].any() or \
              not np.array_equal(two[:, 0].reshape(-1, 2).sum(1),
                                 np.ones(len(two) // 2)):
            raise Violation('points of the pairs on %s' % config)
        elif len(pairs) and not set(np.unique(pairs[:, 0])) <= {0, 1}:
          raise Violation('points of the pairs on %s' % config)
    return
  d, n, m, batch = case['d'], case['n'], case['m'], case['batch']
  devices = DEVICES
  points = space.spread(n, d).astype(np.float32)
  ids = np.arange(n) * 5 % batch
  # about 20 neighbors
  cell = float(np.clip((20 / n) ** (1 / d) / 3, 1 / 16, 0.5))
  grid = space.Grid(points, ids, batch, cell)
  inv = np.full(d, 1 / cell, np.float32)
  keys, = same(rec, devices, 'ComputeKeys', [
      points, ids, grid.smin, grid.num_cells, grid.inv])
  if sorted(keys.tolist()) != sorted(grid.keys.tolist()):
    raise Violation('keys %s instead of %s' % (
        sorted(keys.tolist()), sorted(grid.keys.tolist())))
  ds, = same(rec, devices, 'BuildGridDs', [
      grid.keys, grid.num_cells, grid.num_cells], batch_size=batch)
  centers = (space.spread(m, d, 3) * 1.25 - 0.125).astype(np.float32)
  same(rec, devices, 'FindNeighbors', [
      centers, np.arange(m) % batch, grid.points, grid.keys, ds,
      grid.num_cells, grid.smin, grid.inv, inv], by_pair, max_neighs=0)
  same(rec, devices, 'FindNeighbors', [
      centers, np.arange(m) % batch, grid.points, grid.keys, ds,
      grid.num_cells, grid.smin, grid.inv, inv], lambda r: r[:1], max_neighs=2)
  ends, pairs = same(rec, devices, 'FindNeighbors', [
      grid.points, grid.ids, grid.points, grid.keys, ds, grid.num_cells,
      grid.smin, grid.inv, inv], by_pair, max_neighs=0)
  for mode, order in ((0, by_index), (1, by_point)):
    same(rec, devices, 'Sampling', [
        grid.points, grid.ids, grid.keys, grid.num_cells, pairs, ends], order,
         mode=mode)
  width = np.full(d, 2, np.float32)
  for mode in (0, 1):
    pdf, = same(rec, devices, 'ComputePdfWithPtGrads', [
        grid.points, pairs, ends, width, inv], mode=mode)
    same(rec, devices, 'ComputePdfPtGrads', [
        grid.points, pairs, ends, width, inv, np.cos(np.arange(n))], mode=mode)
  for k, channels in ((8, 3), (16, 8), (32, 16), (64, 1)):
    if k * channels * len(pairs) > 1000000:
      continue
    basis = np.sin(np.arange(len(pairs) * k)).reshape(-1, k)
    features = np.cos(np.arange(n * channels)).reshape(n, channels)
    out, = same(rec, devices, 'BasisProj', [basis, features, pairs, ends])
    same(rec, devices, 'BasisProjGrads', [
        basis, features, pairs, ends, np.sin(np.arange(out.size) * 3).reshape(
            out.shape)])
