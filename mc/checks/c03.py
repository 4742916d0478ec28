"""C03: bounding boxes are tight for every batch element."""

import itertools

import numpy as np

from mc import ref
from mc.impl import npy, need, need_close, pc

# coordinates of both signs, far from and close to the origin
ALPHABET = [-2.5, 0.0, 0.001, 3.0]
ORDERS = ['euclidean', 1, 2, 'inf', 3]


def cases(tier):
  """One case per (dimension, number of points, ids): all assignments of
  coordinates are explored inside, in one dimension at a time."""
  nmax = 3 if tier == 'quick' else 5
  for d in (1, 2, 3, 4):
    for n in range(1, nmax + 1):
      for ids in itertools.product(range(3), repeat=n):
        for axis in range(d):
          yield {'d': d, 'ids': list(ids), 'axis': axis,
                 'extra': sum(ids) % 2}
  for shape in ([1], [2], [2, 2], [1, 2, 1], [3]):
    for v in (1, 2):
      for d in (2, 3):
        yield {'shape': shape, 'v': v, 'd': d}
  for d in (1, 2, 3, 4):
    for b in (1, 7, 70):
      yield {'d': d, 'large': 500, 'b': b}
    for b in (2, 300):
      yield {'d': d, 'large': 2600, 'b': b}


def compare(cloud, rows, shape, rec, what):
  box = cloud.get_AABB()
  lo, hi = npy(box._aabb_min), npy(box._aabb_max)
  rec.op()
  for i, r in enumerate(rows):
    if not len(r):
      continue
    scale = np.maximum(1.0, np.abs(r).max())
    need(np.all(lo[i] <= r.min(0)) and np.all(hi[i] >= r.max(0)),
         '%s: box [%s, %s] does not contain %s', what, lo[i], hi[i],
         r.tolist())
    need(np.all(r.min(0) - lo[i] <= 1e-6 * scale) and
         np.all(hi[i] - r.max(0) <= 1e-6 * scale),
         '%s: box [%s, %s] of element %d is not tight around %s', what, lo[i],
         hi[i], i, r.tolist())
  for order in ORDERS:
    got = npy(box.get_diameter(ord=np.inf if order == 'inf' else order))
    rec.op()
    need(list(got.shape) == list(shape), '%s: diameters of shape %s, not %s',
         what, got.shape, shape)
    for r, g in zip(rows, got.reshape(-1)):
      if len(r):
        ext = (r.max(0) - r.min(0)).astype(np.float64)
        want = np.linalg.norm(ext, ord={'euclidean': 2, 'inf': np.inf}.get(
            order, order))
        need_close(g, want, '%s: diameter of order %s' % (what, order),
                   rtol=1e-5, atol=1e-6)


def check(case, rec):
  d = case['d']
  if 'shape' in case:
    shape, v = case['shape'], case['v']
    b = int(np.prod(shape))
    for values in itertools.product(ALPHABET, repeat=min(b * v, 4)):
      pts = np.resize(values, [b * v, d]).astype(np.float32)
      pts = pts * (1 + np.arange(d))
      for k in (v, 1):
        sizes = np.full(b, v)
        sizes[0] = k
        rows = [p[:s] for p, s in zip(pts.reshape(b, v, d), sizes)]
        cloud = pc.PointCloud(pts.reshape(shape + [v, d]),
                              sizes=sizes.reshape(shape))
        compare(cloud, rows, shape, rec, 'padded %s' % pts.tolist())
        rec.state((tuple(shape), v, d, values, k))
        rec.trace()
    return
  if 'large' in case:
    n, b = case['large'], case['b']
    i = np.arange(n)
    for k, scale in enumerate([1.0, 1e-3, 4096.0]):
      ids = (i * i + 3 * i + k) % b
      pts = np.sin(1.0 + i[:, None] * (1.7 + np.arange(d)) + k) * scale
      pts = (pts + (k - 1) * 0.75 * scale).astype(np.float32)
      cloud = pc.PointCloud(pts, batch_ids=ids, batch_size=b + k)
      compare(cloud, ref.split(pts, ids, b + k), [b + k], rec,
              '%d points, scale %s' % (n, scale))
      rec.state((n, d, b, k))
      rec.trace()
    return
  ids = np.array(case['ids'])
  n, b = len(ids), int(ids.max()) + 1 + case['extra']
  for values in itertools.product(ALPHABET, repeat=n):
    pts = np.tile(np.arange(n)[:, None] * 0.5, [1, d]).astype(np.float32)
    pts[:, case['axis']] = values
    cloud = pc.PointCloud(pts, batch_ids=ids, batch_size=b)
    compare(cloud, ref.split(pts, ids, b), [b], rec, 'points %s ids %s' % (
        pts.tolist(), ids.tolist()))
    rec.state((tuple(case['ids']), d, case['axis'], values))
    rec.trace()
