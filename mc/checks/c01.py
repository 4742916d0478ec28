"""C01: a point cloud returns exactly the points it was built from."""

import itertools

import numpy as np

from mc import ref
from mc.impl import npy, need, need_equal, need_padded, pc, tf

PADDED = {
    # batch shapes, V, D
    'quick': [([1], 3), ([2], 3), ([3], 2), ([1, 1], 2), ([1, 2], 2),
              ([2, 1], 2), ([2, 2], 2), ([1, 2, 1], 2), ([2, 1, 2], 1),
              ([3, 2], 1), ([2, 3], 1), ([4], 1), ([5], 1)],
    'thorough': [([1], 5), ([2], 5), ([3], 4), ([4], 3), ([5], 2), ([6], 2),
                 ([1, 1], 3), ([1, 2], 4), ([2, 1], 4), ([2, 2], 3),
                 ([1, 2, 1], 3), ([2, 1, 2], 2), ([3, 2], 2), ([2, 3], 2),
                 ([2, 2, 2], 1), ([1, 1, 1, 2], 2), ([7], 1)],
}
SEGMENTED = {'quick': (5, 3), 'thorough': (7, 4)}


def cases(tier):
  for shape, v in PADDED[tier]:
    b = int(np.prod(shape))
    for d in (1, 2, 3, 4):
      yield {'kind': 'padded', 'shape': shape, 'v': v, 'd': d, 'sizes': None}
    for i, sizes in enumerate(itertools.product(range(v + 1), repeat=b)):
      if sum(sizes) == 0:
        continue
      for d in (2, 3) if i % 4 else (1, 2, 3, 4):
        yield {'kind': 'padded', 'shape': shape, 'v': v, 'd': d,
               'sizes': list(sizes), 'batch_size': bool(i % 2)}
  nmax, bmax = SEGMENTED[tier]
  for n in range(1, nmax + 1):
    for ids in itertools.product(range(bmax), repeat=n):
      d = 1 + (sum(ids) + n) % 4
      top = max(ids) + 1
      yield {'kind': 'ids', 'ids': list(ids), 'd': d, 'batch_size': None}
      if n <= 4:
        for extra in (0, 2):
          yield {'kind': 'ids', 'ids': list(ids), 'd': d,
                 'batch_size': top + extra}
  for shape, v in PADDED[tier]:
    b = int(np.prod(shape))
    for i, sizes in enumerate(itertools.product(range(v + 1), repeat=b)):
      if sum(sizes) == 0:
        continue
      yield {'kind': 'sizes', 'sizes': list(sizes), 'shape': shape,
             'd': 1 + i % 4, 'batch_size': bool(i % 2)}
  # many points and many batch elements
  for shape, v in (([1], 400), ([70], 9), ([7, 10], 9), ([2, 3, 4], 33),
                   ([3], 130), ([2], 2500), ([300], 3), ([20, 15], 2)):
    b = int(np.prod(shape))
    sizes = [(i * i * 5 + 2 * i + 3) % (v + 1) for i in range(b)]
    for d in (1, 3):
      for kind in ('padded', 'sizes'):
        yield {'kind': kind, 'shape': shape, 'v': v, 'd': d,
               'batch_size': d == 3, 'sizes': sizes}
      yield {'kind': 'padded', 'shape': shape, 'v': v, 'd': d, 'sizes': None}
      ids = [(i * i + 3 * i + 1) % b for i in range(v)]
      for extra in (None, 5):
        yield {'kind': 'ids', 'ids': ids, 'd': d,
               'batch_size': extra and b + extra}


def values(n, d):
  """Distinct coordinates, of both signs, none of them zero."""
  k = np.arange(n * d).reshape(n, d)
  return ((-1.0) ** k * (k + 1) * 0.25).astype(np.float32)


def build(case):
  """Returns the real point cloud, the expected rows per batch element, and
  the expected batch shape (None: no batch dimensions given)."""
  d = case['d']
  if case['kind'] == 'padded':
    shape, v = case['shape'], case['v']
    b = int(np.prod(shape))
    pts = values(b * v, d).reshape(shape + [v, d])
    sizes = case['sizes']
    flat = pts.reshape(b, v, d)
    if sizes is None:
      cloud = pc.PointCloud(pts)
      sizes = [v] * b
    else:
      # the padding holds other values than zero
      cloud = pc.PointCloud(
          pts, sizes=np.array(sizes).reshape(shape),
          batch_size=b if case['batch_size'] else None)
    return cloud, [flat[i, :s] for i, s in enumerate(sizes)], shape
  if case['kind'] == 'ids':
    ids = np.array(case['ids'])
    pts = values(len(ids), d)
    bs = case['batch_size']
    cloud = pc.PointCloud(pts, batch_ids=ids, batch_size=bs)
    return cloud, ref.split(pts, ids, bs or int(ids.max()) + 1), None
  sizes = case['sizes']
  pts = values(sum(sizes), d)
  cloud = pc.PointCloud(pts, sizes=np.array(sizes).reshape(case['shape']),
                        batch_size=len(sizes) if case['batch_size'] else None)
  ends = np.cumsum(sizes)
  rows = [pts[e - s:e] for s, e in zip(sizes, ends)]
  return cloud, rows, case['shape'] if len(case['shape']) > 1 else None


def check(case, rec):
  cloud, rows, shape = build(case)
  rec.op()
  b, d = len(rows), case['d']
  out_shape = shape if shape is not None else [b]
  sizes = [len(r) for r in rows]
  for i in range(b):
    need_equal(cloud.get_points(i), rows[i], 'get_points(%d)' % i)
  width = max(sizes)
  # padded input may keep its own width
  widths = {width, case.get('v', width)}
  need_padded(cloud.get_points(), rows, out_shape, d, widths, 'get_points()')
  need_equal(cloud.get_sizes(), np.reshape(sizes, out_shape), 'get_sizes()')
  need_equal(cloud.get_points(max_num_points=width + 2),
             ref.pad(rows, out_shape, width + 2, d), 'get_points(max)')
  rec.op(b + 3)
  # values attached to the points travel with the points, of any data type
  pts = npy(cloud._points)
  tag = {tuple(p): i + 1 for i, p in enumerate(np.concatenate(rows))}
  attached = np.array([tag.get(tuple(p), 0) for p in pts])
  need(sorted(attached.tolist()) == list(range(1, len(tag) + 1)),
       'stored points %s are not the input points', pts.tolist())
  want = ([np.array([tag[tuple(p)] for p in r])[:, None]
           if len(r) else np.zeros([0, 1], int) for r in rows])
  for dtype in (tf.float32, tf.int32):
    need_padded(cloud.get_unflatten()(tf.cast(attached[:, None], dtype)),
                want, out_shape, 1, widths,
                'get_unflatten() of %s' % dtype.name)
  rec.op(2)
  for bad in (b, b + 1, -1):
    try:
      got = cloud.get_points(bad)
    except Exception:
      continue
    need(False, 'get_points(%d) of a batch of size %d returned %s', bad, b,
         npy(got).tolist())
  # addressing by batch index
  if shape is not None:
    for i, idx in enumerate(itertools.product(*[range(s) for s in shape])):
      need_equal(cloud.get_points(list(idx)), rows[i],
                 'get_points(%s)' % list(idx))
    rec.op(b)
  rec.state((case['kind'], tuple(sizes), tuple(out_shape), d,
             npy(cloud._batch_ids).tolist()))
