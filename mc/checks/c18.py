"""C18: global pooling aggregates exactly each element's own points."""

import itertools

import numpy as np

from mc import ref
from mc.checks import c17
from mc.impl import layers, need, need_close, npy, pc

VALUES = [-2.0, -0.5, 1.25]


def cases(tier):
  nmax = 4 if tier == 'quick' else 6
  for n in range(1, nmax + 1):
    for k, ids in enumerate(itertools.product(range(3), repeat=n)):
      b = 3 + k % 2
      yield {'ids': list(ids), 'b': b,
             'shape': [None, [b, 1], [2, 2] if b == 4 else [1, 3, 1]][k % 3]}
  for shape, v in c17.SHAPES['thorough']:
    b = int(np.prod(shape))
    for sizes in itertools.product(range(v + 1), repeat=b):
      if sum(sizes):
        yield {'shape': shape, 'v': v, 'sizes': list(sizes)}
  for b, n in ((1, 400), (3, 400), (70, 400), (70, 90), (3, 2600),
               (300, 900)):
    yield {'ids': [(i * i + 3 * i) % b for i in range(n)], 'b': b + b % 2,
           'shape': [[2, (b + b % 2) // 2], None][n % 4 == 2]}
  for shape, v in (([70], 9), ([7, 10], 9), ([3], 130)):
    yield {'shape': shape, 'v': v, 'sizes': [
        (i * i * 5 + 2 * i + 3) % (v + 1)
        for i in range(int(np.prod(shape)))]}


def features(n):
  """All assignments of values to up to 5 points, one per channel."""
  m = min(n, 5)
  table = np.array(list(itertools.product(VALUES, repeat=m)), np.float32).T
  rest = [table[(3 * i) % m] * (0.5 + i) for i in range(n - m)]
  return np.concatenate([table, np.array(rest).reshape(n - m, len(table[0]))]) \
      .astype(np.float32)


def check(case, rec):
  shape = case['shape']
  if 'ids' in case:
    ids, b = np.array(case['ids']), case['b']
    cl = pc.PointCloud(c17.positions(len(ids)), batch_ids=ids, batch_size=b)
    if shape is not None:
      cl.set_batch_shape(shape)
    has_shape = shape is not None
    shape = shape or [b]
    width = np.bincount(ids).max()
  else:
    has_shape = True
    width, b = case['v'], int(np.prod(shape))
    cl = pc.PointCloud(c17.positions(b * width).reshape(shape + [width, 2]),
                       sizes=np.array(case['sizes']).reshape(shape))
    ids = np.repeat(np.arange(b), case['sizes'])
  feats = features(len(ids))
  c = feats.shape[1]
  rows = ref.split(feats, ids, b)
  padded = (ref.pad([r + 100 for r in rows], [b], width, c) - 100) \
      .reshape(shape + [width, c])
  high = (ref.pad([r - 100 for r in rows], [b], width, c) + 100) \
      .reshape(shape + [width, c])
  full = [i for i in range(b) if len(rows[i])]
  for name, op in (('GlobalMaxPooling', np.max),
                   ('GlobalAveragePooling', np.mean)):
    want = np.array([op(rows[i], axis=0) for i in full])
    for what, f in (('flat', feats), ('padded', padded),
                    ('padded with high values', high)):
      # without a batch shape there is none to reshape to
      for ret in (False, True) if has_shape else (False,):
        got = npy(getattr(layers, name)()(f, cl, return_padded=ret))
        rec.op()
        text = '%s of %s features, return_padded=%s' % (name, what, ret)
        need(list(got.shape) == (shape if ret else [b]) + [c],
             '%s: shape %s', text, got.shape)
        need_close(got.reshape(b, c)[full], want, text)
  # the type of the features is that of the result, to its full precision
  for name, op, dtype in (('GlobalMaxPooling', np.max, np.int32),
                          ('GlobalMaxPooling', np.max, np.float64),
                          ('GlobalAveragePooling', np.mean, np.float64)):
    f = np.clip(feats.astype(np.float64), -100, 100) * 2 ** 24
    f = (f + np.arange(len(f))[:, None]).astype(dtype)
    rows = ref.split(f, ids, b)
    fp = ref.pad(rows, [b], width, c).astype(dtype).reshape(
        shape + [width, c])
    for what, g in (('flat', f), ('padded', fp)):
      got = npy(getattr(layers, name)()(g, cl))
      rec.op()
      text = '%s of %s %s features' % (name, what, np.dtype(dtype).name)
      need(got.dtype == dtype, '%s: type %s', text, got.dtype)
      need_close(got[full], np.array([op(rows[i], axis=0) for i in full]),
                 text, rtol=1e-14, atol=0)
  rec.state((ids.tolist(), list(shape)))
