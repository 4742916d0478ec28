"""C23: ASCII loaders return every number of every line."""

import itertools
import os
import tempfile

import numpy as np
import tensorflow as tf

from pylib import io

from mc import ref
from mc.impl import need, need_equal, npy

# numerals which are exact in no precision, large, signed, in every notation
NUMERALS = ['0', '1', '-1', '0.5', '-0.25', '3.14159', '1e-3', '-2.5e+2',
            '12345678', '+7', '0.1', '-0', '100.', '.5', '1E3', '-99999.75',
            '2.', '6', '0.000001', '42']
DELIMITERS = [',', ' ', ';', '\t', ', ', '|', '::']


def cases(tier):
  rows, cols = (3, 4) if tier == 'quick' else (5, 7)
  for r in range(1, rows + 1):
    for c in range(1, cols + 1):
      for delim in DELIMITERS:
        for end in ('\n', '\r\n'):
          for last in (True, False):
            yield {'rows': r, 'cols': c, 'delim': delim, 'end': end,
                   'last': last}
  yield {'rows': 300, 'cols': 6, 'delim': ',', 'end': '\n', 'last': True}
  files = 4 if tier == 'quick' else 5
  n = 0
  for b in range(1, files + 1):
    for sizes in itertools.product((1, 2, 3), repeat=b):
      n += 1
      yield {'sizes': list(sizes), 'delim': DELIMITERS[n % 7],
             'cols': 2 + n % 4, 'dim': 1 + n % 3 if 1 + n % 3 <= 2 + n % 4
             else 2}
  yield {'errors': True}


def table(r, c, shift):
  return [[NUMERALS[(shift + i * c + j) % len(NUMERALS)] for j in range(c)]
          for i in range(r)]


def write(path, rows, delim, end, last):
  text = end.join(delim.join(row) for row in rows) + (end if last else '')
  with open(path, 'w', newline='') as f:
    f.write(text)


def check(case, rec):
  with tempfile.TemporaryDirectory(prefix='c23') as tmp:
    if 'errors' in case:
      return errors(tmp, rec)
    if 'sizes' in case:
      return batch(case, tmp, rec)
    rows = table(case['rows'], case['cols'], case['rows'] + case['cols'])
    path = os.path.join(tmp, 'points.txt')
    write(path, rows, case['delim'], case['end'], case['last'])
    for dim in range(1, case['cols'] + 1):
      for np_type, tf_type in ((np.float32, tf.float32),
                               (np.float64, tf.float64)):
        want = np.array([[float(x) for x in row] for row in rows], np_type)
        what = '%s, dimension %d' % (case, dim)
        p, f = io.load_points_from_file_to_tensor(
            path, delimiter=case['delim'], dimension=dim, dtype=tf_type)
        need(p.dtype == tf_type and f.dtype == tf_type, '%s: type', what)
        same(p, want[:, :dim], what + ', tensor')
        same(f, want[:, dim:], what + ', tensor features')
        for limit in [None, 1, 2, case['rows'], case['rows'] + 3]:
          p, f = io.load_points_from_file_to_numpy(
              path, delimiter=case['delim'], dimension=dim, dtype=np_type,
              max_num_points=limit)
          need(p.dtype == np_type and f.dtype == np_type, '%s: type', what)
          same(p, want[:limit, :dim], '%s, limit %s' % (what, limit))
          same(f, want[:limit, dim:], '%s, limit %s, features' % (what, limit))
        rec.op(6)
        rec.trace(6)
        rec.state((case, dim, str(np_type)))
    if case['delim'] == ',' and case['cols'] >= 3:
      p, f = io.load_points_from_file_to_tensor(path)
      need(p.shape[1] == 3 and p.dtype == tf.float32, 'defaults: %s', p.shape)
      p, f = io.load_points_from_file_to_numpy(path)
      need(p.shape == (case['rows'], 3) and p.dtype == np.float32,
           'defaults: %s', p.shape)


def same(got, want, what):
  # one unit in the last place: parsers may round differently
  got = npy(got)
  need(got.shape == want.shape, '%s: shape %s instead of %s', what, got.shape,
       want.shape)
  need(np.all(np.abs(got - want) <= 2 * np.spacing(np.abs(want))),
       '%s: %s instead of %s', what, got.tolist(), want.tolist())


def batch(case, tmp, rec):
  names, points, features = [], [], []
  dim = case['dim']
  for i, n in enumerate(case['sizes']):
    rows = table(n, case['cols'], 3 * i)
    names.append(os.path.join(tmp, 'f%d.xyz' % i))
    write(names[-1], rows, case['delim'], '\n', i % 2 == 0)
    want = np.array([[float(x) for x in row] for row in rows])
    points.append(want[:, :dim])
    features.append(want[:, dim:])
  b, width = len(names), max(case['sizes'])
  for dtype in (tf.float32, tf.float64):
    kind = dtype.as_numpy_dtype
    shapes = [None, [-1]] + ref.factor_shapes(b)
    for shape in shapes:
      args = {} if shape is None else {'batch_shape': shape}
      if dtype == tf.float64:
        args['dtype'] = dtype
      p, f, s = io.load_batch_of_points(
          names, delimiter=case['delim'], point_dimension=dim, **args)
      out = [b] if shape in (None, [-1]) else shape
      what = 'batch %s as %s' % (case, shape)
      same(p, ref.pad(points, out, width, dim).astype(kind), what)
      same(f, ref.pad(features, out, width, case['cols'] - dim).astype(kind),
           what + ', features')
      need_equal(s, np.reshape(case['sizes'], out), what + ', sizes')
      rec.op()
      rec.trace()
      rec.state((case, shape))
  for shape in ([b + 1], [b, 2], [1, b - 1]):
    try:
      out = io.load_batch_of_points(names, batch_shape=shape,
                                    delimiter=case['delim'],
                                    point_dimension=dim)
    except Exception:
      continue
    need(False, 'batch shape %s for %d files accepted: %s', shape, b,
         [x.shape for x in out])


def errors(tmp, rec):
  path = os.path.join(tmp, 'none.txt')
  for load in (io.load_points_from_file_to_tensor,
               io.load_points_from_file_to_numpy):
    for arg, kind in ((path, FileNotFoundError), (5, TypeError)):
      try:
        load(arg)
      except kind:
        rec.op()
        continue
      need(False, '%s(%r) did not raise %s', load, arg, kind)
  rec.state('errors')
