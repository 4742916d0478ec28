"""C24: mesh batches hold the vertices of every mesh in order."""

import itertools
import os
import tempfile

import numpy as np
import tensorflow as tf
from tensorflow_graphics.io import triangle_mesh

from pylib import io

from mc import ref
from mc.impl import need, need_close, need_equal

# The installed trimesh demands more methods of a resolver (used for textures
# only) than the installed tensorflow_graphics defines, and cannot read the text
# streams it is given in other formats; neither is part of the repository.
triangle_mesh.GFileResolver.__abstractmethods__ = frozenset()

FORMATS = ['obj', 'off']
NUM_VERTICES = [3, 4, 6]


def cases(tier):
  b = 4 if tier == 'quick' else 5
  n = 0
  for k in range(1, b + 1):
    for sizes in itertools.product(NUM_VERTICES, repeat=k):
      n += 1
      yield {'sizes': list(sizes), 'format': n % 2, 'typed': (n // 4) % 2,
             'raw': (n // 2) % 2}
  for k in (1, 2, 3):
    for sizes in itertools.product([4, 6], repeat=k):
      for form, typed in itertools.product((0, 1), repeat=2):
        yield {'sizes': list(sizes), 'format': form, 'typed': typed, 'raw': 1,
               'double': 1}


def mesh(n, k):
  """Vertices in no particular order, every one used by a face."""
  i = np.arange(n)
  v = np.stack([((i * 5 + k) % 7) * 0.5 - 1, ((i * 3) % 5) * 0.25 + 0.125 * i,
                (-1.0) ** i * (k + 1) + 0.0625 * i], axis=1)
  faces = [[(j + 1) % n, j, (j + 2) % n] for j in range(n - 2)]
  return v, faces


def write(path, form, v, faces):
  with open(path, 'w') as f:
    if form == 'obj':
      for p in v:
        f.write('v %g %g %g\n' % tuple(p))
      for t in faces:
        f.write('f %d %d %d\n' % tuple(x + 1 for x in t))
    else:
      f.write('OFF\n%d %d 0\n' % (len(v), len(faces)))
      for p in v:
        f.write('%g %g %g\n' % tuple(p))
      for t in faces:
        f.write('3 %d %d %d\n' % tuple(t))


def check(case, rec):
  with tempfile.TemporaryDirectory(prefix='c24') as tmp:
    names, want = [], []
    form = FORMATS[case['format']]
    for i, n in enumerate(case['sizes']):
      if not case['typed']:
        form = FORMATS[(case['format'] + i) % 2]
      v, faces = mesh(n, i)
      if case.get('double'):
        # kept apart by process=False only
        v[n - 1] = v[1]
      # without the usual ending, the type has to be given
      names.append(os.path.join(tmp, 'm%d.%s' % (
          i, 'mesh' if case['typed'] else form)))
      write(names[-1], form, v, faces)
      want.append(v)
    b, width = len(names), max(case['sizes'])
    args = {'process': False} if case['raw'] else {}
    if case['typed']:
      args['file_type'] = form
    for shape in [None, [-1]] + ref.factor_shapes(b):
      for dtype in (tf.float32, tf.float64):
        kw = dict(args)
        if shape is not None:
          kw['batch_shape'] = shape
        if dtype != tf.float32:
          kw['dtype'] = dtype
        p, s = io.load_batch_of_meshes(names, **kw)
        out = [b] if shape in (None, [-1]) else shape
        what = 'meshes %s as %s' % (case, shape)
        need(p.dtype == dtype, '%s: type %s', what, p.dtype)
        need_close(p, ref.pad(want, out, width, 3), what)
        need_equal(s, np.reshape(case['sizes'], out), what + ', sizes')
        rec.op()
        rec.trace()
        rec.state((case, shape))
