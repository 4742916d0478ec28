"""C22: kernel points are distinct, in the unit sphere, rotated rigidly."""

import itertools
from unittest import mock

import numpy as np
import tensorflow as tf

from pylib.pc.layers.utils import (cube_kernel_points, random_rotation,
                                   spherical_kernel_points)

from mc import conv
from mc.impl import need, need_close, npy

SIZES = [5, 7, 13, 15, 18]


def turns(tier):
  n = 12 if tier == 'quick' else 24
  return [k / n for k in range(n)] + [0.999, 0.07]


def cases(tier):
  for n in SIZES:
    yield {'kind': 'points', 'n': n}
    yield {'kind': 'names', 'n': n}
  for n in range(1, 6):
    yield {'kind': 'cube', 'n': n}
  for n in (0, 1, 6, 14, 16):
    yield {'kind': 'rejected', 'n': n}
  t = turns(tier)
  for a in t:
    for b in t:
      yield {'kind': 'rotation', 'angles': [a, b], 'thirds': t}


def draw(values):
  def uniform(shape, minval=0, maxval=None, dtype=tf.float32, *args, **kw):
    low = 0.0 if maxval is None else minval
    high = 1.0 if maxval is None else maxval
    u = np.resize(values, shape)
    return tf.constant(low + u * (high - low), dtype)
  return mock.patch.object(tf.random, 'uniform', uniform)


def same_set(a, b, tol=1e-4):
  a, b = list(map(np.asarray, a)), list(map(np.asarray, b))
  if len(a) != len(b):
    return False
  for x in a:
    hit = [i for i, y in enumerate(b) if np.abs(x - y).max() < tol]
    if not hit:
      return False
    b.pop(hit[0])
  return True


def turn(angle):
  c, s = np.cos(angle), np.sin(angle)
  return np.array([[c, -s, 0], [s, c, 0], [0, 0, 1]])


def check_set(p, n, what):
  """Properties which rotations keep."""
  need(p.shape == (n, 3), '%s: shape %s', what, p.shape)
  need(np.all(np.isfinite(p)), '%s: not finite', what)
  norms = np.linalg.norm(p, axis=1)
  need(np.sum(norms < 1e-4) == 1, '%s: norms %s', what, norms.tolist())
  outer = p[norms >= 1e-4]
  need(norms.max() < 1 + 1e-4 and abs(norms.max() - 1) < 1e-4 and
       (n > 13 or np.allclose(norms[norms >= 1e-4], 1, atol=1e-4)),
       '%s: not on / in the unit sphere: %s', what, norms.tolist())
  need_close(p.sum(0), np.zeros(3), '%s: sum' % what, atol=1e-3)
  dist = np.linalg.norm(outer[:, None] - outer[None], axis=2)
  dist = dist[np.triu_indices(n - 1, 1)]
  need(dist.min() > 0.4, '%s: two points are %g apart', what, dist.min())
  solids = {5: (np.sqrt(8 / 3), 6), 7: (np.sqrt(2), 12), 13: (1.0514622, 30)}
  if n in solids:
    edge, count = solids[n]
    need(np.sum(np.abs(dist - edge) < 1e-4) == count and
         dist.min() > edge - 1e-4, '%s: not the regular solid, distances %s',
         what, sorted(dist.tolist()))


def check(case, rec):
  kind = case['kind']
  if kind == 'points':
    n = case['n']
    p = npy(spherical_kernel_points(n, rotate=False)).astype(np.float64)
    rec.op()
    check_set(p, n, 'kernel points %d' % n)
    fold = {5: 3, 7: 4, 13: 2, 15: 6, 18: 5}[n]
    need(same_set(p @ turn(2 * np.pi / fold), p),
         'kernel points %d have no %d-fold symmetry: %s', n, fold, p.tolist())
    if n in (7, 13, 15, 18):
      # the lower half is a turned or mirrored copy of the upper half
      need(same_set(np.sort(p[:, 2])[:, None], np.sort(-p[:, 2])[:, None]),
           'heights %s', sorted(p[:, 2].tolist()))
    need_close(npy(spherical_kernel_points(n, rotate=False)), p,
               'second call')
    rec.state(('points', n, np.round(p, 4).tolist()))
    return
  if kind == 'names':
    n = case['n']
    with draw([0.1, 0.6, 0.35]):
      p = npy(spherical_kernel_points(n))
      check_set(p, n, 'rotated kernel points %d' % n)
      q = npy(spherical_kernel_points(n, name='kernel'))
    need_close(q, p, 'named kernel points')
    rec.op(2)
    rec.state(('names', n))
    return
  if kind == 'cube':
    n = case['n']
    p = npy(cube_kernel_points(n))
    axis = np.linspace(0, 1, n)
    want = list(itertools.product(axis, repeat=3))
    need(p.shape == (n ** 3, 3) and same_set(p, want),
         'cube kernel points %d: %s', n, p.tolist())
    rec.op()
    rec.state(('cube', n))
    return
  if kind == 'rejected':
    try:
      p = spherical_kernel_points(case['n'])
    except Exception:
      rec.state(('rejected', case['n']))
      return
    need(False, '%d kernel points: %s', case['n'], npy(p).tolist())
  # includes three axes, so that the rotation is determined
  pts = np.concatenate([np.eye(3), conv.weight_values([4, 3])])
  for third in case['thirds']:
    with draw(case['angles'] + [third]):
      out = npy(random_rotation(pts.astype(np.float32))).astype(np.float64)
      rec.op()
      what = 'rotation by turns %s' % (case['angles'] + [third])
      need(out.shape == pts.shape, '%s: shape %s', what, out.shape)
      R = out[:3]
      need_close(R @ R.T, np.eye(3), '%s: distances change' % what, atol=1e-4)
      need_close(np.linalg.det(R), 1.0, '%s: orientation' % what, atol=1e-4)
      need_close(out, pts @ R, '%s: not linear' % what, atol=1e-4)
    rec.trace()
    rec.state(('rotation', np.round(R, 3).tolist()))
