"""Scenes for the convolution checks, and the convolutions written down as
plain sums in double precision (TensorFlow only for its derivatives)."""

import itertools

import numpy as np
import tensorflow as tf

from mc import ref, spaces
from mc.engine import Skip
from mc.impl import cloud, pc


def decided_pairs(pts, ids, cpts, cids, radii):
  """(point, center) pairs closer than the radius, sorted by center. Skips
  scenes in which a distance equals the radius up to rounding, if it does not
  exactly."""
  d = ref.scaled_distances(pts, cpts, radii)
  same = np.asarray(ids)[None, :] == np.asarray(cids)[:, None]
  if np.any(same & (np.abs(d - 1.0) < 2e-6) & (d != 1.0)):
    raise Skip()
  c, p = np.nonzero(same & (d < 1.0))
  return p, c


def feature_values(n, c, salt=0):
  """Features which tell points and channels apart, of both signs."""
  i = np.arange(n)[:, None]
  k = np.arange(c)[None, :]
  return (((i * 7 + k * 11 + salt * 5) % 17) - 8.0 +
          0.125 * ((i * 3 + k) % 5)).astype(np.float32) / 8


def weight_values(shape, salt=0):
  """Weights without symmetries."""
  n = int(np.prod(shape))
  i = np.arange(n)
  v = np.sin(1.0 + 1.7 * i + 0.31 * i * (i % 7) + 2.3 * salt)
  return (0.6 * v).reshape(shape).astype(np.float32)


def set_weights(layer, salt=0):
  """Gives all variables of a layer values, returns them by name."""
  out = {}
  for k, v in enumerate(sorted(layer.variables, key=lambda v: v.name)):
    v.assign(weight_values(v.shape.as_list(), salt + k))
    out[v.name.split('/', 1)[-1].split(':')[0]] = v
  return out


# --- scenes ---------------------------------------------------------------

CENTERS = ['same', 'own', 'other', 'sparse', 'far']


def center_rows(kind, pack, d):
  if kind == 'same':
    return pack
  out = []
  for b, c in enumerate(pack):
    near = [[x + (0.25 if k % 2 else -0.375) for k, x in enumerate(p)]
            for p in c]
    if kind == 'own':  # other points close by
      out.append(near)
    elif kind == 'other':
      out.append(near + [[1.0 - 0.5 * ((b + k) % 3) for k in range(d)],
                         [-0.5] * d])
    elif kind == 'sparse':
      out.append([] if b % 3 == 1 else near[:1])
    else:  # with centers without neighbors, first, in the middle and last
      out.append([[9.0] * d] + near[:1] + [[-7.0] * d] + near[1:] +
                 [[5.0] + [0.0] * (d - 1)])
  if not any(out):
    out[0] = [[0.0] * d]
  return out


class Scene:
  """Input cloud, center cloud, radius, features, all neighbor pairs."""

  def __init__(self, case):
    self.d = d = case['d']
    pack = case['clouds']
    self.pts, self.ids = spaces.interleave(pack, case['pattern'])
    self.b = len(pack) + case.get('empty', 0)
    self.radius = case['radius']
    self.radii = np.full(d, self.radius, np.float32)
    self.same = case['centers'] == 'same'
    if self.same:
      self.cpts, self.cids = self.pts, self.ids
    else:
      self.cpts, self.cids = spaces.interleave(
          center_rows(case['centers'], pack, d), (case['pattern'] + 1) % 3)
    self.p, self.c = decided_pairs(self.pts, self.ids, self.cpts, self.cids,
                                   self.radii)
    self.sp, self.sc = decided_pairs(self.pts, self.ids, self.pts, self.ids,
                                     self.radii)

  def clouds(self, points=None):
    cin = pc.PointCloud(self.pts if points is None else points,
                        batch_ids=self.ids, batch_size=self.b)
    return cin, cin if self.same else cloud(self.cpts, self.cids, self.b)

  def density(self, P, bandwidth):
    """Density of every point of the input, differentiable."""
    bw = np.broadcast_to(np.asarray(bandwidth, np.float64), [self.d])
    z = (tf.gather(P, self.sp) - tf.gather(P, self.sc)) / (self.radii * bw)
    k = tf.reduce_prod(tf.exp(-z * z / 2) / np.sqrt(2 * np.pi), axis=1)
    return tf.math.unsorted_segment_sum(k, self.sc, len(self.pts)) / \
        np.prod(bw)

  def aggregate(self, values, F):
    """sum over the neighbors of feature times value: [N2, C, H]."""
    prod = tf.gather(F, self.p)[:, :, None] * values[:, None, :]
    return tf.math.unsorted_segment_sum(prod, self.c, len(self.cpts))

  def relative(self, P):
    C = P if self.same else tf.constant(self.cpts, tf.float64)
    return tf.gather(P, self.p) - tf.gather(C, self.c)


def scene_cases(tier, quick=1, sizes=(1, 6), centers=CENTERS):
  """All multisets of up to 2 (3) positions in 2D and 3D, batched."""
  small = {2: (spaces.AXIS3, 2), 3: (spaces.AXIS2, 2)}
  if tier == 'thorough':
    small = {2: (spaces.AXIS4, 3), 3: (spaces.AXIS3, 2), 4: (spaces.AXIS2, 2)}
  for d, (axis, nmax) in small.items():
    for size in sizes:
      for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                            size)):
        for l, cen in enumerate(centers):
          for i, rad in enumerate([0.75, 1.75]):
            if size == 1 and tier == 'quick' and (k + l + i) % 4:
              continue
            yield {'d': d, 'clouds': pack, 'radius': rad, 'centers': cen,
                   'pattern': (k + l + i) % 3, 'empty': (k + i) % 2}
  kinds = ['skewed', 'lattice', 'line', 'dups', 'far']
  for d in (2, 3, 4) if tier == 'thorough' else (2, 3):
    for a, kind in enumerate(kinds):
      for l, cen in enumerate(centers):
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(
                                      d, kinds[(a + l) % len(kinds)])],
               'radius': 1.125, 'centers': cen, 'pattern': (a + l) % 3,
               'empty': 0}
  for d in (2, 3):
    for a, kind in enumerate(['large', 'offset']):
      for l, cen in enumerate(centers):
        if tier == 'quick' and (d + a + l) % 2:
          continue
        yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                  spaces.structured(d, 'skewed')],
               'radius': 1.125, 'centers': cen, 'pattern': (a + l) % 3,
               'empty': 0}
  for d in (2, 3):
    yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                              spaces.structured(d, 'huge')],
           'radius': 0.75, 'centers': centers[d % len(centers)],
           'pattern': d % 3, 'empty': 0}


# --- definitions ----------------------------------------------------------


def act(name):
  name = name.lower()
  if name == 'relu':
    return tf.nn.relu
  if name == 'elu':
    return tf.nn.elu
  return lambda x: tf.where(x > 0, x, 0.2 * x)


def mcconv(scene, P, F, W, mlps, sizes, activation, bandwidth, dens=None):
  x = scene.relative(P) / scene.radius
  if dens is None:
    dens = tf.gather(scene.density(P, bandwidth), scene.p)
  outs = []
  for m in range(mlps):
    h = x
    for i in range(len(sizes)):
      h = act(activation)(tf.matmul(h, W['weights_%d' % i][m]) +
                          W['bias_%d' % i][m])
    agg = scene.aggregate(h / dens[:, None], F)
    final = W['final_weights_%d' % (len(sizes) - 1)][m]
    c, hh = F.shape[1], sizes[-1]
    outs.append(tf.einsum('nch,cho->no', agg,
                          tf.reshape(final, [c, hh, -1])))
  return tf.concat(outs, axis=1)


def pointconv(scene, P, F, W, hidden, activation, bandwidth, dens=None):
  x = scene.relative(P)
  if dens is None:
    dens = tf.gather(scene.density(P, bandwidth), scene.p)
  h = act(activation)(tf.matmul(x, W['hidden_vectors']) + W['hidden_bias'])
  top = tf.math.unsorted_segment_max(dens, scene.c, len(scene.cpts))
  rel = (dens / tf.gather(top, scene.c))[:, None]
  s = tf.nn.relu(tf.matmul(rel, W['pdf_weights_1']) + W['pdf_biases_1'])
  s = tf.matmul(s, W['pdf_weights_2']) + W['pdf_biases_2']
  agg = scene.aggregate(h / s, F)
  return tf.einsum('nch,cho->no', agg, tf.reshape(
      W['conv_weights'], [F.shape[1], hidden, -1]))


def influence(dist, sigma, interpolation):
  if interpolation == 'linear':
    return tf.nn.relu(1 - dist / sigma)
  return tf.exp(-(dist / (sigma / 3)) ** 2)


def norm(x):
  # derivative zero at zero distance
  sq = tf.reduce_sum(x * x, axis=-1)
  safe = tf.where(sq > 0, sq, tf.ones_like(sq))
  return tf.where(sq > 0, tf.sqrt(safe), tf.zeros_like(sq))


def kpconv(scene, P, F, W, kernel_points, sigma, interpolation,
           deformable=False):
  """kernel_points: in units of the radius, already at their final scale."""
  K, D = kernel_points.shape
  x = scene.relative(P) / scene.radius
  kp = tf.constant(kernel_points, tf.float64)
  C = F.shape[1]
  offsets = None
  if deformable:
    w = influence(norm(x[:, None] - kp[None]), sigma, interpolation)
    agg = scene.aggregate(w, F)
    offsets = tf.einsum('nck,cko->no', agg, tf.reshape(
        W['weights_deformable'], [C, K, -1]))
    offsets = tf.reshape(offsets, [-1, K, D])
    pos = kp[None] + tf.gather(offsets, scene.c)
  else:
    pos = kp[None]
  dist = norm(x[:, None] - pos)
  w = influence(dist, sigma, interpolation)
  agg = scene.aggregate(w, F)
  out = tf.einsum('nck,cko->no', agg, tf.reshape(
      W['conv_weights'], [C, K, -1]))
  return out, dist, offsets


def as64(variables):
  return {k: tf.constant(v.numpy(), tf.float64) for k, v in variables.items()}
