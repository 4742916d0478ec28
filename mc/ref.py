"""Reference models: boring NumPy, in double precision, written from the
documentation of the code."""

import itertools

import numpy as np


def split(points, ids, batch_size):
  """Points of every batch element in input order."""
  points = np.asarray(points)
  ids = np.asarray(ids)
  return [points[ids == b] for b in range(batch_size)]


def pad(rows, batch_shape, width, dims):
  out = np.zeros([len(rows), width, dims], np.asarray(rows[0]).dtype
                 if len(rows) else np.float32)
  for i, r in enumerate(rows):
    out[i, :len(r)] = r
  return out.reshape(list(batch_shape) + [width, dims])


def factor_shapes(n, max_rank=3):
  """All batch shapes of up to max_rank dimensions with n elements."""
  out = []
  for rank in range(1, max_rank + 1):
    for shape in itertools.product(range(1, n + 1), repeat=rank):
      if int(np.prod(shape)) == n:
        out.append(list(shape))
  return out


def scaled_distances(a, b, radii):
  """[len(b), len(a)] distances in units of the radius."""
  a = np.asarray(a, np.float64)
  b = np.asarray(b, np.float64)
  d = (a[None, :, :] - b[:, None, :]) / np.asarray(radii, np.float64)
  return np.sqrt(np.sum(d * d, axis=-1))


def neighbor_pairs(points, ids, centers, cids, radii, closed=False):
  """Set of (point, center) pairs of the same batch element closer than the
  radius, and the smallest distance of any pair from the radius."""
  if len(points) == 0 or len(centers) == 0:
    return set(), np.inf
  d = scaled_distances(points, centers, radii)
  same = np.asarray(ids)[None, :] == np.asarray(cids)[:, None]
  close = (d <= 1.0) if closed else (d < 1.0)
  c, p = np.nonzero(close & same)
  gap = np.abs(d - 1.0)[same]
  gap = gap[gap > 0]
  return set(zip(p.tolist(), c.tolist())), \
      (gap.min() if len(gap) else np.inf)


def kde(points, ids, radii, bandwidth, pairs=None):
  """Density at every point: sum of Gaussians over the points closer than the
  radius."""
  points = np.asarray(points, np.float64)
  radii = np.asarray(radii, np.float64)
  bandwidth = np.asarray(bandwidth, np.float64)
  if pairs is None:
    pairs, _ = neighbor_pairs(points, ids, points, ids, radii)
  out = np.zeros(len(points))
  for p, c in sorted(pairs):
    z = (points[p] - points[c]) / (radii * bandwidth)
    out[c] += np.prod(np.exp(-z * z / 2) / np.sqrt(2 * np.pi))
  return out / np.prod(bandwidth)


def activation(name):
  name = name.lower()
  if name == 'relu':
    return lambda x: np.maximum(x, 0)
  if name in ('lrelu', 'leakyrelu', 'leaky_relu'):
    return lambda x: np.where(x > 0, x, 0.2 * x)
  if name == 'elu':
    return lambda x: np.where(x > 0, x, np.exp(np.minimum(x, 0)) - 1)
  raise ValueError(name)
