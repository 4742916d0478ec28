"""Bounded spaces of point clouds shared by the checks."""

import itertools

import numpy as np

# Coordinates per axis: dyadic, so that all differences and the distances
# along an axis are exact in single precision, with gaps which are equal to,
# below and above the radii used.
AXIS4 = [-1.0, -0.25, 0.5, 2.0]
AXIS3 = [-0.75, 0.0, 1.5]
AXIS2 = [0.0, 0.75]


def positions(d, axis):
  return [list(p) for p in itertools.product(axis, repeat=d)]


def clouds(d, axis, nmax, nmin=1):
  """All multisets of up to nmax positions; every other one is listed in
  reverse, such that neither the input order nor the order of the cells is
  always ascending."""
  pos = positions(d, axis)
  k = 0
  for n in range(nmin, nmax + 1):
    for c in itertools.combinations_with_replacement(pos, n):
      k += 1
      yield list(c) if k % 2 else list(reversed(c))


def packs(items, size):
  it = iter(items)
  while True:
    chunk = list(itertools.islice(it, size))
    if not chunk:
      return
    yield chunk


def interleave(cloud_list, pattern):
  """Points and batch ids of a batch of clouds.

  pattern 0: sorted by batch id; 1: round robin; 2: sorted by descending id.
  """
  rows = []
  for b, c in enumerate(cloud_list):
    for i, p in enumerate(c):
      rows.append((b, i, p))
  if pattern == 1:
    rows.sort(key=lambda r: (r[1], r[0]))
  elif pattern == 2:
    rows.sort(key=lambda r: (-r[0], r[1]))
  pts = np.array([r[2] for r in rows], np.float32)
  ids = np.array([r[0] for r in rows], np.int32)
  return pts, ids


def structured(d, kind):
  """Larger clouds, in which all grid cells around a point are populated."""
  if kind == 'lattice':
    n = {2: 6, 3: 4, 4: 3, 5: 2}[d]
    return [[0.5 * x for x in p]
            for p in itertools.product(range(n), repeat=d)]
  if kind == 'skewed':  # no two coordinates in line
    n = {2: 5, 3: 3, 4: 2, 5: 2}[d]
    out = []
    for i, p in enumerate(itertools.product(range(n), repeat=d)):
      out.append([x * 0.625 + 0.03125 * ((i * 7 + 3 * k) % 11)
                  for k, x in enumerate(p)])
    return out
  if kind == 'line':  # long in one axis, in both directions
    return [[(-1) ** k * 0.375 * i if k == i % 2 or k == 0 else 0.125 * k
             for k in range(d)] for i in range(30)]
  if kind == 'dups':
    base = [[0.0] * d, [0.5] * d, [0.5] * (d - 1) + [1.75]]
    return [base[i % 3] for i in range(20)]
  if kind == 'far':  # far from the origin, negative
    return [[-100.0 + 0.5 * ((i * (k + 2)) % 5) for k in range(d)]
            for i in range(16)]
  if kind == 'large':  # many points
    n = {2: 20, 3: 7, 4: 4, 5: 3}[d]
    return [[x * 0.625 + 0.03125 * ((i * 7 + 3 * k) % 11)
             for k, x in enumerate(p)]
            for i, p in enumerate(itertools.product(range(n), repeat=d))]
  if kind == 'huge':  # more points than a power of two that is used as a limit
    n = {2: 47, 3: 13, 4: 7, 5: 5}[d]
    return [[x * 0.625 + 0.03125 * ((i * 7 + 3 * k) % 11)
             for k, x in enumerate(p)]
            for i, p in enumerate(itertools.product(range(n), repeat=d))]
  if kind == 'crowd':  # all neighbors of all
    return [[((i * (3 + 2 * k)) % (37 + 4 * k)) * 0.015625 for k in range(d)]
            for i in range(1100)]
  if kind == 'shift':  # coordinates much larger than the cloud
    move = [1024.0, -2048.0, 512.0, -256.0, 4096.0]
    return [[x + move[k] for k, x in enumerate(p)]
            for p in structured(d, 'skewed')]
  if kind == 'offset':  # the same, in reach of single precision derivatives
    move = [64.0, -128.0, 96.0, -32.0, 80.0]
    return [[x + move[k] for k, x in enumerate(p)]
            for p in structured(d, 'skewed')]
  if kind == 'odd':  # many digits: sums of coordinates have to be rounded
    move = [311.3, -507.7, 203.9, -111.1, 401.3]
    return [[round(1.037 * x + move[k], 4) for k, x in enumerate(p)]
            for p in structured(d, 'large')]
  if kind == 'tiny':
    return [[0.0078125 * ((i * (k + 2)) % 7) for k in range(d)]
            for i in range(16)]
  if kind == 'pair':
    return [[0.0] * d, [3.0] + [0.0] * (d - 1)]
  if kind == 'single':
    return [[1.25] * d]
  raise ValueError(kind)


KINDS = ['lattice', 'skewed', 'line', 'dups', 'far', 'pair', 'single']
# used with fewer combinations of parameters
WIDE = ['large', 'shift']
# used for one or two combinations
HUGE = ['huge', 'crowd']
