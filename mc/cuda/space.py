"""Inputs, device configurations and reference models for the CUDA ops."""

import itertools

import numpy as np

from mc.cuda import ops
from mc.engine import Violation

# Every configuration is one way in which the hardware may run an op: its size
# (which decides about the number of blocks, and whether threads have to loop),
# the order of the threads, when asynchronous copies happen, and what
# uninitialised memory holds.
FIXED = [
    dict(sms=1, blocks_per_sm=1, explore=False, lazy=True, poison=0),
    dict(sms=3, blocks_per_sm=2, explore=False, reverse=True, lazy=False,
         poison=1),
]
WIDE = FIXED + [
    dict(sms=2, blocks_per_sm=1, explore=False, reverse=True, lazy=True,
         poison=1),
    dict(sms=40, blocks_per_sm=4, explore=False, lazy=False, poison=0),
]
# all schedules
ALL = [dict(sms=2, blocks_per_sm=1, explore=True, lazy=True, poison=0),
       dict(sms=1, blocks_per_sm=1, explore=True, lazy=False, poison=1)]

STATISTICS = {}


def run(rec, configs, name, inputs, **attributes):
  """The results of an op under all schedules of some configurations, as pairs
  (configuration, result)."""
  for config in configs:
    before = ops.statistics()
    try:
      results = ops.Device(**config).run(name, inputs, **attributes)
    except ops.DeviceFault as e:
      raise Violation('%s on %s: %s' % (name, config, e))
    after = ops.statistics()
    if after['capped'] > before['capped']:
      raise Violation('%s: not all schedules were explored' % name)
    rec.op(after['events'] + after['barriers'] + after['runs'] -
           before['events'] - before['barriers'] - before['runs'])
    for result in results:
      rec.state((name, result if isinstance(result, str) else
                 [r.tobytes() for r in result]))
      yield config, result


def succeeds(rec, configs, name, inputs, **attributes):
  for config, result in run(rec, configs, name, inputs, **attributes):
    if isinstance(result, str):
      raise Violation('%s on %s: %s' % (name, config, result))
    yield config, result


# ------------------------------------------------------------ the references

def cells_of(points, ids, smin, num_cells, inv):
  """Cell of every point, in the single precision the documentation implies."""
  points = np.asarray(points, np.float32)
  rel = np.floor(points * np.asarray(inv, np.float32)
                 - np.asarray(smin, np.float32)[np.asarray(ids)])
  return np.clip(rel, 0, np.asarray(num_cells) - 1).astype(np.int64)


def keys_of(cells, ids, num_cells):
  key = np.asarray(ids, np.int64)
  for d in range(len(num_cells)):
    key = key * int(num_cells[d]) + cells[:, d]
  return key


def grid_ds(keys, num_cells, batch_size):
  """First and last + 1 index of every column of cells, keys descending."""
  inner = int(np.prod([int(n) for n in num_cells[2:]], dtype=np.int64))
  out = np.zeros([batch_size * int(num_cells[0]) * int(num_cells[1]), 2],
                 np.int64)
  column = np.asarray(keys, np.int64) // inner
  for c in np.unique(column):
    at = np.nonzero(column == c)[0]
    out[c] = at[0], at[-1] + 1
  return out.reshape([batch_size, int(num_cells[0]), int(num_cells[1]), 2])


class Grid:
  """A cloud sorted into the cells of a grid, by the reference."""

  def __init__(self, points, ids, batch_size, cell):
    points = np.asarray(points, np.float32)
    ids = np.asarray(ids, np.int64)
    d = points.shape[1]
    self.d, self.batch_size = d, batch_size
    self.cell = np.broadcast_to(np.asarray(cell, np.float32), (d,))
    self.inv = (np.float32(1) / self.cell).astype(np.float32)
    low = np.zeros([batch_size, d], np.float32)
    extent = np.zeros(d)
    for b in range(batch_size):
      if np.any(ids == b):
        mine = points[ids == b]
        low[b] = mine.min(0)
        extent = np.maximum(extent, mine.max(0) - mine.min(0))
    self.num_cells = np.maximum(np.ceil(extent / self.cell), 1).astype(np.int64)
    self.smin = low / self.cell
    cells = cells_of(points, ids, self.smin, self.num_cells, self.inv)
    keys = keys_of(cells, ids, self.num_cells)
    order = np.argsort(-keys, kind='stable')
    self.points, self.ids, self.keys = points[order], ids[order], keys[order]
    self.ds = grid_ds(self.keys, self.num_cells, batch_size)


def pairs(points, ids, centers, cids, inv_radii):
  """(pairs (point, center), pairs at the border up to rounding)."""
  a = np.asarray(points, np.float64)
  b = np.asarray(centers, np.float64)
  inv = np.asarray(inv_radii, np.float64)
  dist = np.sqrt((((a[None] - b[:, None]) * inv) ** 2).sum(-1))
  same = np.asarray(ids)[None] == np.asarray(cids)[:, None]
  c, p = np.nonzero((dist < 1) & same)
  edge = np.nonzero((np.abs(dist - 1) < 1e-6) & (dist != 1) & same)
  return set(zip(p.tolist(), c.tolist())), len(edge[0]) > 0


def neighborhoods(points, ids, inv_radii, order=0):
  """Neighbors of all points among themselves as the ops take them: pairs
  grouped by center, in one of several orders within the groups."""
  found, _ = pairs(points, ids, points, ids, inv_radii)
  rows, ends = [], []
  for c in range(len(points)):
    mine = sorted(p for p, q in found if q == c)
    if order == 1:
      mine.reverse()
    elif order == 2:
      mine = mine[1:] + mine[:1]
    rows += [(p, c) for p in mine]
    ends.append(len(rows))
  return (np.array(rows, np.int32).reshape(-1, 2),
          np.array(ends, np.int32))


def batch_patterns(n, batch_size):
  yield [0] * n
  if batch_size > 1:
    yield [i % batch_size for i in range(n)]


def spread(n, d, seed=0):
  """A cloud without regularities: a quasi random sequence in a unit cube,
  rounded such that differences are exact."""
  i = np.arange(1, n + 1, dtype=np.float64)[:, None]
  alpha = np.array([0.6180339887, 0.7548776662, 0.8191725134, 0.8566748838,
                    0.8812714616, 0.8986537126])[:d]
  return np.round((0.5 + 0.137 * seed + i * alpha) % 1 * 1024) / 1024


def cut(items, size):
  it = iter(items)
  while True:
    chunk = list(itertools.islice(it, size))
    if not chunk:
      return
    yield chunk
