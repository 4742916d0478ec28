"""C27: elements of a batch do not influence each other.

Every element of every batch is processed in the batch and alone; all results
of the public API for it have to agree."""

import itertools

import numpy as np

from mc import conv, pipeline, spaces

RADIUS = 1.09
_CTX = {}


def alphabet(d):
  """Clouds of different sizes, extents and places."""
  def at(rows, *shift):
    return [[x + (shift * 5)[k] for k, x in enumerate(r)] for r in rows]
  small = [[0.1, 0.2, 0.3, 0.1][:d], [0.7, 0.1, -0.4, 0.2][:d],
           [0.2, 1.3, 0.6, -0.3][:d]]
  line = [[0.37 * i] + [0.11 * (i % 3)] * (d - 1) for i in range(7)]
  dense = [[0.31 * ((i * (3 + k)) % 7) + 0.013 * i for k in range(d)]
           for i in range(11)]
  return [
      [], small, small[:1], at(small, 0.55), at(dense, -1.21, 0.43), line,
      at(small, 60.0), at(line[:4], -45.0, 17.0),
      [small[0]] * 3 + small[1:2],
      [[9.7 * ((-1) ** (i + k)) + 0.3 * i for k in range(d)]
       for i in range(3)], dense]


def cases(tier):
  for d in (2, 3) if tier == 'quick' else (1, 2, 3, 4):
    n = len(alphabet(d))
    k = 0
    for pair in itertools.product(range(n), repeat=2):
      if any(pair):
        k += 1
        yield {'d': d, 'batch': list(pair), 'pattern': k % 3}
    pick = [0, 1, 3, 5, 8, 9] if tier == 'quick' else range(n)
    for triple in itertools.product(pick, repeat=3):
      k += 1
      if sum(x != 0 for x in triple) < 2 or tier == 'quick' and (
          k % 2 or d == 3 and k % 4):
        continue
      yield {'d': d, 'batch': list(triple), 'pattern': k % 3}
    for four in ([5, 0, 0, 9], [1, 1, 1, 1], [6, 7, 9, 3], [0, 2, 0, 2],
                 [10, 5, 1, 0, 6, 8, 3, 9]):
      for pattern in range(3):
        yield {'d': d, 'batch': four, 'pattern': pattern}


def rows(d, kind):
  base = alphabet(d)[kind]
  centers = [[x + (0.21 if k % 2 else -0.17) for k, x in enumerate(r)]
             for r in base[:5]]
  if base and kind % 3 == 1:
    centers = centers[:1] + [[x + 40.0 for x in base[0]]]
  if kind % 4 == 2:
    centers = []
  return base, centers, conv.feature_values(len(base), pipeline.IN, kind)


def net(d):
  if d not in _CTX:
    _CTX[d] = pipeline.make_layers(d)
  return _CTX[d]


def alone(d, kind):
  if (d, kind) not in _CTX:
    base, centers, feats = rows(d, kind)
    # an element without centers gets one far away, which is not compared
    used = centers or [[300.0] * d]
    out = pipeline.run(
        net(d), d, base, np.zeros(len(base)), feats, used,
        np.zeros(len(used)), 1, RADIUS) if base else None
    if base and not centers:
      out.update({name: {} for name in pipeline.CONVS})
    _CTX[d, kind] = out
  return _CTX[d, kind]


def order(lists, pattern):
  """(element, number) in one of three interleavings."""
  rows_ = [(e, i) for e, l in enumerate(lists) for i in range(len(l))]
  if pattern == 1:
    rows_.sort(key=lambda r: (r[1], r[0]))
  elif pattern == 2:
    rows_.sort(key=lambda r: (-r[0], r[1]))
  return rows_


def check(case, rec):
  d, batch = case['d'], case['batch']
  parts = [rows(d, kind) for kind in batch]
  po = order([p[0] for p in parts], case['pattern'])
  co = order([p[1] for p in parts], (case['pattern'] + 1) % 3)
  pts = np.array([parts[e][0][i] for e, i in po], np.float32).reshape(-1, d)
  cpts = np.array([parts[e][1][i] for e, i in co], np.float32).reshape(-1, d)
  feats = np.array([parts[e][2][i] for e, i in po], np.float32)
  if not len(cpts):
    # at least one center, far away from everything
    cpts, co = np.full([1, d], 300.0, np.float32), [(0, 0)]
    parts[0] = None
  got = pipeline.run(net(d), d, pts, [e for e, _ in po], feats, cpts,
                     [e for e, _ in co], len(batch), RADIUS)
  rec.op()
  for e, kind in enumerate(batch):
    if parts[e] is None:
      continue
    mine = {name: {strip(l): v for l, v in values.items()
                   if element(l) == e} for name, values in got.items()}
    want = alone(d, kind)
    if want is None:
      # no points; centers of an empty element are not in the space
      want = {name: {} for name in mine}
    pipeline.compare(mine, want, 'element %d of batch %s (clouds %s)' % (
        e, batch, [alphabet(d)[k] for k in batch]))
    rec.trace()
  rec.state((d, batch, case['pattern']))


def element(label):
  return label[0][0] if isinstance(label[0], tuple) else label[0]


def strip(label):
  if isinstance(label[0], tuple):
    return (0, label[0][1]), (0, label[1][1])
  return 0, label[1]
