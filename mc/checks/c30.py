"""C30: the order of the points in the input does not matter.

All permutations of small batches; all results of the public API for a point
have to be those of the first order."""

import itertools

import numpy as np

from mc import conv, pipeline
from mc.checks import c27

RADIUS = 1.09
_CTX = {}


def batches(d):
  """(points, ids, batch size)"""
  p = [[0.1, 0.2, 0.3][:d], [0.7, 0.1, -0.4][:d], [0.2, 1.3, 0.6][:d],
       [0.9, 0.9, 0.2][:d], [-0.6, 0.4, 1.1][:d]]
  far = [[x + 20.0 for x in r] for r in p]
  return [
      (p[:4], [0] * 4, 1),
      ([p[0], p[1], p[0], far[2]], [0, 0, 1, 1], 2),
      ([p[0], p[0], p[1], p[3]], [1, 1, 1, 2], 4),
      ([p[0], p[1], p[2], p[0], p[1]], [2, 2, 2, 0, 0], 3),
      (p, [0] * 5, 1),
      ([p[0], p[1], far[0], far[1], far[3]], [0, 1, 1, 0, 1], 2),
  ]


def cases(tier):
  n = 0
  for d in (2, 3):
    for k, (pts, _, _) in enumerate(batches(d)):
      for j, perm in enumerate(itertools.permutations(range(len(pts)))):
        n += 1
        if tier == 'quick' and len(pts) == 5 and (n + k + d) % 3:
          continue
        yield {'d': d, 'batch': k, 'perm': list(perm)}
  if tier == 'thorough':
    for k in (4, 5):
      for perm in itertools.permutations(range(5)):
        for cperm in itertools.permutations(range(3)):
          yield {'d': 2, 'batch': k, 'perm': list(perm),
                 'centers': list(cperm)}


def result(d, k, perm, cperm=None):
  pts, ids, b = batches(d)[k]
  n = len(pts)
  feats = conv.feature_values(n, pipeline.IN, k)
  cpts = [[x + (0.21 if j % 2 else -0.17) for j, x in enumerate(pts[i])]
          for i in (n - 1, 0, 1)]
  cids = [ids[i] for i in (n - 1, 0, 1)]
  labels = [(ids[i], i) for i in range(n)]
  clabels = [(cids[i], i) for i in range(3)]
  # the centers move as well
  cperm = cperm or sorted(range(3), key=lambda i: perm.index(i))
  return pipeline.run(
      c27.net(d), d, np.array(pts)[perm], np.array(ids)[perm], feats[perm],
      np.array(cpts)[cperm], np.array(cids)[cperm], b, RADIUS,
      [labels[i] for i in perm], [clabels[i] for i in cperm])


def check(case, rec):
  d, k = case['d'], case['batch']
  if (d, k) not in _CTX:
    _CTX[d, k] = result(d, k, list(range(len(batches(d)[k][0]))))
  got = result(d, k, case['perm'], case.get('centers'))
  pipeline.compare(got, _CTX[d, k], 'batch %s in order %s' % (
      batches(d)[k], case['perm']))
  rec.op()
  rec.state((d, k, case['perm'], case.get('centers')))
