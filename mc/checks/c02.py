"""C02: what a point cloud answers does not depend on what was asked before.

Breadth first search over the real object: a state is everything the object
holds, a transition one public operation, executed on a fresh object after
replaying the history which reaches the state. The model is the pair
(rows per batch element, current batch shape).
"""

import collections

import numpy as np

from mc import ref
from mc.checks import c01
from mc.impl import (Violation, canonical, layers, need, need_close, need_equal,
                     need_padded, npy, tf)

INITIAL = [
    {'kind': 'padded', 'shape': [2], 'v': 2, 'd': 2, 'sizes': [1, 2],
     'batch_size': True},
    {'kind': 'padded', 'shape': [2, 2], 'v': 2, 'd': 3, 'sizes': [1, 0, 2, 1],
     'batch_size': False},
    {'kind': 'padded', 'shape': [1, 2], 'v': 2, 'd': 2, 'sizes': None,
     'batch_size': False},
    {'kind': 'padded', 'shape': [3], 'v': 3, 'd': 2, 'sizes': [1, 2, 1],
     'batch_size': False},
    {'kind': 'ids', 'ids': [1, 0, 1], 'd': 2, 'batch_size': None},
    {'kind': 'ids', 'ids': [0, 0, 1, 2], 'd': 3, 'batch_size': 4},
    {'kind': 'ids', 'ids': [2, 0, 2, 3, 0], 'd': 2, 'batch_size': None},
    {'kind': 'ids', 'ids': [0, 0, 0], 'd': 2, 'batch_size': None},
    {'kind': 'sizes', 'sizes': [2, 1], 'shape': [2], 'd': 2,
     'batch_size': False},
    {'kind': 'sizes', 'sizes': [1, 2, 0, 1], 'shape': [2, 2], 'd': 3,
     'batch_size': False},
    {'kind': 'sizes', 'sizes': [2, 1, 1], 'shape': [3], 'd': 2,
     'batch_size': True},
]
DEPTH = {'quick': 4, 'thorough': 7}
FIRST = {}


def operations(b):
  ops = [['points'], ['points_max', 1], ['points_max', 3], ['sizes'],
         ['unflatten'], ['unflatten_max', 2], ['diameter'], ['pool'],
         ['conv'], ['element', b - 1], ['bad_shape']]
  shapes = [s for s in ref.factor_shapes(b, 2)]
  ops += [['set_shape', s] for s in shapes] + [['set_shape', None]]
  return ops


def cases(tier):
  for case in INITIAL:
    probe = len(case['sizes'] or [0, 0]) if case['kind'] != 'ids' else \
        (case['batch_size'] or max(case['ids']) + 1)
    # the search is split by its first operation to use all cores
    for first in operations(probe):
      yield {'initial': case, 'first': first, 'depth': DEPTH[tier]}


class Model:
  def __init__(self, rows, shape, v):
    self.rows = rows
    self.b = len(rows)
    self.shape = shape
    self.widths = {max(len(r) for r in rows)}
    if v is not None:
      self.widths.add(v)

  def out_shape(self):
    return self.shape if self.shape is not None else [self.b]


def apply(cloud, model, op, rec, verify):
  """Executes one operation; compares with the model if verify."""
  rows, b = model.rows, model.b
  d = rows[0].shape[1]
  name = op[0]
  width = max(len(r) for r in rows)
  rec.op()
  if name == 'points':
    got = cloud.get_points()
    if verify:
      need_padded(got, rows, model.out_shape(), d, model.widths, 'get_points()')
  elif name == 'points_max':
    got = cloud.get_points(max_num_points=width + op[1])
    if verify:
      need_equal(got, ref.pad(rows, model.out_shape(), width + op[1], d),
                 'get_points(max)')
  elif name == 'sizes':
    got = cloud.get_sizes()
    if verify:
      need_equal(got, np.reshape([len(r) for r in rows], model.out_shape()),
                 'get_sizes()')
  elif name == 'unflatten':
    got = cloud.get_unflatten()(cloud._points * 2)
    if verify:
      need_padded(got, [r * 2 for r in rows], model.out_shape(), d,
                  model.widths, 'get_unflatten()')
  elif name == 'unflatten_max':
    got = cloud.get_unflatten(max_num_points=width + op[1])(cloud._points)
    if verify:
      need_equal(got, ref.pad(rows, model.out_shape(), width + op[1], d),
                 'get_unflatten(max)')
  elif name == 'diameter':
    got = npy(cloud.get_AABB().get_diameter())
    if verify:
      need(list(got.shape) == list(model.out_shape()),
           'diameter of shape %s for batch shape %s', got.shape,
           model.out_shape())
      for r, g in zip(rows, got.reshape(-1)):
        if len(r):
          need_close(g, np.linalg.norm(r.max(0) - r.min(0)), 'diameter')
  elif name == 'element':
    got = cloud.get_points(op[1])
    if verify:
      need_equal(got, rows[op[1]], 'get_points(%d)' % op[1])
      if model.shape is not None:
        for i in range(b):
          idx = np.unravel_index(i, model.shape)
          need_equal(cloud.get_points([int(k) for k in idx]), rows[i],
                     'get_points(%s)' % (idx,))
  elif name == 'pool':
    padded = model.shape is not None
    got = layers.GlobalMaxPooling()(cloud._points, cloud, padded)
    if verify:
      got = npy(got)
      want_shape = (model.shape if padded else [b]) + [d]
      need(list(got.shape) == list(want_shape), 'pooled shape %s, expected %s',
           got.shape, want_shape)
      for r, g in zip(rows, got.reshape(b, d)):
        if len(r):
          need_equal(g, r.max(0), 'global max pooling')
  elif name == 'conv':
    if d not in FIRST:
      FIRST[d] = layers.Conv1x1(d, 2)
      FIRST[d]._weights_tf.assign(np.arange(2 * d).reshape(d, 2) * 0.5 - 1)
    w = npy(FIRST[d]._weights_tf)
    got = FIRST[d](cloud._points, cloud, return_padded=True)
    if verify:
      need_padded(got, [r @ w for r in rows], model.out_shape(), 2,
                  model.widths, 'padded output of Conv1x1')
  elif name == 'set_shape':
    cloud.set_batch_shape(op[1])
    model.shape = op[1]
  elif name == 'bad_shape':
    try:
      cloud.set_batch_shape([b + 1])
    except Exception:
      return
    need(False, 'set_batch_shape(%s) accepted for batch size %d', [b + 1], b)


def build(case):
  cloud, rows, shape = c01.build(case)
  return cloud, Model(rows, shape, case.get('v'))


def check(case, rec):
  initial = case['initial']
  cloud, model = build(initial)
  ops = operations(model.b)
  seen = set()
  frontier = collections.deque([[case['first']]])
  while frontier:
    history = frontier.popleft()
    cloud, model = build(initial)
    for op in history[:-1]:
      apply(cloud, model, op, rec, False)
    try:
      apply(cloud, model, history[-1], rec, True)
      # after every operation, the plain answers are as on a fresh object
      state = (str(model.shape), canonical(vars(cloud)))
      rec.state((initial['kind'], state))
      rec.trace()
      key = hash(state)
      if key in seen:
        continue
      seen.add(key)
      for op in (['points'], ['sizes']):
        apply(cloud, model, op, rec, True)
    except Exception as e:
      kind = Violation if isinstance(e, Violation) else RuntimeError
      raise kind('history %s: %s' % (history, e)) from e
    if len(history) < case['depth']:
      frontier.extend(history + [op] for op in ops)
