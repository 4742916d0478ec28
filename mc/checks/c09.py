"""C09: Poisson disk samples are separated and cover, for any choices.

All sequences of random choices are explored: the random draw of the sampling
is replaced by one which takes a chosen option, and every run is repeated with
the next untried option at the last draw which has one."""

import contextlib

import numpy as np
import tensorflow as tf

from mc import ref, spaces
from mc.checks import c04, c06
from mc.conv import decided_pairs
from mc.engine import Violation
from mc.impl import cloud, need, need_equal, npy, pc

MAX_DRAWS = 60


class Chooser:
  """Takes the options of the prefix, and those of the policy afterwards:
  always the first one, the last one, or one of each kind in turn."""

  def __init__(self, prefix, policy=0, limit=MAX_DRAWS):
    self.prefix, self.policy, self.limit = prefix, policy, limit
    self.taken, self.options = [], []

  def choose(self, n):
    k = len(self.taken)
    c = self.prefix[k] if k < len(self.prefix) else \
        (0, n - 1, (k * 5 + 1) % n)[self.policy]
    self.taken.append(c)
    self.options.append(n)
    if len(self.taken) > self.limit:
      raise Violation('sampling does not end after %d draws' % self.limit)
    return c

  def next_prefix(self):
    for k in reversed(range(len(self.taken))):
      if self.taken[k] + 1 < self.options[k]:
        return self.taken[:k] + [self.taken[k] + 1]
    return None


@contextlib.contextmanager
def controlled(chooser):
  """Draws with probability zero are impossible, all others are options."""
  original = tf.random.categorical

  def categorical(logits, num_samples, dtype=None, seed=None, name=None):
    if not tf.executing_eagerly():
      return original(logits, num_samples, dtype, seed, name)
    values = np.asarray(logits)
    out = np.zeros([values.shape[0], int(num_samples)], np.int64)
    for i, row in enumerate(values):
      options = np.nonzero(row > -np.inf)[0]
      for j in range(int(num_samples)):
        out[i, j] = options[chooser.choose(len(options))] if len(options) \
            else len(row)
    return tf.constant(out, dtype or tf.int64)

  tf.random.categorical = categorical
  try:
    yield
  finally:
    tf.random.categorical = original


def explore(run):
  """All executions of run(chooser)."""
  prefix, count = [], 0
  while prefix is not None:
    chooser = Chooser(prefix)
    with controlled(chooser):
      run(chooser)
    count += 1
    prefix = chooser.next_prefix()
  return count


MODES = ['radius', 'neighborhood', 'sample', 'ids']


def cases(tier):
  n = 0
  for d, axis, nmax, size in ((2, spaces.AXIS3, 2, 2), (2, spaces.AXIS3, 3, 1),
                              (3, spaces.AXIS2, 2, 2)):
    for k, pack in enumerate(spaces.packs(spaces.clouds(d, axis, nmax),
                                          size)):
      for rad in c06.RADII + [[1.75]]:
        n += 1
        if tier == 'quick' and n % 2:
          continue
        for mode in MODES if tier == 'thorough' else [MODES[(n // 2) % 4]]:
          yield {'d': d, 'clouds': pack, 'radii': rad, 'mode': mode,
                 'pattern': k % 3, 'empty': k % 2}
          # larger cells, and grids with another bounding box
          if mode in ('neighborhood', 'sample') and n // 8 % 2:
            yield {'d': d, 'clouds': pack, 'radii': rad, 'mode': mode,
                   'pattern': k % 3, 'empty': k % 2,
                   'mult': (1.0, 1.5, 2.0)[n % 3],
                   'box': c04.BOXES[n // 16 % 4]}
  # other: elements of at most two points
  lines = [[[0.0, 0.0], [0.75, 0.0], [1.5, 0.0], [2.25, 0.0], [3.0, 0.0]],
           [[0.0, 0.0], [0.5, 0.5], [1.0, 0.0], [0.5, -0.5], [0.5, 0.0]],
           [[0.0, 0.0], [0.0, 0.0], [0.25, 0.0], [4.0, 4.0]]]
  if tier == 'thorough':
    lines += [lines[0] + [[3.75, 0.0]], lines[1] + [[3.0, 0.0]]]
  for pts in lines:
    for other in ([], [[[0.0, 0.0]]], [[[0.5, 0.0], [0.75, 0.25]]]):
      for rad in ([0.875], [1.0], [2.0], 'aniso'):
        for mode in MODES:
          if len(pts) + sum(map(len, other)) > 5 and mode != 'ids':
            continue
          if len(pts) + sum(map(len, other)) > 6 and tier == 'quick':
            continue
          yield {'d': 2, 'clouds': [pts] + other, 'radii': rad, 'mode': mode,
                 'pattern': 1, 'empty': 1}
  # larger clouds: with three policies of choosing instead of all choices
  for d in (2, 3):
    for kind in ('lattice', 'skewed', 'dups', 'large', 'shift'):
      for i, rad in enumerate([[1.125], [2.0], 'aniso']):
        for policy in range(3):
          yield {'d': d, 'clouds': [spaces.structured(d, kind),
                                    spaces.structured(d, 'skewed')],
                 'radii': rad, 'mode': MODES[(i + policy) % 4], 'pattern': i,
                 'empty': policy, 'policy': policy}
  for d in (2, 3):
    yield {'d': d, 'clouds': [spaces.structured(d, 'skewed'),
                              spaces.structured(d, 'huge')],
           'radii': [0.75], 'mode': MODES[d], 'pattern': d % 3, 'empty': 0,
           'policy': d % 3}
  for policy in range(3):
    yield {'d': 2, 'clouds': c04.many(2, 70), 'radii': [1.0], 'mode': 'ids',
           'pattern': policy, 'empty': 0, 'policy': policy}


def check(case, rec):
  d, pack = case['d'], case['clouds']
  pts, ids = spaces.interleave(pack, case['pattern'])
  b = len(pack) + case['empty']
  rad = c06.radii(case['radii'], d)
  full = np.array(rad * d if len(rad) == 1 else rad, np.float32)
  p, c = decided_pairs(pts, ids, pts, ids, full)
  close = np.zeros([len(pts), len(pts)], bool)
  close[p, c] = True
  arg = np.array(rad, np.float32) if len(rad) > 1 else rad[0]

  def run(chooser):
    cl = cloud(pts, ids, b)
    box = c04.make_box(case.get('box'), pts, ids, b, d)
    got_ids = None
    if case['mode'] == 'radius':
      out = pc.poisson_disk_sampling(cl, radius=arg)
    elif case['mode'] == 'ids':
      out, got_ids = pc.poisson_disk_sampling(cl, radius=arg, return_ids=True)
    else:
      nb = pc.Neighborhood(
          pc.Grid(cl, full * np.float32(case.get('mult', 1.0)), box), arg)
      if case['mode'] == 'neighborhood':
        out, got_ids = pc.poisson_disk_sampling(cl, neighborhood=nb,
                                                return_ids=True)
      else:
        out, got_ids = pc.sample(nb, 'poisson')
    rec.op(1 + len(chooser.taken))
    spts, sids = npy(out._points), npy(out._batch_ids)
    what = 'choices %s on %s, radius %s' % (chooser.taken, pts.tolist(),
                                            full.tolist())
    need(len(spts) == len(sids), '%s: %d points, %d ids', what, len(spts),
         len(sids))
    if got_ids is not None:
      index = npy(got_ids).astype(np.int64)
      need(index.shape == (len(spts),) and
           (len(index) == 0 or (index.min() >= 0 and
                                index.max() < len(pts))),
           '%s: sampled ids %s', what, index.tolist())
      need_equal(spts, pts[index], '%s: points of the sampled ids' % what)
      need_equal(sids, ids[index], '%s: batch ids' % what)
    else:
      # any assignment of equal points will do
      index, free = [], list(range(len(pts)))
      for q, e in zip(spts, sids):
        match = [i for i in free if ids[i] == e and
                 np.array_equal(pts[i], q)]
        need(match, '%s: sample %s of element %d is no point of the input, '
             'or sampled twice', what, q.tolist(), e)
        index.append(match[0])
        free.remove(match[0])
      index = np.array(index, np.int64)
    need(len(set(index.tolist())) == len(index), '%s: sampled twice: %s',
         what, index.tolist())
    sub = close[np.ix_(index, index)] & ~np.eye(len(index), dtype=bool)
    need(not sub.any(), '%s: samples %s closer than the radius', what,
         pts[index].tolist())
    need(close[index].any(0).all(), '%s: samples %s do not cover', what,
         pts[index].tolist())
    need(np.prod(npy(out.get_sizes()).shape) == b and
         npy(out.get_sizes()).sum() == len(index),
         '%s: sizes %s', what, npy(out.get_sizes()).tolist())
    need_equal(npy(out.get_sizes()).reshape(-1),
               np.bincount(ids[index], minlength=b), '%s: sizes' % what)
    rec.state((pts.tolist(), ids.tolist(), full.tolist(), chooser.taken,
               sorted(index.tolist())))

  if 'policy' in case:
    chooser = Chooser([], case['policy'], 2 * len(pts) + MAX_DRAWS)
    with controlled(chooser):
      run(chooser)
    return
  rec.trace(explore(run) - 1)
