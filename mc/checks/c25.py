"""C25: the data generator serves every model once per epoch.

The class is taken from the real scripts, run up to the training. The random
permutations and scalings it draws are chosen by the explorer."""

import itertools
import os
import tempfile
from unittest import mock

import numpy as np
import tensorflow as tf

from mc import script
from mc.engine import Skip
from mc.impl import need, need_close, need_equal, npy

LINES = 1030
UNIFORM = [0.0, 0.5, 0.9999, 0.25]
_CTX = {}


def cases(tier):
  for which in ('small', 'full', 'notebook'):
    if which != 'notebook':
      yield {'script': which, 'labels': True}
    for n in range(1, 5 if tier == 'quick' else 6):
      for batch in range(1, n + 2):
        for augment in (False, True)[:1 if which == 'notebook' else 2]:
          yield {'script': which, 'n': n, 'batch': batch,
                 'augment': augment, 'orders': True}
    for n, batch in ((3, 1), (4, 2), (5, 2)):
      for augment in (False, True)[:1 if which == 'notebook' else 2]:
        for first in range(5):
          for second in range(5):
            yield {'script': which, 'n': n, 'batch': batch,
                   'augment': augment, 'history': [first, second],
                   'length': 4 if tier == 'quick' else 6}


def namespace(which):
  """The script, run on a small data set."""
  if which == 'notebook' and which not in _CTX:
    _CTX[which] = script.notebook(LINES), None, LINES
  if which not in _CTX:
    with tempfile.TemporaryDirectory(prefix='c25') as tmp:
      labels = [[5, 0, 3, 1, 4, 2, 5], [2, 5, 0]]
      lines = script.SCRIPTS[which][1]
      script.write_dataset(os.path.join(tmp, 'data'), labels[0], labels[1],
                           lines)
      os.mkdir(os.path.join(tmp, 'cache'))
      _CTX[which] = script.run(which, os.path.join(tmp, 'data'),
                               os.path.join(tmp, 'cache')), labels, lines
  return _CTX[which]


class Draws:
  """Chooses what numpy.random returns."""

  def __init__(self, orders, values):
    self.orders, self.values = list(orders), values
    self.k, self.drawn = 0, 0

  def permutation(self, x):
    x = np.arange(x) if np.ndim(x) == 0 else np.asarray(x)
    order = self.orders[self.drawn % len(self.orders)]
    self.drawn += 1
    return x[list(order)] if len(order) == len(x) else x

  def shuffle(self, x):
    x[:] = self.permutation(np.array(x))

  def uniform(self, low=0.0, high=1.0, size=None):
    out = np.empty(size if size is not None else ())
    for i in range(out.size):
      out.flat[i] = low + (high - low) * self.values[self.k %
                                                     len(self.values)]
      self.k += 1
    return out if size is not None else float(out)

  def choice(self, a, size=None, replace=True):
    a = np.arange(a) if np.ndim(a) == 0 else np.asarray(a)
    out = np.empty(size if size is not None else (), int)
    self.k += 1
    out.flat[:] = (np.arange(out.size) * 7 + self.k) % len(a) if replace else \
        np.roll(np.arange(len(a)), self.k)[:out.size]
    return a[out]

  def patched(self):
    return mock.patch.multiple(
        np.random, permutation=self.permutation, shuffle=self.shuffle,
        uniform=self.uniform, choice=self.choice)


def data(n):
  """Points without zeros, which name model and line."""
  line = np.arange(LINES)
  pts = np.stack([np.stack([1 + line + 2000.0 * k, -1 - (line % 17) - 32.0 * k,
                            0.5 + (line * 5 + k) % 64], axis=1)
                  for k in range(n)])
  return pts, [(3 * k + 1) % 40 for k in range(n)]


def models_of(batch, points, labels, augment, what):
  """Which models a batch holds."""
  got, features, out = (npy(x) for x in batch)
  size = got.shape[0]
  need(got.shape[1:] == (1024, 3), '%s: points of shape %s', what, got.shape)
  need(features.shape == (size, 1024, 1) and np.all(features == 1),
       '%s: features', what)
  found = []
  for b in range(size):
    hits = []
    for k in range(len(points)):
      if augment is None:
        # any points of the model
        rows = {tuple(r) for r in points[k].tolist()}
        if all(tuple(r) in rows for r in got[b].tolist()):
          hits.append(k)
        continue
      ratio = got[b] / points[k][:1024]
      spread = ratio.max(0) - ratio.min(0)
      if np.all(spread < 1e-6):
        if augment:
          ok = np.all(ratio > 0.9 - 1e-6) and np.all(ratio < 1.1 + 1e-6)
        else:
          ok = np.array_equal(got[b], points[k][:1024])
        if ok:
          hits.append(k)
    need(len(hits) == 1, '%s: row %d holds models %s\n%s ...', what, b, hits,
         got[b, :3].tolist())
    found.append(hits[0])
  need(out.shape == (size,) and
       np.array_equal(out, [labels[k] for k in found]),
       '%s: labels %s of models %s', what, out.tolist(), found)
  return found


def check(case, rec):
  space, files, lines = namespace(case['script'])
  if 'labels' in case:
    got = script.handed_over(space)
    if not got:
      raise Skip()
    k = 0
    for part, labels in (('train', files[0]), ('test', files[1])):
      pts = np.stack([script.expected(k + i, lines)
                      for i in range(len(labels))])
      k += len(labels)
      need_equal(got[part][1], labels, '%s labels' % part)
      need_equal(got[part][0], pts, '%s points' % part)
      rec.op()
    rec.state(case['script'])
    return
  cls = space['modelnet_data_generator']
  n, batch, augment = case['n'], case['batch'], case['augment']
  if case['script'] == 'notebook':
    augment = None
  points, labels = data(n)
  if 'orders' in case:
    served = set()
    perms = list(itertools.permutations(range(n)))
    for i, first in enumerate(perms):
      second = perms[(i * 5 + 1) % len(perms)]
      served |= epochs(cls, points, labels, batch, augment, [first, second],
                       rec, case)
    need(n // batch == 0 or len(served) > 1 or n == 1,
         '%s: every epoch has the order %s', case, served)
    return
  ops = ['call', 'get', 'epoch', 'iter', 'len']
  rest = case['length'] - 2
  for tail in itertools.product(range(5), repeat=rest):
    history(cls, points, labels, batch, augment,
            [ops[k] for k in case['history'] + list(tail)], rec, case)


def make(cls, points, labels, batch, augment):
  given = points.copy()
  more = {} if augment is None else {'augment': augment}
  return cls(given, list(labels), batch, **more), given


def epochs(cls, points, labels, batch, augment, orders, rec, case):
  n, orders_seen = len(points), set()
  with Draws(orders, UNIFORM).patched():
    gen, given = make(cls, points, labels, batch, augment)
    need(len(gen) == n // batch, '%s: %d batches', case, len(gen))
    if augment is not None:
      need(npy(gen.sizes).shape == (batch,) and
           np.all(npy(gen.sizes) == 1024),
           '%s: sizes %s', case, npy(gen.sizes).tolist())
    for epoch in range(3):
      what = '%s, orders %s, epoch %d' % (case, orders, epoch)
      seen = []
      for i in range(len(gen)):
        rows = models_of(gen[i], points, labels, augment, what)
        need(len(rows) == batch, '%s: batch of %d', what, len(rows))
        seen += rows
        rec.op()
      need(len(set(seen)) == len(seen), '%s: models %s', what, seen)
      orders_seen.add(tuple(seen))
      # by iteration
      again = [k for b in gen
               for k in models_of(b, points, labels, augment, what)]
      need(again == seen, '%s: %s and then %s', what, seen, again)
      rec.op(len(gen))
      gen.on_epoch_end()
    need_equal(given, points, '%s: the data set changes' % what)
    rec.trace()
    rec.state((case['script'], n, batch, augment, orders))
  return orders_seen


def history(cls, points, labels, batch, augment, ops, rec, case):
  n = len(points)
  orders = list(itertools.permutations(range(n)))
  with Draws([orders[-1], orders[3], orders[1]], UNIFORM).patched():
    gen, given = make(cls, points, labels, batch, augment)
    known, nxt = {}, 0
    what = '%s after %s' % (case, ops)

    def saw(i, data):
      rows = models_of(data, points, labels, augment, what)
      need(known.setdefault(i, rows) == rows, '%s: batch %d was %s, now %s',
           what, i, known[i], rows)
      flat = [k for r in known.values() for k in r]
      need(len(set(flat)) == len(flat), '%s: models %s', what, known)

    for op in ops:
      rec.op()
      if op == 'call':
        if nxt == n // batch:
          gen.on_epoch_end()
          known, nxt = {}, 0
        saw(nxt, gen())
        nxt += 1
      elif op == 'get':
        saw(len(gen) - 1, gen[len(gen) - 1])
      elif op == 'epoch':
        gen.on_epoch_end()
        known, nxt = {}, 0
      elif op == 'iter':
        for i, b in enumerate(gen):
          saw(i, b)
      else:
        need(len(gen) == n // batch, '%s: length %d', what, len(gen))
    need_equal(given, points, '%s: the data set changes' % what)
    rec.trace()
    rec.state((case['script'], n, batch, augment, ops))
