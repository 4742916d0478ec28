"""C39: the networks and training loops of the ModelNet scripts.

The classes and functions are taken from the real scripts, run up to the
training; the networks are small instances of them."""

import contextlib
import inspect
import io
import itertools
import re
from unittest import mock

import numpy as np
import tensorflow as tf

from mc import script
from mc.checks import c25
from mc.engine import Skip
from mc.impl import need, need_close, need_equal, npy

CASE_TIMEOUT = 800
TYPES = ['MCConv', 'KPConv', 'PointConv']


def cases(tier):
  thorough = tier == 'thorough'
  for which in ('small', 'full', 'notebook'):
    for layer in TYPES:
      for batch in (1, 2, 3, 4) if thorough else (2, 3):
        yield {'kind': 'logits', 'script': which, 'layer': layer,
               'batch': batch, 'models': 5 if thorough else 4,
               'levels': 2}
      for batch in (2, 3) if thorough else (3,):
        yield {'kind': 'weights', 'script': which, 'layer': layer,
               'batch': batch, 'levels': 2}
      if thorough:
        yield {'kind': 'logits', 'script': which, 'layer': layer,
               'batch': 2, 'models': 5, 'levels': 3}
        yield {'kind': 'weights', 'script': which, 'layer': layer,
               'batch': 3, 'levels': 3}
    for train in range(1, 6 if thorough else 5):
      for test in range(1, 5 if thorough else 4):
        for batch in (1, 2, 3) if thorough else (1, 2):
          if batch <= min(train, test):
            yield {'kind': 'loop', 'script': which, 'train': train,
                   'test': test, 'batch': batch,
                   'epochs': 3 if thorough else 2}


def network(case, classes=3):
  """A small network and the variables that were created for it."""
  space = c25.namespace(case['script'])[0]
  space['batch_size'] = case['batch']
  levels = case['levels']
  created = []

  def creator(make, **kwargs):
    variable = make(**kwargs)
    created.append(variable)
    return variable
  tf.random.set_seed(1)
  np.random.seed(1)
  if case['script'] == 'small':
    # the last level has one point per model
    sizes = [1] + [4, 8, 12][:levels] + [5, classes]
    radii = np.array([0.45, 0.8, 9.0][-levels:])
  elif case['script'] == 'notebook':
    sizes = [1] + [4, 8, 12][:levels] + [5, classes]
    radii = np.array([0.3, 0.45, 0.9][-levels:])
  else:
    sizes = [8, 12, 16][:levels] + [5, classes]
    radii = np.array([0.3, 0.45, 0.9][-levels:])
  with tf.variable_creator_scope(creator):
    # dropout is for training only
    more = {} if case['script'] == 'notebook' else {
        'dropout_rate': 0.5 if case['kind'] == 'logits' else 0.0}
    model = space['mymodel'](
        sizes, radii, radii * (1 if case['script'] == 'small' else 2),
        layer_type=case['layer'], sampling_method='cell average', **more)
    # batch normalization creates its variables in the first call
    points, sizes = batch_of([model_points(k % 5) for k in range(
        case['batch'])], case)
    call(model, points, sizes, case['kind'] != 'logits')
  # weights of a general position: those of a fresh network are partly zero
  for k, v in enumerate(created):
    if v.trainable and v.dtype == tf.float32:
      start = npy(v)
      if np.ptp(start) == 0:
        move = 0.2 * np.cos(np.arange(start.size) * 1.7 + k)
      else:
        # not every initializer obeys the seeds above
        start = 0 * start
        move = np.sqrt(12.0 / sum(start.shape[-2:])) * np.cos(
            np.arange(start.size) ** 2 * 0.7 + k)
      v.assign(start + move.reshape(v.shape).astype(np.float32))
  return model, created


def model_points(k, order=0):
  """Points of a model; the models have 5 to 7 points."""
  n = [6, 7, 5, 6, 7][k]
  i = np.arange(n)
  rows = np.stack([0.1 + 0.8 * ((i * (3 + a) + 2 * k) % 7) / 6 + 0.013 * i * k
                   for a in range(3)], axis=1)
  return rows[[i, i[::-1], np.roll(i, 2)][order]]


def batch_of(rows, case):
  """Padded with coordinates which would count if they were used."""
  if case['script'] == 'notebook':
    # models of the same size only
    return np.stack([r[:5] for r in rows]), None
  points = np.full([len(rows), 7, 3], 0.37)
  for row, pts in zip(points, rows):
    row[:len(pts)] = pts
  return points, np.array([len(r) for r in rows], np.int32)


def call(model, points, sizes, training):
  features = np.ones([points.shape[0], points.shape[1], 1], np.float32)
  more = () if sizes is None else (sizes,)
  return npy(model(points, features, *more, training=training))


def check_logits(case, rec):
  model, _ = network(case)
  n, b = case['models'], case['batch']
  rows, where = {}, {}
  for order in range(3):
    batches = itertools.product(range(n), repeat=b)
    if order:
      batches = itertools.islice(batches, order, None, 7)
    for members in batches:
      out = call(model, *batch_of(
          [model_points(k)[:5][::1 - 2 * (order % 2)]
           if case['script'] == 'notebook' else model_points(k, order)
           for k in members], case), False)
      rec.op()
      need(out.shape == (b, 3) and np.all(np.isfinite(out)),
           'logits of %s: %s', members, out.tolist())
      for k, row in zip(members, out):
        if k not in rows:
          rows[k], where[k] = row, members
        need_close(row, rows[k], 'logits of model %d in the batch %s (order '
                   'of points %d) and in the batch %s' % (
                       k, members, order, where[k]), rtol=2e-3, atol=2e-4)
      rec.state((case['script'], case['layer'], members, order))
  need(np.ptp(np.stack(list(rows.values())), axis=0).max() > 1e-5,
       'the logits do not depend on the model: %s', rows)


def check_weights(case, rec):
  model, created = network(case)
  b = case['batch']
  points, sizes = batch_of([model_points(k) for k in range(b)], case)
  features = np.ones([b, points.shape[1], 1], np.float32)
  more = () if sizes is None else (sizes,)
  select = np.cos(np.arange(3 * b)).reshape(b, 3).astype(np.float32)

  def loss():
    return tf.reduce_sum(select * model(points, features, *more,
                                        training=True))
  variables = model.trainable_variables
  with tf.GradientTape() as tape:
    value = loss()
  grads = tape.gradient(value, variables)
  grads = {v.ref(): g for v, g in zip(variables, grads)}
  need(len(grads) == len(variables), 'a weight is listed twice')
  value = float(value)
  effective = 0
  for k, v in enumerate(created):
    if not v.dtype.is_floating:
      continue
    before = npy(v).copy()
    change = 0.0
    for sign in (1, -1):
      move = 0.3 * np.cos(np.arange(before.size) * 2.3 + k) + 0.1
      v.assign(before + sign * move.reshape(before.shape).astype(np.float32))
      change = max(change, abs(float(loss()) - value))
      rec.op()
    v.assign(before)
    if change > 1e-2:
      effective += 1
      need(v.ref() in grads, '%s changes the logits by %g, but is not trained',
           v.name, change)
      g = grads[v.ref()]
      need(g is not None and np.abs(npy(tf.convert_to_tensor(g))).max() > 0,
           '%s changes the logits by %g, but its derivative is zero', v.name,
           change)
    rec.state((case['script'], case['layer'], k, round(change, 2)))
  need(effective >= 4 * case['levels'], 'only %d weights have an effect',
       effective)
  rec.trace(effective)


class Fake(tf.Module):
  """Stands for a network: logits by the model, which the points name."""

  def __init__(self, logits, b, sized):
    super().__init__()
    self.sized = sized
    self.logits, self.b, self.calls, self.saved = logits, b, [], 0
    self.weights = tf.Variable(np.zeros(self.logits.shape[1], np.float32),
                               name='w')

  def __call__(self, points, features, sizes=None, training=None):
    x = np.asarray(points)[:, 0, 0]
    test = x > 1e6
    which = np.round(np.log2(x / np.where(test, 2.0 ** 24, 1.0))).astype(int)
    if self.sized:
      need_equal(sizes, np.full(self.b, np.asarray(points).shape[1]),
                 'sizes')
    need_equal(features, np.ones(np.asarray(points).shape[:2] + (1,)),
               'features')
    need(test.all() or not test.any(), 'data sets are mixed')
    self.calls.append((bool(training), bool(test.all()), which.tolist(),
                       npy(self.weights).copy()))
    rows = self.logits[which + (100 if test.all() else 0)]
    return tf.constant(rows) + self.weights

  def save_weights(self, *args, **kwargs):
    self.saved += 1


def softmax(x):
  e = np.exp(x - x.max(-1, keepdims=True))
  return e / e.sum(-1, keepdims=True)


def check_loop(case, rec):
  test = case['test']
  for pattern in itertools.product((0, 1), repeat=test):
    try:
      check_pattern(case, pattern, rec)
    except Skip:
      rec.skipped += 1


def check_pattern(case, pattern, rec):
  space, _, lines = c25.namespace(case['script'])
  b, classes, lr = case['batch'], 4, 0.5
  train, test = case['train'], case['test']

  def cloud(base):
    return np.full([lines, 3], base)
  labels = {False: [(3 * k + 1) % classes for k in range(train)],
            True: [(k * k + 2) % classes for k in range(test)]}
  make = space['modelnet_data_generator']
  logits = np.zeros([200, classes], np.float32)
  for part, count in ((False, train), (True, test)):
    for k in range(count):
      shift = pattern[k] if part else k % 2
      logits[100 * part + k, (labels[part][k] + shift) % classes] = \
          1 + 0.375 * k
  notebook = case['script'] == 'notebook'
  model = Fake(logits, b, not notebook)
  augment = {} if notebook else {'augment': True}
  fixed = {} if notebook else {'augment': False}
  optimizer = tf.keras.optimizers.SGD(learning_rate=lr)
  changes = {
      'gen_train': make(np.stack([cloud(2.0 ** k) for k in range(train)]),
                        labels[False], b, **augment),
      'gen_test': make(np.stack([cloud(2.0 ** (k + 24))
                                 for k in range(test)]),
                       labels[True], b, **fixed),
      'optimizer': optimizer}
  run = space['training']
  given = {'optimizer': optimizer, 'loss_function': space['loss_function'],
           'num_epochs': case['epochs']}
  known = inspect.signature(run).parameters
  text = io.StringIO()
  with mock.patch.dict(run.__globals__, changes), \
      contextlib.redirect_stdout(text):
    run(model, **{k: v for k, v in given.items() if k in known})
  rec.op(len(model.calls))
  # replay of the calls
  weights = np.zeros(classes)
  reports, calls = [], list(model.calls)
  for epoch in range(case['epochs']):
    for part, count in ((False, train), (True, test)):
      losses, hits, seen = [], [], []
      for _ in range(count // b):
        need(calls, 'epoch %d: calls are missing', epoch)
        training, is_test, which, used = calls.pop(0)
        what = 'epoch %d, %s data, models %s' % (
            epoch, 'test' if part else 'training', which)
        need(is_test == part and training == (not part),
             '%s: called with training=%s', what, training)
        need_close(used, weights, '%s: weights' % what, atol=1e-4)
        y = np.array(labels[part])[which]
        p = softmax(logits[np.array(which) + 100 * part] + weights)
        losses.append(-np.log(p[np.arange(b), y]).mean())
        hits += (p.argmax(-1) == y).tolist()
        # ties are decided by rounding
        top = np.sort(p, -1)
        if (top[:, -1] - top[:, -2]).min() < 1e-4:
          raise Skip()
        seen += which
        if not part:
          weights = weights - lr * (p - np.eye(classes)[y]).mean(0)
      need(len(set(seen)) == len(seen), 'epoch %d: models %s', epoch, seen)
      reports.append((np.mean(losses), np.mean(hits)))
  need(not calls, 'the network is called too often: %s', calls)
  need_close(npy(model.weights), weights, 'weights at the end', atol=1e-4)
  found = re.findall(r'(?:Training|Validation): +Loss: ([\d.]+), '
                     r'Accuracy: ([\d.]+)%', text.getvalue())
  need(len(found) == len(reports), '%d reports instead of %d', len(found),
       len(reports))
  for i, ((loss, hit), (l, h)) in enumerate(zip(reports, found)):
    need(abs(float(l) - loss) < 2e-3 and abs(float(h) - 100 * hit) < 2e-3,
         'report %d: loss %s and accuracy %s%% instead of %g and %g%%', i,
         l, h, loss, 100 * hit)
  rec.state((case['script'], train, test, b, pattern, found))


def check(case, rec):
  {'logits': check_logits, 'weights': check_weights,
   'loop': check_loop}[case['kind']](case, rec)
