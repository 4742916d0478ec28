"""C40: layers start as configured, and everything they own is trained.

Every configuration within the bounds is built with initializers that count
what they are asked for, and differentiated once."""

from unittest import mock

import numpy as np
import tensorflow as tf

from pylib.pc.Neighborhood import (KDEMode, compute_neighborhoods,
                                   density_estimation,
                                   density_estimation_in_neighborhoods)

from mc import conv
from mc.checks import c14
from mc.checks.c09 import Chooser, controlled
from mc.impl import cloud, layers, need, need_close, need_equal, npy, pc

RADIUS = 1.25
NETS = {'PointResNet': layers.PointResNet,
        'PointResNetBottleNeck': layers.PointResNetBottleNeck,
        'PointResNetSpatialBottleNeck': layers.PointResNetSpatialBottleNeck}
TYPES = {'MCConv': {'num_mlps': 2, 'mlp_size': [3]},
         'KPConv': {'num_kernel_points': 7},
         'PointConv': {'size_hidden': 8}}


def layer_cases(tier):
  features = ((1, 4), (3, 4)) if tier == 'quick' else \
      ((1, 2), (1, 4), (2, 8), (3, 4), (5, 12))
  for cin, cout in features:
    for d in (2, 3) if tier == 'quick' else (2, 3, 4, 5):
      for mlps in (1, 2, 4):
        for sizes in ([4], [8], [3, 5], [2, 4, 3]):
          if cout % mlps == 0:
            yield 'MCConv', (cin, cout, d, mlps, sizes)
      for hidden in (8, 16, 32):
        yield 'PointConv', (cin, cout, d, hidden)
      for k in (1, 4, 8, 9, 17):
        for deformable in (False, True):
          yield 'KPConv', (cin, cout, k, d, deformable)
    for k in (5, 7, 13, 15, 18):
      for deformable in (False, True):
        yield 'KPConv', (cin, cout, k, None, deformable)
    yield 'Conv1x1', (cin, cout)


def cases(tier):
  for name, args in layer_cases(tier):
    yield {'kind': 'fresh', 'layer': name, 'args': list(args)}
    if name != 'Conv1x1':
      yield {'kind': 'given', 'layer': name, 'args': list(args)}
  for net in NETS:
    for t in TYPES:
      for proj in (False, True):
        for blocks in (1, 2) if tier == 'quick' else (1, 2, 3, 4):
          for training in (False, True):
            yield {'kind': 'net', 'net': net, 'type': t, 'proj': proj,
                   'blocks': blocks, 'training': training}
  for what in DEFAULTS:
    yield {'kind': 'default', 'what': what}
  for key, uses in USES.items():
    for use in uses:
      yield {'kind': 'names', 'use': use, 'key': key}
  for what in TYPED:
    for form in FORMS:
      for radius in RADII:
        yield {'kind': 'types', 'what': what, 'form': form, 'radius': radius}


def product(*sizes):
  return int(np.prod(sizes))


def expected(name, args):
  """Number of scalars among the weights and among the biases."""
  if name == 'MCConv':
    cin, cout, d, mlps, sizes = args
    dims = [d] + list(sizes)
    return (mlps * sum(a * b for a, b in zip(dims, dims[1:])) +
            sizes[-1] * cin * cout, mlps * sum(sizes))
  if name == 'PointConv':
    cin, cout, d, hidden = args
    return d * hidden + hidden * cin * cout + 32, hidden + 17
  if name == 'KPConv':
    cin, cout, k, d, deformable = args
    return k * cin * (cout + (k * (d or 3) if deformable else 0)), 0
  cin, cout = args
  return cin * cout, cout


def build(kind, args, **more):
  if kind == 'MCConv':
    return layers.MCConv(*args, **more)
  if kind == 'PointConv':
    return layers.PointConv(*args, **more)
  if kind == 'Conv1x1':
    return layers.Conv1x1(*args, **more)
  cin, cout, k, d, deformable = args
  if d is not None:
    more.update(num_dims=d, custom_kernel_points=c14.custom(k, d))
  return layers.KPConv(cin, cout, k, deformable=deformable, **more)


class Counting:
  """Initializer which hands out different numbers."""

  def __init__(self, start):
    self.next, self.given = start, []

  def __call__(self, **kwargs):
    need(set(kwargs) <= {'stddev', 'mean', 'seed'},
         'the initializer is created with %s', kwargs)
    return self.values

  def values(self, shape, dtype=tf.float32):
    n = product(*shape)
    out = self.next + np.arange(n)
    self.next += n
    self.given.append(out)
    return tf.constant(out.reshape([int(s) for s in shape]), dtype)


def scalars(variables):
  return np.sort(np.concatenate([npy(v).reshape(-1) for v in variables])
                 ) if variables else np.zeros(0)


def scene(d):
  i = np.arange(9)
  pts = np.stack([0.25 * ((i * (3 + 2 * k) + k) % (5 + k))
                  for k in range(d)], 1).astype(np.float32)
  ids = np.array([0, 1, 0, 0, 1, 0, 1, 0, 0])
  opts = pts[[0, 1, 2, 4, 7]] + np.float32(0.0625)
  return cloud(pts, ids, 2), cloud(opts, ids[[0, 1, 2, 4, 7]], 2)


def dimension(name, args):
  return {'MCConv': lambda: args[2], 'PointConv': lambda: args[2],
          'KPConv': lambda: args[3] or 3, 'Conv1x1': lambda: 2}[name]()


def apply(name, layer, features, cin, cout, radius=RADIUS, **more):
  if name == 'Conv1x1':
    return layer(features, cin, **more)
  return layer(features, cin, cout, radius, **more)


def need_gradients(variables, tape, loss, what):
  grads = tape.gradient(loss, variables)
  for v, g in zip(variables, grads):
    need(g is not None, '%s: %s does not influence the output', what, v.name)
    g = npy(tf.convert_to_tensor(g))
    need(np.all(np.isfinite(g)) and np.any(g != 0),
         '%s: the gradient of %s is %s', what, v.name, g.reshape(-1)[:9])


def check_fresh(case, rec):
  name, args = case['layer'], case['args']
  what = '%s%s' % (name, tuple(args))
  weights, biases = expected(name, args)
  tf.random.set_seed(7)
  layer = build(name, args, name='some_layer')
  other = build(name, args, name='some_layer')
  rec.op(2)
  owned = list(layer.trainable_variables)
  need(len(layer.variables) == len(owned),
       '%s: %d of %d variables are trained', what, len(owned),
       len(layer.variables))
  need(not {id(v) for v in owned} & {id(v) for v in
                                     other.trainable_variables},
       '%s: two layers share variables', what)
  names = [v.name for v in owned]
  need(len(set(names)) == len(names) and
       all('some_layer' in n for n in names), '%s: names %s', what, names)
  values = scalars(owned)
  need(len(values) == weights + biases,
       '%s: %d trained numbers instead of %d', what, len(values),
       weights + biases)
  need(np.sum(values == 0) == biases,
       '%s: %d instead of %d numbers are zero at first', what,
       np.sum(values == 0), biases)
  need(np.all(np.isfinite(values)), '%s: weights not finite', what)
  for v in owned:
    v = npy(v)
    if np.any(v != 0):
      need(len(np.unique(v)) > 0.9 * v.size, '%s: equal initial weights',
           what)
      # truncated normal distributions of no more than the usual deviation
      need(np.abs(v).max() <= 4 * np.sqrt(2.0 / max(v.shape[-2], 1)),
           '%s: initial weights of shape %s up to %g', what, v.shape,
           np.abs(v).max())
  conv.set_weights(layer)
  d = dimension(name, args)
  cin, cout = scene(d)
  feats = conv.feature_values(9, args[0]) + np.float32(1.5)
  with tf.GradientTape() as tape:
    out = apply(name, layer, feats, cin, cout)
    loss = tf.reduce_sum(out * np.cos(np.arange(out.shape[0] * args[1]))
                         .reshape(out.shape).astype(np.float32))
  rec.op()
  need(tuple(out.shape) == (9 if name == 'Conv1x1' else 5, args[1]),
       '%s: output of shape %s', what, out.shape)
  if name != 'KPConv':
    need_gradients(owned, tape, loss, what)
  else:
    grads = tape.gradient(loss, owned)
    need(all(g is not None for g in grads), '%s: no gradient', what)
  rec.state(('fresh', name, repr(args)))


def check_given(case, rec):
  name, args = case['layer'], case['args']
  what = '%s%s' % (name, tuple(args))
  weights, biases = expected(name, args)
  w, b = Counting(1.0), Counting(-1e6)
  given = {'initializer_weights': w}
  if name != 'KPConv':
    given['initializer_biases'] = b
  owned = build(name, args, **given).trainable_variables
  rec.op()
  values = scalars(owned)
  need_equal(values[values > 0], np.arange(1, weights + 1),
             '%s: weights of the given initializer' % what)
  need_equal(values[values <= 0], -1e6 + np.arange(biases),
             '%s: biases of the given initializer' % what)
  # only one of them
  for only in given:
    init = Counting(1e5)
    mixed = scalars(build(name, args, **{only: init}).trainable_variables)
    rec.op()
    n = weights if only == 'initializer_weights' else biases
    need_equal(mixed[mixed >= 1e5], 1e5 + np.arange(n),
               '%s: only %s' % (what, only))
    need(len(mixed) == weights + biases and np.all(mixed[:len(mixed) - n]
                                                   < 1e3),
         '%s: the other variables, only %s', what, only)
  rec.state(('given', name, repr(args)))


def check_net(case, rec):
  t, k, proj = case['type'], case['blocks'], case['proj']
  what = str(case)
  spatial = 'Spatial' in case['net']
  c, mid = 4, 2
  more = {} if 'BottleNeck' not in case['net'] or spatial else \
      {'bottle_neck_num_features': mid}
  net = NETS[case['net']](num_features=c, num_blocks=k, num_dims=3,
                          layer_type=t, projection_shortcuts=proj,
                          **more, **TYPES[t])
  cin, cout = scene(3)
  feats = conv.feature_values(9, c)

  def run(training):
    if spatial:
      return net(feats, cin, cout, [1.25, 1.5, 1.0], training)
    return net(feats, cin, RADIUS, training)
  run(case['training'])
  owned = list(net.trainable_variables)

  def one(a):
    return sum(expected(t, {'MCConv': (a, a, 3, 2, [3]),
                            'KPConv': (a, a, 7, 3, False),
                            'PointConv': (a, a, 3, 8)}[t]))
  norm = 2 * c
  if spatial:
    want = 3 * one(c) + 3 * norm
  elif more:
    want = one(mid) + norm + c * mid + mid + 2 * mid + mid * c + c + 2 * mid
  else:
    want = 2 * one(c) + 2 * norm
  want = k * (want + (c * c + c if proj else 0))
  total = len(scalars(owned))
  need(total == want, '%s: %d trained numbers instead of %d', what, total,
       want)
  # moving averages
  fixed = len(scalars(net.variables)) - total
  norms = {True: 3 * c, False: 2 * c}[spatial] if not more else c + 2 * mid
  need(fixed == 2 * k * norms, '%s: %d numbers are not trained', what, fixed)
  for i, v in enumerate(owned):
    v.assign(np.resize(np.cos(np.arange(1, 18) * (i + 2)), v.shape) * 0.5 +
             0.125)
  with tf.GradientTape() as tape:
    out = run(case['training'])
    loss = tf.reduce_sum(out * np.cos(np.arange(out.shape[0] * c))
                         .reshape(out.shape).astype(np.float32))
  rec.op(2)
  grads = tape.gradient(loss, owned)
  for v, g in zip(owned, grads):
    need(g is not None, '%s: %s does not influence the output', what, v.name)
  rec.state(('net', what))


# Default arguments: (without, with the default, with something else)
def clouds():
  return scene(3)


def numbers(out):
  if isinstance(out, pc.PointCloud):
    return [npy(out._points), npy(out._batch_ids)]
  if isinstance(out, pc.Neighborhood):
    return [npy(out._original_neigh_ids), npy(out._samples_neigh_ranges)]
  if isinstance(out, (tuple, list)):
    return [x for o in out for x in numbers(o)]
  return [npy(out)]


def layer_default(make, call, default, other):
  def run(kwargs, kind):
    cin, cout = clouds()
    ctor, args = (kwargs, {}) if kind == 'ctor' else ({}, kwargs)
    layer = make(ctor)
    variables = getattr(layer, 'trainable_variables', ())
    for i, v in enumerate(variables):
      v.assign(np.resize(np.cos(np.arange(1, 18) * (i + 2)), v.shape))
    out = call(layer, cin, cout, args)
    return [np.array([v.shape.as_list() for v in variables],
                     dtype=object).reshape(-1).tolist()], numbers(out)
  return run, default, other


def defaults():
  out = {}
  F = conv.feature_values(9, 4)

  def function(name, f, default, other):
    def run(kwargs, kind):
      with controlled(Chooser([])):
        return None, numbers(f(*clouds(), kwargs))
    out[name] = (run, default, other, 'call')

  def layer(name, make, call, kind, default, other):
    run, a, b = layer_default(make, call, default, other)
    out[name] = (run, a, b, kind)

  kde = KDEMode
  for key, default, other in (('bandwidth', 0.2, 0.3), ('scaling', 1.0, 1.5),
                              ('mode', kde.constant, kde.no_pdf),
                              ('normalize', False, True)):
    function('density_estimation ' + key,
             lambda a, b, kw: density_estimation(a, **kw),
             {key: default}, {key: other})
    function('density_estimation_in_neighborhoods ' + key,
             lambda a, b, kw: density_estimation_in_neighborhoods(
                 a, compute_neighborhoods(pc.Grid(a, 1.5), 1.5, b), **kw),
             {key: default}, {key: other})
    if key != 'scaling':
      function('Neighborhood.compute_pdf ' + key,
               lambda a, b, kw: pdf_of(pc.Neighborhood(pc.Grid(a, 1.5), 1.5,
                                                       b), kw),
               {key: default}, {key: other})
  function('compute_neighborhoods max_neighbors',
           lambda a, b, kw: compute_neighborhoods(pc.Grid(a, 1.5), 1.5, b,
                                                  **kw),
           {'max_neighbors': 0}, {'max_neighbors': 1})
  function('compute_neighborhoods return_ranges',
           lambda a, b, kw: compute_neighborhoods(pc.Grid(a, 1.5), 1.5, b,
                                                  **kw),
           {'return_ranges': False}, {'return_ranges': True})
  function('compute_neighborhoods return_sorted_ids',
           lambda a, b, kw: compute_neighborhoods(pc.Grid(a, 1.5), 1.5, b,
                                                  **kw),
           {'return_sorted_ids': False}, {'return_sorted_ids': True})
  function('Neighborhood max_neighbors',
           lambda a, b, kw: pc.Neighborhood(pc.Grid(a, 1.5), 1.5, b, **kw),
           {'max_neighbors': 0}, {'max_neighbors': 1})
  function('sample sample_mode',
           lambda a, b, kw: pc.sample(pc.Neighborhood(pc.Grid(a, 0.75), 0.75),
                                      **kw)[0],
           {'sample_mode': 'poisson'}, {'sample_mode': 'cell average'})
  function('PointHierarchy sample_mode',
           lambda a, b, kw: pc.PointHierarchy(a, [0.75, 1.25], **kw)
           ._point_clouds, {'sample_mode': 'poisson'},
           {'sample_mode': 'cell average'})
  function('poisson_disk_sampling return_ids',
           lambda a, b, kw: pc.poisson_disk_sampling(a, 0.75, **kw),
           {'return_ids': False}, {'return_ids': True})
  function('AABB diameter ord',
           lambda a, b, kw: a.get_AABB().get_diameter(**kw),
           {'ord': 'euclidean'}, {'ord': 1})

  def on(a, b, layer, kw, *rest):
    return layer(F, a, b, RADIUS, **kw)
  mc = {'num_features_in': 4, 'num_features_out': 4, 'num_dims': 3}
  for key, default, other in (
      ('num_mlps', 4, 2), ('mlp_size', [8], [4]),
      ('non_linearity_type', 'leaky_relu', 'elu')):
    layer('MCConv ' + key, lambda kw: layers.MCConv(**mc, **kw),
          lambda l, a, b, kw: on(a, b, l, kw), 'ctor', {key: default},
          {key: other})
  layer('PointConv non_linearity_type',
        lambda kw: layers.PointConv(**mc, **kw),
        lambda l, a, b, kw: on(a, b, l, kw), 'ctor',
        None, {'non_linearity_type': 'elu'})
  layer('PointConv size_hidden', lambda kw: layers.PointConv(**mc, **kw),
        lambda l, a, b, kw: on(a, b, l, kw), 'ctor', {'size_hidden': 32},
        {'size_hidden': 16})
  some = c14.custom(15, 3)
  for key, default, other in (
      ('num_dims', 3, None), ('deformable', False, True),
      ('kp_interpolation', 'linear', 'gaussian')):
    layer('KPConv ' + key,
          lambda kw: layers.KPConv(4, 4, custom_kernel_points=some, **kw),
          lambda l, a, b, kw: on(a, b, l, kw), 'ctor', {key: default},
          {key: other} if other else None)
  layer('KPConv num_kernel_points', lambda kw: layers.KPConv(4, 4, **kw),
        lambda l, a, b, kw: [], 'ctor', {'num_kernel_points': 15},
        {'num_kernel_points': 13})
  made = {'MCConv': lambda kw: layers.MCConv(**mc, **kw),
          'PointConv': lambda kw: layers.PointConv(**mc, **kw),
          'KPConv': lambda kw: layers.KPConv(4, 4, custom_kernel_points=some),
          'MaxPooling': lambda kw: layers.MaxPooling(),
          'AveragePooling': lambda kw: layers.AveragePooling()}
  flags = (('return_sorted', False, True), ('return_padded', False, True))
  for name, make in made.items():
    more = flags + ((('bandwidth', 0.2, 0.5),) if name in (
        'MCConv', 'PointConv') else ())
    for key, default, other in more:
      layer('%s() %s' % (name, key), make,
            lambda l, a, b, kw: on(a, b, l, kw), 'call', {key: default},
            {key: other})
  for name in ('GlobalMaxPooling', 'GlobalAveragePooling'):
    layer(name + '() return_padded',
          lambda kw, name=name: getattr(layers, name)(),
          lambda l, a, b, kw: l(F, two_dims(a), **kw), 'call',
          {'return_padded': False}, {'return_padded': True})
  for key, default, other in flags:
    layer('Conv1x1() ' + key, lambda kw: layers.Conv1x1(4, 4),
          lambda l, a, b, kw: l(F, a, **kw), 'call', {key: default},
          {key: other})
  for name, cls in NETS.items():
    ctor = {'num_features': 4, 'num_blocks': 1, 'num_dims': 3}
    if name == 'PointResNetBottleNeck':
      ctor['bottle_neck_num_features'] = 4

    def call(l, a, b, kw, name=name):
      if 'Spatial' in name:
        return l(F, a, b, [1.25, 1.5, 1.0], False, **kw)
      return l(F, a, RADIUS, False, **kw)
    for key, default, other in (
        ('layer_type', 'MCConv', 'PointConv'),
        ('projection_shortcuts', False, True),
        ('activation', tf.nn.relu, tf.nn.elu)):
      layer('%s %s' % (name, key),
            lambda kw, cls=cls, ctor=ctor: cls(**ctor, **kw), call, 'ctor',
            {key: default}, {key: other})
    for key, default, other in flags:
      layer('%s() %s' % (name, key),
            lambda kw, cls=cls, ctor=ctor: cls(**ctor), call, 'call',
            {key: default}, {key: other})
  return out


def pdf_of(nb, kwargs):
  nb.compute_pdf(**kwargs)
  return nb.get_pdf()


def two_dims(a):
  a.set_batch_shape([2, 1])
  return a


DEFAULTS = defaults()


def same(a, b):
  return len(a) == len(b) and all(
      x.shape == y.shape and np.allclose(x, y, rtol=1e-4, atol=1e-5)
      for x, y in zip(a, b))


def check_default(case, rec):
  run, default, other, kind = DEFAULTS[case['what']]
  shapes, without = run({}, kind)
  rec.op()
  # the documentation of the activation of PointConv contradicts the code
  if default is not None:
    shapes2, given = run(default, kind)
    rec.op()
    need(shapes == shapes2, '%s: variables %s without and %s with %s',
         case['what'], shapes, shapes2, default)
    need(same(without, given), '%s: %s without and %s with %s', case['what'],
         [x.tolist() for x in without], [x.tolist() for x in given], default)
  if other is not None:
    shapes3, different = run(other, kind)
    rec.op()
    need(shapes3 != shapes or not same(without, different),
         '%s: %s has no effect', case['what'], other)
  rec.state(('default', case['what']))


# Names of the same thing
NAMES = {
    'sample_mode': [['poisson', 'poisson disk', 'poisson_disk', 'Poisson',
                     'Poisson Disk'],
                    ['cell average', 'average', 'cell_average',
                     'Cell Average']],
    'layer_type': [['MCConv', 'mcconv', 'mc', 'mc_conv', 'MC'],
                   ['KPConv', 'kpconv', 'kp', 'kp_conv', 'KP'],
                   ['PointConv', 'pointconv', 'point_conv', 'POINTCONV']],
    'non_linearity_type': [['ReLU', 'relu'],
                           ['lReLU', 'lrelu', 'leakyrelu', 'leaky_relu',
                            'LeakyReLU'], ['ELU', 'elu']],
}
USES = {'sample_mode': ['sample sample_mode', 'PointHierarchy sample_mode'],
        'layer_type': [net + ' layer_type' for net in NETS],
        'non_linearity_type': ['MCConv non_linearity_type',
                               'PointConv non_linearity_type']}


def check_names(case, rec):
  use, key = case['use'], case['key']
  run, _, _, kind = DEFAULTS[use]
  seen = []
  for group in NAMES[key]:
    with fixed_rotation():
      shapes, want = run({key: group[0]}, kind)
    rec.op()
    need(not any(sh == shapes and same(w, want) for sh, w in seen),
         '%s: %s is the same as another one', use, group[0])
    seen.append((shapes, want))
    for name in group[1:]:
      with fixed_rotation():
        shapes2, got = run({key: name}, kind)
      rec.op()
      need(shapes2 == shapes and same(got, want), '%s: %s is not %s', use,
           name, group[0])
  rec.state(('names', use))


def fixed_rotation():
  return mock.patch.object(tf.random, 'uniform', c14.uniform)


# Forms in which numbers are given
FORMS = {
    'float64': lambda x: np.asarray(x, np.float64),
    'list': lambda x: np.asarray(x).tolist(),
    'tensor': lambda x: tf.constant(x, tf.float32),
}
RADII = {
    'float': float,
    'float64': np.float64,
    'float32': np.float32,
    'tensor': lambda r: tf.constant(r, tf.float32),
    'array': lambda r: np.array([r, 2 * r, 1.5 * r])[0],
}
TYPED = ['MCConv', 'KPConv', 'PointConv', 'MaxPooling', 'AveragePooling',
         'Conv1x1', 'PointResNet', 'PointResNetBottleNeck',
         'PointResNetSpatialBottleNeck', 'GlobalMaxPooling',
         'GlobalAveragePooling']


def check_types(case, rec):
  what = case['what']
  tf.random.set_seed(3)
  if what in NETS:
    net = NETS[what](**({'bottle_neck_num_features': 2} if what ==
                        'PointResNetBottleNeck' else {}), num_features=4,
                     num_blocks=1, num_dims=3, num_mlps=1)
  elif what in ('MCConv', 'PointConv'):
    net = getattr(layers, what)(4, 4, 3)
  elif what == 'KPConv':
    net = layers.KPConv(4, 4, custom_kernel_points=c14.custom(15, 3))
  elif what == 'Conv1x1':
    net = layers.Conv1x1(4, 4)
  else:
    net = getattr(layers, what)()
  F = np.round(conv.feature_values(9, 4) * 64) / 64

  def run(form, radius):
    cin, cout = scene(3)
    f = form(F)
    if what.startswith('Global') or what == 'Conv1x1':
      return npy(net(f, cin))
    if 'Spatial' in what:
      r = [radius(1.25), radius(1.5), radius(1.0)]
      return npy(net(f, cin, cout, np.array(r) if isinstance(
          r[0], np.floating) else r, False))
    if what in NETS:
      return npy(net(f, cin, radius(RADIUS), False))
    return npy(net(f, cin, cout, radius(RADIUS)))
  want = run(FORMS['tensor'], float)
  got = run(FORMS[case['form']], RADII[case['radius']])
  rec.op(2)
  need_close(got, want, '%s with %s features and %s radius' % (
      what, case['form'], case['radius']))
  rec.state(('types', what, case['form'], case['radius']))


def check(case, rec):
  globals()['check_' + case['kind']](case, rec)
