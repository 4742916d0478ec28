"""C29: layers keep nothing from earlier calls.

Breadth first search over the histories of calls of real layers on shared
clouds and neighborhoods. A state is everything which the layers, the clouds
and the neighborhoods hold; from every state every call is made, and compared
with that of a fresh layer with the same weights on fresh clouds. All
histories up to length two are explored without merging states."""

import collections

import numpy as np
import tensorflow as tf

from mc import conv, ref
from mc.checks import c14
from mc.impl import canonical, layers, need, npy, pc

IN, OUT = 2, 4
DEPTH = {'quick': 3, 'thorough': 6}
MERGE_FROM = {'quick': 2, 'thorough': 3}
CONV_LAYERS = ['MCConv', 'PointConv', 'KPConv', 'KPConvGauss', 'KPConvDeform']
POOL_LAYERS = ['MaxPooling', 'AveragePooling']
OTHERS = ['Conv1x1', 'GlobalMaxPooling', 'GlobalAveragePooling',
          'PointResNet', 'PointResNetBottleNeck',
          'PointResNetSpatialBottleNeck']


def make(name, d, second):
  """A layer; the second instance differs in every size."""
  out = OUT + 2 * second
  kp = 8 + 2 * second
  act = 'leaky_relu' if second else 'relu'
  if name == 'MCConv':
    layer = layers.MCConv(IN, out, d, 2, [4 + 4 * second],
                          non_linearity_type=act)
  elif name == 'PointConv':
    layer = layers.PointConv(IN, out, d, 8 + 8 * second,
                             non_linearity_type=act)
  elif name.startswith('KPConv'):
    layer = layers.KPConv(
        IN, out, kp, d, deformable='Deform' in name,
        custom_kernel_points=c14.custom(kp, d) * (0.9 if second else 1.0),
        kp_interpolation='gaussian' if ('Gauss' in name) != second else
        'linear')
  elif name == 'Conv1x1':
    layer = layers.Conv1x1(IN, out)
  elif name == 'PointResNet':
    layer = layers.PointResNet(IN, 1, d, 'MCConv', num_mlps=1,
                               activation=tf.nn.elu if second else tf.nn.relu)
  elif name == 'PointResNetBottleNeck':
    layer = layers.PointResNetBottleNeck(
        IN, 2, 1, d, 'KPConv', num_kernel_points=kp,
        custom_kernel_points=c14.custom(kp, d))
  elif name == 'PointResNetSpatialBottleNeck':
    layer = layers.PointResNetSpatialBottleNeck(IN, 1, d, 'MCConv',
                                                num_mlps=1)
  else:
    return getattr(layers, name)()
  return layer


def weigh(layer, name, second):
  """The same weights for all layers made the same way."""
  w = conv.set_weights(layer, 3 if second else 0) if hasattr(
      layer, 'variables') else {}
  if name == 'PointConv':
    w['pdf_biases_2'].assign([[6.0]])
  # names of Keras layers differ between instances, their order does not
  for k, v in enumerate(getattr(layer, 'variables', [])):
    if 'ResNet' in name:
      v.assign(conv.weight_values(v.shape.as_list(), 3 * second + k))
    if 'variance' in v.name:
      v.assign(np.abs(v.numpy()) + 0.5)


def rows(sizes, d, salt):
  n = sum(sizes)
  i = np.arange(n)
  pts = np.stack([0.3713 * ((i * (3 + k) + salt) % 7) + 0.01037 * i
                  for k in range(d)], axis=1).astype(np.float32)
  return np.split(pts, np.cumsum(sizes)[:-1])


class World:
  """Clouds, neighborhoods and features shared by all calls."""

  def __init__(self, d):
    self.d = d
    ids = np.array([2, 0, 2, 2, 0, 0, 2], np.int32)
    a = np.concatenate(rows([7], d, 1))
    self.features = {'A': conv.feature_values(7, IN, 1)}
    self.clouds = {'A': pc.PointCloud(a, batch_ids=ids, batch_size=3)}
    c = np.concatenate(rows([5], d, 4)) * 0.9 + 0.05
    self.clouds['C'] = pc.PointCloud(
        c.astype(np.float32), batch_ids=np.array([0, 2, 2, 0, 1], np.int32),
        batch_size=3)
    for name, sizes, salt in (('P', [3, 0, 4, 1], 2), ('Q', [2, 1, 3, 2], 5)):
      parts = rows(sizes, d, salt)
      self.clouds[name] = pc.PointCloud(
          ref.pad(parts, [2, 2], 4, d),
          sizes=np.array(sizes, np.int32).reshape(2, 2))
      feats = np.split(conv.feature_values(sum(sizes), IN, salt),
                       np.cumsum(sizes)[:-1])
      self.features[name] = ref.pad(feats, [2, 2], 4, IN)
    # built when the first call uses them
    self.neighborhoods = {}
    self.copies = {k: v.copy() for k, v in self.features.items()}

  def neighborhood(self, name):
    if name not in self.neighborhoods:
      a, c, r = {'AC': ('A', 'C', 0.9), 'PQ': ('P', 'Q', 1.7),
                 'AA': ('A', 'A', 1.7)}[name]
      self.neighborhoods[name] = pc.Neighborhood(
          pc.Grid(self.clouds[a], r), r, self.clouds[c])
    return self.neighborhoods[name]

  def untouched(self):
    for k, v in self.copies.items():
      need(np.array_equal(self.features[k], v), 'features were changed')
    fresh = FRESH[self.d]
    for k in self.clouds:
      mine, new = self.clouds[k], fresh.clouds[k]
      for what in ('_points', '_batch_ids'):
        need(np.array_equal(npy(getattr(mine, what)),
                            npy(getattr(new, what))), 'cloud %s changed', k)
      need(np.array_equal(npy(mine.get_points()), npy(new.get_points())) and
           np.array_equal(npy(mine.get_sizes()), npy(new.get_sizes())),
           'cloud %s changed', k)
    for k in self.neighborhoods:
      need(np.array_equal(
          npy(self.neighborhoods[k]._original_neigh_ids),
          npy(fresh.neighborhood(k)._original_neigh_ids)),
           'neighborhood %s changed', k)


FRESH = {}
_WANT = {}


def calls(name):
  """(instance, arguments) of every call of the alphabet."""
  if name in CONV_LAYERS:
    width = 'kernel_influence_dist' if name.startswith('KPConv') else \
        'bandwidth'
    out = [
        (0, {'f': 'A', 'in': 'A', 'out': 'C', 'r': 0.9}),
        (0, {'f': 'A', 'in': 'A', 'out': 'C', 'r': 1.7,
             'kw': {'return_sorted': True}}),
        (0, {'f': 'A', 'in': 'A', 'out': 'A', 'r': 0.9}),
        (0, {'f': 'A', 'in': 'A', 'out': 'A', 'r': 0.3}),
        (0, {'f': 'P', 'in': 'P', 'out': 'Q', 'r': 0.9,
             'kw': {'return_padded': True}}),
        (0, {'f': 'A', 'in': 'A', 'out': 'C', 'r': 0.9, 'nb': 'AC'}),
        (0, {'f': 'A', 'in': 'A', 'out': 'C', 'r': 0.9,
             'kw': {width: 0.55}}),
        (0, {'f': 'A', 'in': 'P', 'out': 'Q', 'r': 0.9, 'bad': True}),
        (1, {'f': 'P', 'in': 'P', 'out': 'Q', 'r': 1.7, 'nb': 'PQ'}),
        (1, {'f': 'A', 'in': 'A', 'out': 'A', 'r': 1.7})]
    return out
  if name in POOL_LAYERS:
    return [
        (0, {'f': 'A', 'in': 'A', 'out': 'A', 'r': 0.3}),
        (0, {'f': 'A', 'in': 'A', 'out': 'C', 'r': np.array(1.7)}),
        (0, {'f': 'A', 'in': 'A', 'out': 'A', 'r': np.array(1.7)}),
        (0, {'f': 'P', 'in': 'P', 'out': 'P', 'r': 0.9,
             'kw': {'return_padded': True}}),
        (0, {'f': 'P', 'in': 'P', 'out': 'P', 'r': 2.9,
             'kw': {'return_sorted': True}}),
        (1, {'f': 'A', 'in': 'A', 'out': 'A', 'r': 2.9})]
  if name == 'Conv1x1':
    return [
        (0, {'f': 'A', 'in': 'A'}), (0, {'f': 'P', 'in': 'P'}),
        (0, {'f': 'P', 'in': 'P', 'kw': {'return_padded': True}}),
        (0, {'f': 'A', 'in': 'A', 'kw': {'return_sorted': True}}),
        (1, {'f': 'A', 'in': 'A'})]
  if name.startswith('Global'):
    return [
        (0, {'f': 'A', 'in': 'A'}), (0, {'f': 'P', 'in': 'P'}),
        (0, {'f': 'P', 'in': 'P', 'kw': {'return_padded': True}}),
        (1, {'f': 'P', 'in': 'P'})]
  if name == 'PointResNetSpatialBottleNeck':
    return [
        (0, {'f': 'A', 'in': 'A', 'out': 'C', 'r': [0.9, 1.7, 0.9]}),
        (0, {'f': 'A', 'in': 'A', 'out': 'C', 'r': [0.3, 0.3, 1.7]}),
        (0, {'f': 'P', 'in': 'P', 'out': 'Q', 'r': [1.7, 0.9, 1.1],
             'kw': {'return_padded': True}}),
        (1, {'f': 'A', 'in': 'A', 'out': 'C', 'r': [1.7, 0.9, 1.7]})]
  return [
      (0, {'f': 'A', 'in': 'A', 'r': 0.9}),
      (0, {'f': 'A', 'in': 'A', 'r': 0.3}),
      (0, {'f': 'P', 'in': 'P', 'r': 1.7, 'kw': {'return_padded': True}}),
      (0, {'f': 'A', 'in': 'A', 'r': 1.7, 'nb': 'AA'}),
      (1, {'f': 'A', 'in': 'A', 'r': 0.9})]


def run(layer, name, world, call, light=False):
  """All observations of one call."""
  feats = world.features[call['f']]
  args = [feats, world.clouds[call['in']]]
  if 'out' in call:
    args.append(world.clouds[call['out']])
  if 'r' in call:
    args.append(call['r'])
  kw = dict(call.get('kw', {}))
  if 'nb' in call:
    kw['neighborhood'] = world.neighborhood(call['nb'])
  if 'ResNet' in name:
    kw['training'] = False
  if call.get('bad'):
    try:
      layer(*args, **kw)
    except Exception as e:  # rejected
      return {'raised': np.array(True)}
    return {'raised': np.array(False)}
  if light:
    layer(*args, **kw)
    return {}
  with tf.GradientTape() as tape:
    y = layer(*args, **kw)
    total = tf.reduce_sum(y * y)
  out = {'value': npy(y)}
  variables = list(getattr(layer, 'trainable_variables', []))
  for k, g in enumerate(tape.gradient(total, variables)):
    if g is not None:
      out['derivative %d' % k] = npy(g)
  if name == 'KPConvDeform':
    out['loss'] = npy(layer.regularization_loss())
  return out


def setup(name, d):
  world = World(d)
  pair = [make(name, d, False), make(name, d, True)]
  # networks build their variables in the first call
  if 'ResNet' in name:
    other = World(d)
    first = {k: c for k, c in calls(name)[::-1]}
    for k in first:
      run(pair[k], name, other, first[k], light=True)
  for k, layer in enumerate(pair):
    weigh(layer, name, k)
  return world, pair


def want(name, d, index):
  key = (name, d, index)
  if key not in _WANT:
    world, pair = setup(name, d)
    k, call = calls(name)[index]
    _WANT[key] = run(pair[k], name, world, call)
    need(all(np.all(np.isfinite(v)) for v in _WANT[key].values()),
         '%s (%dD), call %s: not finite', name, d, call)
  return _WANT[key]


def cases(tier):
  for d in (2, 3):
    for name in OTHERS[::-1] + CONV_LAYERS + POOL_LAYERS:
      for first in range(len(calls(name))):
        yield {'layer': name, 'd': d, 'first': first, 'depth': DEPTH[tier] - (
                   d == 2 or 'ResNet' in name),
               'merge': MERGE_FROM[tier]}


def state(world, pair):
  return canonical([[vars(x) if hasattr(x, '__dict__') else x for x in pair],
                    world.clouds, world.neighborhoods], depth=9)


def step(name, d, world, pair, index, history, rec):
  k, call = calls(name)[index]
  rec.op()
  got = run(pair[k], name, world, call)
  ref_ = want(name, d, index)
  text = '%s (%dD) after calls %s, call %s' % (
      name, d, list(history), call)
  need(set(got) == set(ref_), '%s: %s', text, sorted(got))
  for q in ref_:
    need(got[q].shape == ref_[q].shape and np.allclose(
        got[q], ref_[q], rtol=1e-5, atol=1e-6, equal_nan=True),
         '%s: %s is %s, of a fresh layer %s', text, q, got[q].tolist(),
         ref_[q].tolist())


def check(case, rec):
  name, d = case['layer'], case['d']
  if d not in FRESH:
    FRESH[d] = World(d)
  seen = set()
  merge_from = case['merge']
  todo = collections.deque([(case['first'],)])
  while todo:
    history = todo.popleft()
    world, pair = setup(name, d)
    for i, index in enumerate(history[:-1]):
      k, call = calls(name)[index]
      rec.op()
      run(pair[k], name, world, call, light=True)
    step(name, d, world, pair, history[-1], history[:-1], rec)
    s = state(world, pair)
    world.untouched()
    rec.state(s)
    rec.trace()
    if len(history) >= merge_from - 1:
      key = hash(s)
      if key in seen and len(history) >= merge_from:
        continue
      seen.add(key)
    if len(history) < case['depth']:
      todo.extend(history + (i,) for i in range(len(calls(name))))
