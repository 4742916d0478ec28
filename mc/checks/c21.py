"""C21: ResNet blocks compose their layers as documented.

Every call of a sublayer (public __call__ of the layer classes and of batch
normalization) is recorded with its input and output. The check walks along
the documented composition and looks for the calls it demands by their input;
which sublayer computes what, and in which order, is left to the code."""

import contextlib
import itertools
from unittest import mock

import numpy as np
import tensorflow as tf

from mc import conv, spaces
from mc.checks import c14
from mc.impl import cloud, layers, need, need_close, npy, pc

NETS = ['PointResNet', 'PointResNetBottleNeck',
        'PointResNetSpatialBottleNeck']
TYPES = ['MCConv', 'mc', 'KPConv', 'kp_conv', 'PointConv', 'point_conv']
CLASSES = {'m': 'MCConv', 'k': 'KPConv', 'p': 'PointConv'}
RADII = [[0.875, 1.5, 0.875], [0.875, 1.5, 1.25], [1.25, 1.25, 1.25]]


def cases(tier):
  blocks = (1, 2) if tier == 'quick' else (1, 2, 3, 4)
  n = 0
  for net in NETS:
    for t in TYPES:
      for proj in (False, True):
        for k in blocks:
          for given in (False, True):
            for training in (False, True):
              for d in (2, 3):
                for rad in range(3 if 'Spatial' in net else 1):
                  n += 1
                  if tier == 'quick' and k == 2 and given != training:
                    continue
                  yield {'net': net, 'type': t, 'proj': proj, 'blocks': k,
                         'given': given, 'training': training, 'd': d,
                         'rad': rad, 'act': n % 3, 'pattern': n % 3,
                         'layout': ['flat', 'sorted', 'padded'][n % 3],
                         'padded_in': bool(n % 2), 'extra': n % 2}


class Log:
  """Calls of sublayers, in order."""

  def __init__(self):
    self.calls = []

  @contextlib.contextmanager
  def recording(self):
    kinds = {'conv': [layers.MCConv, layers.KPConv, layers.PointConv],
             'proj': [layers.Conv1x1],
             'norm': [tf.keras.layers.BatchNormalization]}
    with contextlib.ExitStack() as stack:
      for kind, classes in kinds.items():
        for cls in classes:
          stack.enter_context(mock.patch.object(
              cls, '__call__', self.wrap(kind, cls.__call__)))
      yield

  def wrap(self, kind, original):
    log = self

    def __call__(self, features, *args, **kwargs):
      state = None
      if kind == 'norm' and self.built:
        state = [npy(v) for v in (self.gamma, self.beta, self.moving_mean,
                                  self.moving_variance)]
      out = original(self, features, *args, **kwargs)
      if kind == 'norm' and state is None:
        c = out.shape[-1]
        state = [np.ones(c), np.zeros(c), np.zeros(c), np.ones(c)]
      log.calls.append({'kind': kind, 'layer': self, 'in': npy(features),
                        'out': npy(out), 'state': state, 'used': False,
                        'original': original})
      return out
    return __call__

  def take(self, kind, value, what):
    for call in self.calls:
      if call['kind'] == kind and not call['used'] and \
          call['in'].shape == value.shape and \
          np.allclose(call['in'], value, rtol=1e-4, atol=1e-5):
        call['used'] = True
        return call
    need(False, '%s: no %s layer is applied to %s', what, kind,
         value.tolist())


def scene(case):
  d = case['d']
  base = [[0.25 * ((i * (3 + k)) % (5 + k)) for k in range(d)]
          for i in range(6)]
  other = [[2.0 - 0.5 * ((i * (2 + k)) % 3) for k in range(d)]
           for i in range(3)]
  pts, ids = spaces.interleave([base, other], case['pattern'])
  down, dids = spaces.interleave([base[:3], other[:2]],
                                 (case['pattern'] + 1) % 3)
  return pts, ids, down + np.float32(0.0625), dids


def norm(call, training, value):
  gamma, beta, mean, var = call['state']
  if training:
    mean, var = value.mean(0), value.var(0)
  return (value - mean) / np.sqrt(var + call['layer'].epsilon) * gamma + beta


ACTS = [('relu', tf.nn.relu), ('elu', tf.nn.elu),
        ('shift', lambda x: tf.math.tanh(x) + 0.5)]


def check(case, rec):
  net, d, training = case['net'], case['d'], case['training']
  pts, ids, down, dids = scene(case)
  b, c = 2, 4
  cl = cloud(pts, ids, b)
  cl.set_batch_shape([2, 1])
  dcl = cloud(down, dids, b)
  cls = CLASSES[case['type'][0].lower()]
  ctor, call_args = {}, {}
  if cls == 'KPConv':
    ctor = {'num_kernel_points': 8, 'custom_kernel_points': c14.custom(8, d)}
    if case['extra']:
      call_args = {'kernel_influence_dist': 0.6}
  else:
    ctor = {'num_mlps': 2} if cls == 'MCConv' else {'size_hidden': 8}
    if case['extra']:
      call_args = {'bandwidth': 0.4}
  name, activation = ACTS[case['act']]
  if name != 'relu':
    ctor['activation'] = activation
  ctor.update(num_features=c, num_blocks=case['blocks'], num_dims=d,
              layer_type=case['type'])
  if case['proj']:
    ctor['projection_shortcuts'] = True
  if net == 'PointResNetBottleNeck':
    ctor['bottle_neck_num_features'] = 2
  block = getattr(layers, net)(**ctor)
  feats = conv.feature_values(len(pts), c)
  arg = feats
  if case['padded_in']:
    arg = npy(cl.get_unflatten()(tf.constant(feats)))
  rad = RADII[case['rad']]
  spatial = net == 'PointResNetSpatialBottleNeck'

  def hood(a, o, r, limit):
    full = np.full(d, r, np.float32)
    return pc.Neighborhood(pc.Grid(a, full), full, o, limit)

  # given neighborhoods are limited, so that they differ from computed ones
  limit = 2 if case['given'] else 0
  if spatial:
    stages = [(cl, dcl, rad[0]), (dcl, dcl, rad[1]), (dcl, cl, rad[2])]
  else:
    stages = [(cl, cl, rad[0])]
  hoods = [hood(a, o, r, limit) for a, o, r in stages]

  def run(log):
    kw = dict(call_args)
    if case['given']:
      given = [hood(a, o, r, limit) for a, o, r in stages]
      kw['neighborhoods' if spatial else 'neighborhood'] = \
          given if spatial else given[0]
    if case['layout'] == 'sorted':
      kw['return_sorted'] = True
    elif case['layout'] == 'padded':
      kw['return_padded'] = True
    with log.recording():
      if spatial:
        return npy(block(arg, cl, dcl, np.array(rad, np.float32), training,
                         **kw))
      return npy(block(arg, cl, rad[0], training, **kw))

  for turn in range(2):
    log = Log()
    got = run(log)
    rec.op(1 + len(log.calls))
    what = '%s call %d' % (case, turn)
    value = feats
    for i in range(case['blocks']):
      skip = value
      if net == 'PointResNet':
        chain = [('conv', 0), ('conv', 0)]
      elif net == 'PointResNetBottleNeck':
        chain = [('proj', None), ('conv', 0), ('proj', None)]
      else:
        chain = [('conv', 0), ('conv', 1), ('conv', 2)]
      for kind, stage in chain:
        call = log.take('norm', value, what)
        need_close(call['out'], norm(call, training, value),
                   '%s: batch normalization' % what, rtol=1e-3, atol=1e-4)
        value = npy(activation(tf.constant(call['out'])))
        call = log.take(kind, value, what)
        if kind == 'conv':
          a, o, r = stages[stage]
          need(type(call['layer']).__name__ == cls, '%s: %s instead of %s',
               what, type(call['layer']), cls)
          want = npy(call['original'](
              call['layer'], tf.constant(value), a, o, r,
              neighborhood=hoods[stage], **call_args))
          need_close(call['out'], want, '%s: convolution %d of block %d' % (
              what, stage, i), rtol=1e-3, atol=1e-4)
          rec.op()
        value = call['out']
      if case['proj']:
        value = value + log.take('proj', skip, what)['out']
      else:
        value = value + skip
    need(all(x['used'] for x in log.calls), '%s: unexpected calls of %s',
         what, [x['kind'] for x in log.calls if not x['used']])
    used = [id(x['layer']) for x in log.calls]
    need(len(set(used)) == len(used), '%s: a layer is used twice', what)
    order = np.argsort(ids, kind='stable')
    if case['layout'] == 'flat':
      want = value
    elif case['layout'] == 'sorted':
      want = value[order]
    else:
      want = npy(cl.get_unflatten()(tf.constant(value)))
    need_close(got, want, '%s: output' % what, rtol=1e-3, atol=1e-4)
    rec.state((case['net'], np.round(got, 3).tolist()))
    # other weights for the second call
    variables = {v.name: 0 for v in block.trainable_variables}
    need(len(block.trainable_variables) >= len(used),
         '%s: variables %s', what, sorted(variables))
    for k, x in enumerate(log.calls):
      if x['kind'] == 'norm':
        n = x['out'].shape[-1]
        x['layer'].gamma.assign(conv.weight_values([n], k) + 1.0)
        x['layer'].beta.assign(conv.weight_values([n], k + 1))
        need(any(v is x['layer'].gamma for v in block.trainable_variables),
             '%s: batch norm is not trainable', what)
  rec.trace()
