"""C28: graph mode computes what eager mode computes.

For every configuration one function is compiled with unknown numbers of
points (and unknown sizes, ids, features), and serves every input of the
space; every output is compared with that of the same calls in eager mode."""

import itertools
from unittest import mock

import numpy as np
import tensorflow as tf

from pylib.pc.Neighborhood import density_estimation

from mc import conv, pipeline, ref
from mc.checks import c14
from mc.impl import layers, need, npy, pc

B = 3
RADIUS = 1.09
KINDS = ['ids', 'ids without batch size', 'padded', 'padded without sizes',
         'padded without batch size', 'sizes', 'sizes without batch size']
PARTS = ['convolutions', 'networks', 'structures', 'derivatives', 'poisson',
         'pooling', 'clouds']
_CTX = {}


HEAVY = ('structures', 'convolutions', 'networks')


def size_vectors(tier, part):
  top = 3 if tier == 'quick' else 4
  out = [s for s in itertools.product(range(top + 1), repeat=B) if sum(s)]
  out.sort(key=sum)
  if tier == 'quick':
    step = 4 if part in HEAVY else 2
    out = [s for k, s in enumerate(out) if k % step == 0 or sum(s) < 3]
  return out + [(7, 0, 12), (1, 20, 3)]


def cases(tier):
  for d in (2, 3):
    for i, part in enumerate(PARTS):
      for j, kind in enumerate(KINDS):
        if tier == 'quick' and part != 'clouds' and (i + j + 2 * d) % (
            4 if part in HEAVY else 3):
          continue
        yield {'d': d, 'kind': kind, 'part': part, 'tier': tier}


def inputs(d, kind, sizes, salt):
  """Arguments of the function, for one vector of sizes."""
  n = sum(sizes)
  i = np.arange(n)
  pts = np.stack([0.3713 * ((i * (3 + k) + salt) % 7) + 0.01037 * i
                  for k in range(d)], axis=1).astype(np.float32)
  ids = np.repeat(np.arange(B), sizes)
  feats = conv.feature_values(n, pipeline.IN, salt)
  csizes = [(s + salt + e) % 3 for e, s in enumerate(sizes)]
  if not sum(csizes):
    csizes[0] = 1
  m = sum(csizes)
  j = np.arange(m)
  cpts = np.stack([0.3137 * ((j * (2 + k) + salt) % 5) + 0.01291 * j
                   for k in range(d)], axis=1).astype(np.float32)
  cids = np.repeat(np.arange(B), csizes)
  sizes = np.array(sizes, np.int32)
  if kind.startswith('ids'):
    # in another order
    perm = np.argsort((i * 5 + salt) % max(n, 1), kind='stable')
    if 'without' in kind and not (ids == B - 1).any():
      ids = ids + (B - 1 - ids.max())
    cloud = [pts[perm], ids[perm].astype(np.int32)]
    feats = feats[perm]
  elif kind.startswith('sizes'):
    cloud = [pts, sizes]
  else:
    width = max(sizes)
    if kind == 'padded without sizes':
      width = max(1, min(sizes))
      all_ = np.tile(pts[:width], [B, 1])[:B * width]
      pts = (all_ + 0.05 * np.arange(B * width)[:, None]).astype(np.float32)
      feats = conv.feature_values(B * width, pipeline.IN, salt)
      cloud = [pts.reshape(B, width, d), np.zeros([B], np.int32)]
      feats = feats.reshape(B, width, -1)
    else:
      rows = np.split(pts, np.cumsum(sizes)[:-1])
      frows = np.split(feats, np.cumsum(sizes)[:-1])
      cloud = [ref.pad(rows, [B], width, d),
               sizes]
      feats = ref.pad(frows, [B], width, pipeline.IN)
  return cloud + [feats, cpts, cids.astype(np.int32)]


def build(kind, a, b):
  if kind == 'ids':
    return pc.PointCloud(a, batch_ids=b, batch_size=B)
  if kind == 'ids without batch size':
    return pc.PointCloud(a, batch_ids=b)
  if kind == 'padded without sizes':
    return pc.PointCloud(a, batch_size=B)
  if kind in ('padded', 'sizes'):
    return pc.PointCloud(a, sizes=b, batch_size=B)
  return pc.PointCloud(a, sizes=b)


def first_option(logits, num_samples, *args, **kwargs):
  """Stands in for random choices: the last possible option."""
  n = tf.shape(logits)[1]
  key = tf.where(tf.math.is_finite(logits) & (logits > -1e20),
                 tf.cast(tf.range(n), tf.float32)[None], -1.0)
  best = tf.argmax(key, axis=1, output_type=kwargs.get('dtype') or tf.int64)
  return tf.repeat(best[:, None], num_samples, axis=1)


def networks(d):
  if d not in _CTX:
    net = pipeline.make_layers(d)
    for k, (name, t) in enumerate((('PointResNet', 'MCConv'),
                                   ('PointResNetBottleNeck', 'KPConv'),
                                   ('PointResNetSpatialBottleNeck', 'mc'))):
      args = dict(num_features=pipeline.IN, num_blocks=1, num_dims=d,
                  layer_type=t)
      if t != 'KPConv':
        args.update(num_mlps=1)
      else:
        args.update(num_kernel_points=8, bottle_neck_num_features=2,
                    custom_kernel_points=c14.custom(8, d))
      net[name] = getattr(layers, name)(**args)
    _CTX[d] = net
  return _CTX[d]


def compute(d, kind, part, a, b, feats, cpts, cids):
  """All outputs, by name."""
  net = networks(d)
  cin = build(kind, a, b)
  cout = pc.PointCloud(cpts, batch_ids=cids, batch_size=B)
  out = {}
  if part == 'clouds':
    out['points'] = cin.get_points()
    out['wide'] = cin.get_points(max_num_points=25)
    out['sizes'] = cin.get_sizes()
    out['flat'], out['ids'] = cin._points, cin._batch_ids
    box = cin.get_AABB()
    out['min'], out['max'] = box._aabb_min, box._aabb_max
    out['diameter'] = box.get_diameter()
    grid = pc.Grid(cin, np.array(pipeline.RADII[:d], np.float32))
    out['keys'], out['cells'] = grid._sorted_keys, grid.get_DS()
    cin.set_batch_shape([1, B])
    out['reshaped'] = cin.get_points()
    out['reshaped sizes'] = cin.get_sizes()
  elif part == 'structures':
    out = pipeline.structures(cin, cout, d)
    radii = np.array(pipeline.RADII[:d], np.float32)
    nb = pc.Neighborhood(pc.Grid(cin, 1.07), 1.07, cout, max_neighbors=2)
    out['limited'], out['limited ranges'] = nb._neighbors, \
        nb._samples_neigh_ranges
    nb = pc.Neighborhood(pc.Grid(cin, radii), radii, cout)
    nb.compute_pdf(bandwidth=0.4, normalize=True)
    out['normalised'] = nb.get_pdf()
    out['normalised density'] = density_estimation(
        cin, 0.3, radii, normalize=True)
    h = pc.PointHierarchy(cin, [0.83, [2.13]], 'cell average')
    for i, x in enumerate(h.get_points()):
      out['hierarchy %d' % i] = x
    for i, x in enumerate(h.get_sizes()):
      out['hierarchy sizes %d' % i] = x
    for i, x in enumerate(h.get_neighborhood(transposed=True)):
      out['hierarchy back %d' % i] = x._original_neigh_ids
  elif part == 'poisson':
    s, ids = pc.poisson_disk_sampling(cin, 1.1, return_ids=True)
    out['samples'], out['sample ids'], out['ids'] = s._points, s._batch_ids, \
        ids
    h = pc.PointHierarchy(cin, [0.8, 1.9])
    for i, x in enumerate(h.get_points()):
      out['hierarchy %d' % i] = x
  elif part == 'convolutions':
    nb = pc.Neighborhood(pc.Grid(cin, RADIUS), RADIUS, cout)
    for name in pipeline.CONVS:
      out[name] = net[name](feats, cin, cout, RADIUS)
      out[name + ' padded'] = net[name](feats, cin, cout, RADIUS,
                                        return_padded=True)
      out[name + ' sorted'] = net[name](feats, cin, cout, RADIUS,
                                        return_sorted=True)
      if 'Pooling' not in name:
        out[name + ' given'] = net[name](feats, cin, cout, RADIUS,
                                         neighborhood=nb)
      if name == 'KPConvDeform':
        out['loss'] = net[name].regularization_loss()
  elif part == 'derivatives':
    names = [n for n in pipeline.CONVS if 'Pooling' not in n] + ['Conv1x1']
    variables = [v for n in names for v in net[n].trainable_variables]
    with tf.GradientTape() as tape:
      tape.watch(feats)
      total = 0.0
      for name in names:
        y = net[name](feats, cin) if name == 'Conv1x1' else \
            net[name](feats, cin, cout, RADIUS)
        total += tf.reduce_sum(y * y * 0.125 + y)
    grads = tape.gradient(total, [feats] + variables)
    out = {'by %s %d' % (v.name if k else 'features', k): g for k, (v, g) in
           enumerate(zip([feats] + variables, grads)) if k == 0 or
           g is not None}
  elif part == 'pooling':
    for name in ('GlobalMaxPooling', 'GlobalAveragePooling'):
      out[name] = net[name](feats, cin)
      if kind.startswith('padded'):
        out[name + ' padded'] = net[name](feats, cin, return_padded=True)
    for kw in ({}, {'return_sorted': True}, {'return_padded': True}):
      out['Conv1x1 %s' % kw] = net['Conv1x1'](feats, cin, **kw)
    for name in ('MaxPooling', 'AveragePooling'):
      out[name] = net[name](feats, cin, cin, RADIUS)
  else:
    for name in ('PointResNet', 'PointResNetBottleNeck'):
      for training in (False, True):
        out['%s %s' % (name, training)] = net[name](
            feats, cin, RADIUS, training)
    for training in (False, True):
      out['Spatial %s' % training] = net['PointResNetSpatialBottleNeck'](
          feats, cin, cout, np.array([RADIUS] * 3, np.float32), training)
  return out


def signature(d, kind):
  f = tf.float32
  padded = kind.startswith('padded')
  return [tf.TensorSpec([None, None, d] if padded else [None, d], f),
          tf.TensorSpec([None], tf.int32),
          tf.TensorSpec([None, None, pipeline.IN] if padded else
                        [None, pipeline.IN], f),
          tf.TensorSpec([None, d], f), tf.TensorSpec([None], tf.int32)]


def check(case, rec):
  d, kind, part = case['d'], case['kind'], case['part']
  with mock.patch.object(tf.random, 'categorical', first_option):
    # networks build their variables in the first call
    net = networks(d)
    vectors = size_vectors(case['tier'], part)
    args = [tf.constant(x) for x in inputs(d, kind, (3, 2, 2), 0)]
    compute(d, kind, part, *args)
    norms = [v for n in net.values() for v in getattr(n, 'variables', [])]
    start = [v.numpy() for v in norms]

    def reset():
      for v, x in zip(norms, start):
        v.assign(x)

    # 'poisson' needs a neighbor for every point; always true
    graph = tf.function(lambda *a: compute(d, kind, part, *a),
                        input_signature=signature(d, kind))
    for salt, sizes in enumerate(vectors):
      args = [tf.constant(x) for x in inputs(d, kind, sizes, salt)]
      what = '%s, %s, sizes %s' % (part, kind, list(sizes))
      reset()
      want = {k: npy(v) for k, v in compute(d, kind, part, *args).items()}
      reset()
      got = {k: npy(v) for k, v in graph(*args).items()}
      need(set(got) == set(want), '%s: outputs %s', what,
           sorted(set(got) ^ set(want)))
      for k in sorted(want):
        need(got[k].shape == want[k].shape, '%s, %s: shape %s in graph mode, '
             '%s in eager mode', what, k, got[k].shape, want[k].shape)
        if want[k].dtype.kind in 'iub':
          same = np.array_equal(got[k], want[k])
        else:
          same = np.allclose(got[k], want[k], rtol=1e-4, atol=1e-5,
                             equal_nan=True)
        need(same, '%s, %s: %s in graph mode, %s in eager mode', what, k,
             got[k].tolist(), want[k].tolist())
      rec.op(2 * len(want))
      rec.trace()
      rec.state((case['d'], kind, part, sizes))
    need(graph.experimental_get_tracing_count() == 1, '%s: traced %d times',
         part, graph.experimental_get_tracing_count())
