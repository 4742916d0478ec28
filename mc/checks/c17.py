"""C17: layers accept and return features in every documented layout."""

import itertools

import numpy as np

from mc import conv, ref
from mc.checks import c14
from mc.impl import layers, need, need_close, npy, pc

LAYERS = ['Conv1x1', 'MCConv', 'PointConv', 'KPConv', 'KPConvDeform',
          'MaxPooling', 'AveragePooling', 'PointResNet',
          'PointResNetBottleNeck', 'PointResNetSpatialBottleNeck']
RADIUS = 1.25
SHAPES = {'quick': [([2], 2), ([3], 2), ([2, 2], 1), ([2, 1], 2),
                    ([1, 2, 1], 2), ([1], 3)],
          'thorough': [([2], 3), ([3], 2), ([2, 2], 2), ([2, 1], 3),
                       ([1, 2, 2], 1), ([1], 4), ([2, 1, 2], 2), ([4], 2)]}


def cases(tier):
  nmax = 4 if tier == 'quick' else 5
  k = 0
  for name in LAYERS:
    for n in range(1, nmax + 1):
      for ids in itertools.product(range(3), repeat=n):
        k += 1
        if tier == 'quick' and k % (
            6 if name.startswith('PointResNet') else
            1 if name == 'Conv1x1' else 2):
          continue
        b = 3 if k % 2 else 4
        yield {'layer': name, 'ids': list(ids), 'b': b,
               'shape': [None, [b, 1], [2, 2] if b == 4 else [1, 3, 1]][k % 3]}
    for shape, v in SHAPES[tier]:
      b = int(np.prod(shape))
      for sizes in itertools.product(range(v + 1), repeat=b):
        if sum(sizes):
          yield {'layer': name, 'shape': shape, 'v': v, 'sizes': list(sizes)}
    for b, n in ((3, 300), (70, 140)):
      if name.startswith('PointResNet') and b == 70:
        continue
      yield {'layer': name, 'ids': [(i * i + 3 * i) % b for i in range(n)],
             'b': b, 'shape': [None, [7, 10]][b == 70]}


def make_layer(name, c1, c2):
  """Returns call(features, cloud in, cloud out, **layout)."""
  r = RADIUS
  if name == 'Conv1x1':
    layer = layers.Conv1x1(c1, c2)
    conv.set_weights(layer)
    return lambda f, a, o, **kw: layer(f, a, **kw)
  if name == 'MCConv':
    layer = layers.MCConv(c1, c2, 2, 2, [4])
  elif name == 'PointConv':
    layer = layers.PointConv(c1, c2, 2, 8)
    w = conv.set_weights(layer)
    w['pdf_biases_2'].assign([[6.0]])
    return lambda f, a, o, **kw: layer(f, a, o, r, **kw)
  elif name == 'KPConv':
    layer = layers.KPConv(c1, c2, 8, 2, custom_kernel_points=c14.custom(8, 2))
  elif name == 'KPConvDeform':
    layer = layers.KPConv(c1, c2, 8, 2, deformable=True,
                          custom_kernel_points=c14.custom(8, 2))
  elif name in ('MaxPooling', 'AveragePooling'):
    pool = getattr(layers, name)()
    return lambda f, a, o, **kw: pool(f, a, o, r, **kw)
  elif name == 'PointResNet':
    layer = layers.PointResNet(c1, 1, 2, num_mlps=1)
    return lambda f, a, o, **kw: layer(f, a, r, False, **kw)
  elif name == 'PointResNetBottleNeck':
    layer = layers.PointResNetBottleNeck(c1, 2, 1, 2, num_mlps=1,
                                         projection_shortcuts=True)
    return lambda f, a, o, **kw: layer(f, a, r, False, **kw)
  else:
    layer = layers.PointResNetSpatialBottleNeck(c1, 1, 2, num_mlps=1)
    return lambda f, a, o, **kw: layer(f, a, o, [r, 2 * r, r], False, **kw)
  conv.set_weights(layer)
  return lambda f, a, o, **kw: layer(f, a, o, r, **kw)


def positions(n, shift=0.0):
  i = np.arange(n)
  return np.stack([0.375 * ((i * 5) % 7) + shift, 0.25 * ((i * 3) % 5)],
                  axis=1).astype(np.float32)


def check(case, rec):
  name, shape = case['layer'], case['shape']
  c1, c2 = 3, 4
  if 'ids' in case:
    ids, b = np.array(case['ids']), case['b']
    pts = positions(len(ids))
    cin = pc.PointCloud(pts, batch_ids=ids, batch_size=b)
    if shape is not None:
      cin.set_batch_shape(shape)
    shape = shape or [b]
    feats = conv.feature_values(len(ids), c1)
    rows = ref.split(feats, ids, b)
    width = max(len(r) for r in rows)
  else:
    v, b = case['v'], int(np.prod(shape))
    sizes = case['sizes']
    raw = positions(b * v).reshape(b, v, 2)
    cin = pc.PointCloud(raw.reshape(shape + [v, 2]),
                        sizes=np.array(sizes).reshape(shape))
    ids = np.repeat(np.arange(b), sizes)
    feats = conv.feature_values(len(ids), c1)
    rows = ref.split(feats, ids, b)
    width = v
  # the padding holds other values than zero
  padded = ref.pad([r + 100 for r in rows], [b], width, c1) - 100
  padded = padded.reshape(shape + [width, c1])
  # the output cloud has another order and other sizes
  oids = (2 * np.arange(len(ids) + 2)[::-1] + case.get('b', 0)) % b
  opts = positions(len(oids), 0.125)
  cout = pc.PointCloud(opts, batch_ids=oids, batch_size=b)
  cout.set_batch_shape(shape)
  call = make_layer(name, c1, c2)
  if name in ('Conv1x1', 'PointResNet', 'PointResNetBottleNeck',
              'PointResNetSpatialBottleNeck'):
    out_ids, out_cloud = ids, cin
  else:
    out_ids, out_cloud = oids, cout
  flat = npy(call(feats, cin, cout))
  need(flat.shape[0] == len(out_ids) and flat.ndim == 2,
       '%s: output of shape %s for %d points', name, flat.shape, len(out_ids))
  rec.op()
  order = np.argsort(out_ids, kind='stable')
  out_rows = ref.split(flat, out_ids, b)
  for what, f in (('flat', feats), ('padded', padded)):
    for layout in ({}, {'return_sorted': True}, {'return_padded': True},
                   {'return_sorted': True, 'return_padded': True}):
      if what == 'flat' and not layout:
        continue
      got = npy(call(f, cin, cout, **layout))
      rec.op()
      text = '%s, %s features, %s' % (name, what, layout)
      if layout.get('return_padded'):
        widths = {max(len(r) for r in out_rows)}
        if out_cloud is cin:
          widths.add(width)
        need(got.ndim == len(shape) + 2 and got.shape[-2] in widths,
             '%s: shape %s', text, got.shape)
        want = ref.pad(out_rows, shape, got.shape[-2], flat.shape[1])
      elif layout:
        want = flat[order]
      else:
        want = flat
      need_close(got, want, text, rtol=1e-4, atol=1e-5)
  rec.state((name, ids.tolist(), list(shape), out_ids.tolist()))
