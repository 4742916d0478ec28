"""C41: requests which cannot be answered are refused, and leave no trace.

Every scene holds objects, the requests which the documentation excludes, and
requests with an answer. All histories of these up to a depth, with one refused
request at least, are run on fresh objects: every excluded request has to raise,
and every answer has to be the one the fresh objects give."""

import itertools
import os
import tempfile

import numpy as np
import tensorflow as tf

from pylib import io

from mc import conv
from mc.checks import c14
from mc.impl import Violation, canonical, layers, need, npy, pc  # noqa: F401

LAYERS = ['MCConv', 'PointConv', 'KPConv', 'KPConvDeform', 'Conv1x1',
          'GlobalMaxPooling', 'GlobalAveragePooling', 'MaxPooling',
          'AveragePooling', 'PointResNet', 'PointResNetBottleNeck',
          'PointResNetSpatialBottleNeck']
POINTS = {
    # clouds with the ids of their points
    0: ([0, 0, 1, 1, 1], 2),
    1: ([2, 0, 0, 2, 3, 0], 4),
    2: ([0, 0, 0, 0], 1),
}
DEPTH = {'quick': 2, 'thorough': 3}
CAT = {'cloud': 3, 'neighborhood': 2, 'hierarchy': 2, 'files': 2}


def cases(tier):
  more = tier == 'thorough'
  for kind, depth in CAT.items():
    if kind == 'files':
      for n in (1, 2, 3):
        yield {'kind': kind, 'files': n, 'depth': depth + more}
      continue
    for d in (2, 3) + ((4,) if more else ()):
      for c in sorted(POINTS):
        for shaped in (0, 1):
          if not more and ((d + c + shaped) % 2 or
                           kind == 'hierarchy' and c == 2):
            continue
          yield {'kind': kind, 'd': d, 'cloud': c, 'shaped': shaped,
                 'depth': depth + more}
  for name in LAYERS:
    for d in (2, 3):
      for c in sorted(POINTS):
        if not more and (d, c) not in ((2, 0), (2, 1), (3, 1)):
          continue
        yield {'kind': 'layer', 'layer': name, 'd': d, 'cloud': c,
               'depth': DEPTH[tier]}
  for d in (2, 3, 4, 5):
    for c in sorted(POINTS):
      yield {'kind': 'constructors', 'd': d, 'cloud': c}


def coordinates(ids, d):
  i = np.arange(len(ids))[:, None]
  k = np.arange(d)[None]
  return (((i * (2 * k + 3)) % 7) * 0.25 + 0.0625 * i).astype(np.float32)


def make_cloud(case):
  ids, b = POINTS[case['cloud']]
  pts = coordinates(ids, case['d'])
  cloud = pc.PointCloud(pts, batch_ids=np.int32(ids), batch_size=b)
  if case.get('shaped'):
    cloud.set_batch_shape([b // 2, 2] if b > 1 else [1])
  return cloud, pts, ids, b


def value(x):
  """An answer as something to compare."""
  if isinstance(x, pc.PointCloud):
    return value([x._points, x._batch_ids, x.get_sizes()])
  if isinstance(x, pc.Neighborhood):
    return value([x._neighbors, x._samples_neigh_ranges, x._radii])
  if isinstance(x, (list, tuple)):
    return [value(y) for y in x]
  return npy(x) if x is not None else None


def same(a, b):
  if isinstance(a, list) or isinstance(b, list):
    return isinstance(a, list) and isinstance(b, list) and \
        len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
  if a is None or b is None:
    return a is b
  return a.shape == b.shape and a.dtype == b.dtype and \
      np.allclose(a, b, rtol=1e-6, atol=1e-6, equal_nan=True)


def cloud_scene(case):
  cloud, pts, ids, b = make_cloud(case)
  pool = layers.GlobalMaxPooling()
  shape = [b // 2, 2] if b > 1 else [1]
  outside = [b] if not case['shaped'] else \
      ([b // 2, 0] if b > 1 else [1])
  bad = {
      'get_points(B)': lambda: cloud.get_points(b),
      'get_points(-1)': lambda: cloud.get_points(-1),
      'get_points(B + 3)': lambda: cloud.get_points(b + 3),
      'get_points(list)': lambda: cloud.get_points(outside),
      'set_batch_shape([B + 1])': lambda: cloud.set_batch_shape([b + 1]),
      'set_batch_shape([B, 2])': lambda: cloud.set_batch_shape([b, 2]),
      'set_batch_shape([0])': lambda: cloud.set_batch_shape([0]),
  }
  good = {
      'get_points()': cloud.get_points,
      'get_points(0)': lambda: cloud.get_points(0),
      'get_sizes()': cloud.get_sizes,
      'get_diameter()': lambda: cloud.get_AABB().get_diameter(),
      'pooling': lambda: pool(cloud._points, cloud, case['shaped'] == 1),
      'get_points(max)': lambda: cloud.get_points(max_num_points=9),
  }
  if case['shaped']:
    good['get_points([0..])'] = lambda: cloud.get_points([0] * len(shape))
  else:
    del bad['get_points(list)']
  return bad, good


def neighborhood_scene(case):
  cloud, pts, ids, b = make_cloud(case)
  d = case['d']
  grid = pc.Grid(cloud, np.float32([0.75] * d))
  nb = pc.Neighborhood(grid, np.float32([0.75] * d))
  bad = {
      "sample(nb, 'uniform')": lambda: pc.sample(nb, 'uniform'),
      'poisson_disk_sampling()': lambda: pc.poisson_disk_sampling(cloud),
      'cell_average_sampling()': lambda: pc.cell_average_sampling(cloud),
      'Grid(d + 1 sizes)': lambda: pc.Grid(cloud, [0.5] * (d + 1)),
      'Neighborhood(d + 1 radii)':
          lambda: pc.Neighborhood(grid, [0.5] * (d + 1)),
      'compute_pdf(d + 1 bandwidths)':
          lambda: nb.compute_pdf(bandwidth=[0.5] * (d + 1)),
  }
  good = {
      'sample': lambda: pc.sample(nb, 'cell average')[0],
      'poisson': lambda: [npy(pc.poisson_disk_sampling(
          cloud, neighborhood=nb).get_sizes()) > 0],
      'get_pdf': lambda: nb.get_pdf(bandwidth=0.25),
      'transpose': nb.transpose,
      'nb': lambda: nb,
  }
  return bad, good


def hierarchy_scene(case):
  cloud, pts, ids, b = make_cloud(case)
  d = case['d']
  h = pc.PointHierarchy(cloud, [[0.5] * d, [1.0] * d], 'cell average')
  bad = {
      'set_batch_shape([B + 1])': lambda: h.set_batch_shape([b + 1]),
      'set_batch_shape([B, 3])': lambda: h.set_batch_shape([b, 3]),
      'get_points(B)': lambda: h.get_points(b),
      'get_points(-1)': lambda: h.get_points(-1),
      'get_neighborhood(2)': lambda: h.get_neighborhood(2),
      'get_neighborhood(-3)': lambda: h.get_neighborhood(-3),
      'get_neighborhood(2, transposed)': lambda: h.get_neighborhood(2, True),
      '[3]': lambda: h[3],
      '[-4]': lambda: h[-4],
      'mode': lambda: pc.PointHierarchy(cloud, [[0.5] * d], 'uniform'),
      'cell sizes': lambda: pc.PointHierarchy(cloud, [[0.5] * (d + 1)],
                                              'cell average'),
  }
  good = {
      'get_points()': h.get_points,
      'get_points(0)': lambda: h.get_points(0),
      'get_sizes()': h.get_sizes,
      'len': lambda: len(h),
      'levels': lambda: [h[0], h[1], h[2]],
      'get_neighborhood(1)': lambda: h.get_neighborhood(1),
      'get_neighborhood(transposed)':
          lambda: h.get_neighborhood(transposed=True),
  }
  return bad, good


def make_layer(name, d):
  n_in, n_out, kp = 2, 2, 6
  if name == 'MCConv':
    return layers.MCConv(n_in, n_out, d, 2, [4])
  if name == 'PointConv':
    return layers.PointConv(n_in, n_out, d, 8)
  if name.startswith('KPConv'):
    return layers.KPConv(n_in, n_out, kp, d, deformable='Deform' in name,
                         custom_kernel_points=c14.custom(kp, d))
  if name == 'Conv1x1':
    return layers.Conv1x1(n_in, n_out)
  if name == 'PointResNet':
    return layers.PointResNet(n_in, 1, d, 'MCConv', num_mlps=1)
  if name == 'PointResNetBottleNeck':
    return layers.PointResNetBottleNeck(n_in, 2, 1, d, 'MCConv', num_mlps=1)
  if name == 'PointResNetSpatialBottleNeck':
    return layers.PointResNetSpatialBottleNeck(n_in, 1, d, 'MCConv',
                                               num_mlps=1)
  return getattr(layers, name)()


def call(layer, name, feats, cloud, out, **kw):
  if name == 'Conv1x1' or name.startswith('Global'):
    return layer(feats, cloud, **kw)
  if name in ('MaxPooling', 'AveragePooling'):
    return layer(feats, cloud, out, 0.75, **kw)
  if name == 'PointResNetSpatialBottleNeck':
    return layer(feats, cloud, out, [0.75, 1.0, 0.75], training=False, **kw)
  if name.startswith('PointResNet'):
    return layer(feats, cloud, 0.75, training=False, **kw)
  return layer(feats, cloud, out, 0.75, **kw)


def set_weights(layer):
  for k, v in enumerate(getattr(layer, 'variables', ())):
    n = int(np.prod(v.shape))
    i = np.arange(n)
    w = ((i * 7 + 3 * k) % 11 - 5) * 0.0625
    if 'variance' in v.name:
      w = 0.5 + ((i + k) % 4) * 0.25
    v.assign(np.reshape(w, v.shape).astype(np.float32))


def layer_scene(case):
  cloud, pts, ids, b = make_cloud(case)
  d, name = case['d'], case['layer']
  n = len(ids)
  cells = [0.5] * d
  out = pc.cell_average_sampling(cloud, np.float32(cells))
  layer = make_layer(name, d)
  feats = (((np.arange(2 * n) * 5) % 9) * 0.25 - 1).reshape(n, 2)
  feats = feats.astype(np.float32)
  sizes = np.bincount(ids, minlength=b)
  width = int(sizes.max())
  padded = np.zeros([b, width, 2], np.float32)
  for e in range(b):
    padded[e, :sizes[e]] = feats[np.equal(ids, e)]
  weights_set = []

  def run(f, **kw):
    got = call(layer, name, f, cloud, out, **kw)
    if not weights_set:
      # weights made by the first call; a refused one may come before
      weights_set.append(True)
      set_weights(layer)
      got = call(layer, name, f, cloud, out, **kw)
    return got

  bad = {
      'one feature less': lambda: call(layer, name, feats[:-1], cloud, out),
      'one feature more': lambda: call(layer, name,
                                       np.concatenate([feats, feats[:1]]),
                                       cloud, out),
      'twice the features': lambda: call(layer, name,
                                         np.concatenate([feats, feats]),
                                         cloud, out),
  }
  if n > 2:
    bad['a single feature'] = lambda: call(layer, name, feats[:1], cloud, out)
  if 'Pooling' not in name:
    bad['another number of features'] = lambda: call(
        layer, name, np.tile(feats, [1, 2]), cloud, out)
    bad['features without channels'] = lambda: call(
        layer, name, feats[:, 0], cloud, out)
  good = {
      'features': lambda: run(feats),
      'padded features': lambda: run(padded),
      'other features': lambda: run(feats[:, ::-1] * 2),
  }
  return bad, good


def file_scene(case, tmp):
  names = []
  for i in range(case['files']):
    names.append(os.path.join(tmp, 'f%d.txt' % i))
    with open(names[-1], 'w') as f:
      for j in range(i + 1):
        f.write('%d,%d.5,%d,%d\n' % (i, j, i + j, i * j))
  missing = os.path.join(tmp, 'missing.txt')
  n = len(names)
  tensor, array = io.load_points_from_file_to_tensor, \
      io.load_points_from_file_to_numpy
  bad = {
      'missing': lambda: tensor(missing),
      'missing, numpy': lambda: array(missing),
      'number': lambda: tensor(3),
      'number, numpy': lambda: array(3),
      'list': lambda: tensor(names[:1]),
      'list, numpy': lambda: array(names[:1]),
      'none': lambda: tensor(None),
      'batch with a missing file':
          lambda: io.load_batch_of_points(names + [missing]),
      'batch shape': lambda: io.load_batch_of_points(names,
                                                     batch_shape=[n + 1]),
      'batch shape 2': lambda: io.load_batch_of_points(names,
                                                       batch_shape=[n, 2]),
      'directory': lambda: tensor(tmp),
      'words': lambda: tensor(names[0], delimiter=';'),
      'words, numpy': lambda: array(names[0], delimiter=';'),
  }
  good = {
      'tensor': lambda: tensor(names[-1]),
      'numpy': lambda: array(names[-1]),
      'batch': lambda: io.load_batch_of_points(names),
      'shape': lambda: io.load_batch_of_points(names, batch_shape=[1, n]),
  }
  return bad, good


TYPES = {
    'missing': FileNotFoundError, 'missing, numpy': FileNotFoundError,
    'number': TypeError, 'number, numpy': TypeError, 'list': TypeError,
    'list, numpy': TypeError, 'none': TypeError,
    'batch with a missing file': FileNotFoundError,
    'batch shape': ValueError, 'batch shape 2': ValueError,
    'poisson_disk_sampling()': ValueError,
    'cell_average_sampling()': ValueError,
    'get_points(B)': IndexError, 'get_points(-1)': IndexError,
    'get_points(B + 3)': IndexError,
}


def constructor_requests(case):
  d = case['d']
  ids, b = POINTS[case['cloud']]
  pts = coordinates(ids, d)
  n = len(ids)
  out = {
      'cloud without ids and sizes': (ValueError, lambda: pc.PointCloud(pts)),
      'one dimension': (ValueError, lambda: pc.PointCloud(
          pts[:, 0], batch_ids=np.int32(ids))),
      'one id less': (Exception, lambda: pc.PointCloud(
          pts, batch_ids=np.int32(ids[:-1]))),
      'one id more': (Exception, lambda: pc.PointCloud(
          pts, batch_ids=np.int32(ids + ids[-1:]))),
      'one point': (Exception, lambda: pc.PointCloud(
          pts[:1], batch_ids=np.int32(ids))),
      'only batch size': (ValueError, lambda: pc.PointCloud(
          pts, batch_size=b)),
  }
  for total, mlps in [(3, 2), (4, 3), (8, 16), (5, 4), (1, 2)]:
    out['MCConv, %d features by %d MLPs' % (total, mlps)] = (
        ValueError, lambda t=total, m=mlps: layers.MCConv(2, t, d, m))
  if d != 3:
    for k in (5, 15):
      for deform in (False, True):
        out['KPConv, %d points, %s' % (k, deform)] = (
            ValueError, lambda k=k, f=deform: layers.KPConv(
                2, 2, k, d, deformable=f))
  else:
    for k in (0, 1, 4, 6, 8, 12, 14, 16, 17, 19):
      out['KPConv, %d points' % k] = (
          ValueError, lambda k=k: layers.KPConv(2, 2, k))
      out['spherical, %d points' % k] = (
          ValueError, lambda k=k: layers.utils.spherical_kernel_points(k))
  for mode in ('cubic', 'Linear', ''):
    out['KPConv, mode %r' % mode] = (
        Exception, lambda m=mode: layers.KPConv(
            2, 2, 6, d, kp_interpolation=m,
            custom_kernel_points=c14.custom(6, d)))
  for kind in ('PointResNet', 'PointResNetBottleNeck',
               'PointResNetSpatialBottleNeck'):
    for layer_type in ('Conv', ''):
      out['%s of %r' % (kind, layer_type)] = (
          Exception, lambda k=kind, t=layer_type: getattr(layers, k)(
              2, *([2] if k == 'PointResNetBottleNeck' else []), 1, d, t))
  return out


def refuse(what, act, error):
  try:
    got = act()
  except error:
    return
  except Exception as e:
    raise Violation('%s raises %r instead of %s' % (what, e, error.__name__))
  raise Violation('%s is answered by %s' % (what, str(got)[:300]))


def check(case, rec):
  kind = case['kind']
  if kind == 'constructors':
    for what, (error, act) in constructor_requests(case).items():
      refuse(what, act, error)
      rec.op()
      rec.trace()
      rec.state((case, what))
    return
  with tempfile.TemporaryDirectory(prefix='c41') as tmp:
    def scene():
      if kind == 'files':
        return file_scene(case, tmp)
      return {'cloud': cloud_scene, 'neighborhood': neighborhood_scene,
              'hierarchy': hierarchy_scene, 'layer': layer_scene}[kind](case)

    bad, good = scene()
    want = {}
    for name in good:
      want[name] = value(scene()[1][name]())
    for k in range(1, case['depth'] + 1):
      for history in itertools.product(list(bad) + list(good), repeat=k):
        if history[-1] not in bad:
          continue
        b, g = scene()
        for i, name in enumerate(history):
          what = '%s, after %s' % (name, list(history[:i]))
          if name in b:
            refuse(what, b[name], TYPES.get(name, Exception))
          else:
            need(same(value(g[name]()), want[name]), '%s: other answer', what)
          rec.op()
        for name in g:
          got = value(g[name]())
          need(same(got, want[name]), 'after %s, %s is %s instead of %s',
               list(history), name, got, want[name])
          rec.op()
        rec.trace()
        rec.state((case, history))
